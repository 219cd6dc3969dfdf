"""Checks of the building blocks through lib/unit.c: database, crash safety, text, patterns, lists."""
import copy, errno, hashlib, json, os, random, select, shutil, stat, struct, subprocess, tempfile, time
import icbh
from runner import Check


def hx(b):
    if b is None:
        return "-"
    return b.hex() if b else "."


def unhx(s):
    return None if s == "-" else b"" if s == "." else bytes.fromhex(s)


class Unit:
    def __init__(self, exe):
        self.exe = exe
        self.p = None

    def start(self):
        self.log = tempfile.TemporaryFile()
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.log, env={
            "PATH": "/usr/bin:/bin", "LC_ALL": "C", "TZ": "UTC", "ASAN_OPTIONS": "detect_leaks=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1"})

    def run(self, lines):
        """-> answers, exit status of the child, what the sanitizer said"""
        if self.p is None:
            self.start()
        self.log.seek(0, 2)
        at = self.log.tell()
        self.p.stdin.write(("RUN %d\n" % len(lines) + "".join(l + "\n" for l in lines)).encode())
        self.p.stdin.flush()
        out = []
        while True:
            l = self.p.stdout.readline()
            if not l:
                self.p.wait()
                self.p = None
                return out, -999, "the harness ended"
            l = l.decode().rstrip("\n")
            if l.startswith("END "):
                self.log.seek(at)
                return out, int(l[4:]), self.log.read(6000).decode(errors="replace")
            out.append(l)

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()
            self.p = None


_units = {}


def unit(exe):
    k = (os.getpid(), exe)
    if k not in _units:
        _units[k] = Unit(exe)
    return _units[k]


class UnitCheck(Check):
    """A case is a list of operations [name, args...] (bytes as latin-1 strings); subclasses give gen(), line() and want()."""
    cap = (30, 900)
    quick, thorough = 200000, 10 ** 9

    def prepare(self):
        icbh.build_server()
        self.instead = None
        try:
            self.exe = icbh.build_unit(self.part)
        except icbh.BuildError as e:
            # the tree builds, but its parts have other interfaces now: judge from outside
            import allchecks
            print("no harness for this part of the tree, using the server as a whole\n" + str(e)[-600:])
            self.instead = copy.copy(allchecks.CHECKS[self.outside])
            self.instead.id = self.id
            self.instead.prepare()
            self.quick, self.thorough, self.cap = self.instead.quick, self.instead.thorough, self.instead.cap
            self.parts, self.with_parts = self.instead.parts, self.instead.with_parts
            self.case, self.rerun = self.instead.case, self.instead.rerun
            self.rule = self.instead.rule

    def case(self, seed):
        rng = random.Random(seed)
        ops = self.gen(rng)
        c = {"ops": ops, "seed": seed}
        t, nts = self.judge(c)
        key = hashlib.sha256(json.dumps(ops).encode()).hexdigest()[:16]
        info = dict(n=self.weigh(ops), nt=bool(nts), key=key, nts=nts, ops=len(ops), sample=ops[:12], events=self.events(ops))
        return info, ({"case": c, "text": t} if t else None)

    def rerun(self, case):
        return self.judge(case)[0]

    def weigh(self, ops):
        return len(ops)

    def events(self, ops):
        return sorted({o[0] for o in ops})


def lat(s):
    return None if s is None else s.encode("latin-1")


class Stateless(UnitCheck):
    """every operation stands for itself: WANT[name](args) -> expected answer"""

    def judge(self, case):
        ops = case["ops"]
        out, st, log = unit(self.exe).run([self.line(o) for o in ops])
        nts = set()
        for i, o in enumerate(ops):
            if i >= len(out):
                return "%s%r: the code crashed (status %d)\n%s" % (o[0], tuple(o[1:]), st, log[:2500]), nts
            w = self.want(o)
            if w is not None and not self.agree(o, w, out[i]):
                return "%s%r: expected %s, got %s" % (o[0], tuple(o[1:]), self.show(w), self.show(out[i])), nts
            if self.nontrivial(o, w):
                nts.add(hashlib.sha256(repr(o).encode()).hexdigest()[:12])
        return None, nts

    def agree(self, o, w, got):
        return w == got

    def show(self, s):
        r = []
        for x in s.split(" "):
            try:
                r.append(repr(unhx(x)) if len(x) > 1 and len(x) % 2 == 0 else x)
            except ValueError:
                r.append(x)
        return " ".join(r)


# ------------------------------------------------------------------ patterns
class Unspecified(Exception):
    pass


def classset(p, i):
    """the character class starting at p[i] == '[': (set of bytes, index of ']') or None if unterminated"""
    j = i
    rev = p[j + 1:j + 2] == b"^"
    if rev:
        j += 1
    s = set()
    if p[j + 1:j + 2] in (b"]", b"-"):
        j += 1
        s.add(p[j])
    last = p[j] if j < len(p) else 0
    j += 1
    while j < len(p) and p[j:j + 1] != b"]":
        if p[j:j + 1] == b"-" and j + 1 < len(p) and p[j + 1:j + 2] != b"]":
            j += 1
            if last > 127 or p[j] > 127:
                raise Unspecified       # a range up to half a character
            s |= set(range(last, p[j] + 1))
        else:
            s.add(p[j])
        last = p[j]
        j += 1
    if j >= len(p):
        return None
    return (set(range(1, 256)) - s if rev else s), j


def wild(text, p):
    toks, i = [], 0
    while i < len(p):
        c = p[i:i + 1]
        if c == b"\\":
            i += 1
            if i >= len(p):
                return False
            toks.append({p[i]})
        elif c == b"?":
            toks.append(None)
        elif c == b"*":
            toks.append("*")
        elif c == b"[":
            r = classset(p, i)
            if r is None:
                return False
            toks.append(r[0])
            i = r[1]
        else:
            toks.append({p[i]})
        i += 1
    cur = {0}
    for t in toks:
        if t == "*":
            cur = set(range(min(cur), len(text) + 1)) if cur else cur
        else:
            cur = {k + 1 for k in cur if k < len(text) and (t is None or text[k] in t)}
    return len(text) in cur


class WildCheck(Stateless):
    id = "C23"
    part, outside = "WILD", "C08"
    rule = ("A case is 60 pattern/text pairs (patterns of literals, ?, *, quoted characters and classes, some malformed; texts often derived from "
            "the pattern) decided by an independent matcher. Each pair counts as one evaluation. Non-trivial: the pattern has a wildcard and "
            "either matches, or stops matching by a single-character change of a match.")

    def gen(self, r):
        ops = []
        for _ in range(60):
            al = r.choice(["ab", "ab.", "abc@.-", "aAbB1", "ab]^[-*?\\", "a\xe9b"])
            p = ""
            t = ""
            for _ in range(r.choice([0, 1, 2, 3, 4, 5, 6, 8, 12, 30])):
                k = r.random()
                c = r.choice(al)
                if k < .45:
                    if c in "*?[\\":
                        p += "\\"
                    p += c
                    t += c
                elif k < .62:
                    p += "*"
                    t += "".join(r.choice(al) for _ in range(r.choice([0, 0, 1, 2, 5])))
                elif k < .72:
                    p += "?"
                    t += c
                elif k < .78:
                    p += "\\" + c
                    t += c
                elif k < .95:
                    inner = r.choice(["", "^"])
                    inner += r.choice(["", "", "]", "-"])
                    for _ in range(r.randrange(0 if inner[-1:] in "]-" and inner else 1, 4)):
                        lo, hi = r.choice("ab.A1^[*\\"), r.choice("abcz.Z9]")
                        inner += lo + "-" + hi if r.random() < .4 and hi != "]" else lo
                    inner += r.choice(["", "", "-"])
                    q = "[" + inner + "]"
                    s = classset(q.encode("latin-1"), 0)
                    p += q
                    c2 = [x for x in (s[0] if s else ()) if 32 <= x < 127]
                    t += chr(r.choice(c2)) if c2 else c
                else:
                    p += r.choice(["[", "[a", "[^", "\\", "[]", "[-", "[a-"])
                    t += c
            k = r.random()
            if k < .25 and t:
                i = r.randrange(len(t))
                t = t[:i] + r.choice(al) + t[i + 1:]
            elif k < .35 and t:
                i = r.randrange(len(t))
                t = t[:i] + t[i + 1:]
            elif k < .45:
                i = r.randrange(len(t) + 1)
                t = t[:i] + r.choice(al) + t[i:]
            elif k < .5:
                t = "".join(r.choice(al) for _ in range(r.randrange(8)))
            ops.append(["wild", t, p])
        return ops

    def line(self, o):
        return "wild %s %s" % (hx(lat(o[1])), hx(lat(o[2])))

    def want(self, o):
        try:
            return str(int(wild(lat(o[1]), lat(o[2]))))
        except Unspecified:
            return None

    def nontrivial(self, o, w):
        return any(c in o[2] for c in "*?[") and (w == "1" or len(o[1]) > 0)

    def events(self, ops):
        return [k for k, c in (("star", "*"), ("class", "["), ("quote", "\\"), ("negated", "[^"), ("any", "?")) if any(c in o[2] for o in ops)]


# ------------------------------------------------------------------ text
def seqlen(b):
    return 2 if 0xC2 <= b <= 0xDF else 3 if 0xE0 <= b <= 0xEF else 4 if 0xF0 <= b <= 0xF4 else 0


def second(b):
    return {0xE0: (0xA0, 0xBF), 0xED: (0x80, 0x9F), 0xF0: (0x90, 0xBF), 0xF4: (0x80, 0x8F)}.get(b, (0x80, 0xBF))


def filtertext(s, n):
    s = s[:n]
    out, i = b"", 0
    while i < len(s):
        b = s[i]
        if b < 0x80:
            if b >= 0x20:
                out += bytes([b])
            i += 1
            continue
        k = seqlen(b)
        if not k:
            out += b"?"
            i += 1
            continue
        j = i + 1
        while j < i + k and j < len(s):
            lo, hi = second(b) if j == i + 1 else (0x80, 0xBF)
            if not lo <= s[j] <= hi:
                break
            j += 1
        if j == i + k:
            out += s[i:j]
        elif j < len(s):
            out += b"?"
        i = j
    return out


NICKOK = b"-.!'$+,/?_@"
GROUPOK = b"-.!'$+,/?_~"


def names(s, ok):
    return bytes(c if chr(c).isalnum() and c < 128 or c in ok else ord("_") if c == 32 else ord("?") for c in s)


def fmt(s, n):
    i, num, bad = 0, 0, 0
    while True:
        i = s.find(b"%", i)
        if i < 0:
            break
        c = s[i + 1:i + 2]
        if c == b"s":
            num += 1
        elif c != b"%":
            bad += 1
            i += 1
            continue
        i += 2
    return (0, -1) if bad else (0, num) if num != n else (1, n)


def upto(s, stops):
    for i, c in enumerate(s):
        if c in stops:
            return s[:i]
    return s


class TextCheck(Stateless):
    id = "C22"
    part, outside = "TEXT", "C03"
    rule = ("A case is 60 texts (ASCII, multibyte characters of every length and boundary code point, truncated, overlong and surrogate sequences, control "
            "characters, separators, over-long words) through one of the text operations, decided by an independent implementation. Each counts as one "
            "evaluation. Non-trivial: the operation had to change, shorten, split or refuse the text, or the text has multibyte characters.")

    def text(self, r, n=None):
        n = r.choice([0, 1, 2, 3, 5, 8, 13, 20, 40, 70, 250]) if n is None else n
        out = b""
        while len(out) < n:
            k = r.random()
            if k < .35:
                out += r.choice([b"a", b"Zz", b"0", b" ", b"  ", b"word", b"%s", b"%%", b"%", b"%d", b"~", b"@", b"\x7f", b"_?", b"[]{}", b"^`/:"])
            elif k < .6:
                cp = r.choice([0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd000, 0xd7ff, 0xe000, 0xffff, 0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff,
                               r.randrange(0x80, 0x800), r.randrange(0x800, 0xd800), r.randrange(0xe000, 0x10000), r.randrange(0x10000, 0x110000)])
                b = chr(cp).encode()
                if r.random() < .25:
                    b = b[:r.randrange(1, len(b))] if r.random() < .7 else b[1:]
                out += b
            elif k < .75:
                out += r.choice([b"\xed\xa0\x80", b"\xc0\x80", b"\xe0\x9f\xbf", b"\xf0\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf5", b"\xff", b"\xfe", b"\x80", b"\xbf",
                                 b"\xc1\xbf", b"\xf8\x88\x80\x80\x80", b"\xed\x9f", b"\xe2\x28\xa1", b"\xf0\x9f\x98", b"\xe2\x82", b"\xc3"])
            elif k < .88:
                out += bytes([r.choice([1, 2, 7, 8, 9, 10, 13, 27, 31])])
            else:
                out += bytes([r.randrange(1, 256)])
        return out.replace(b"\0", b"\1").decode("latin-1")

    def gen(self, r):
        ops = []
        for _ in range(60):
            k = r.choice(["text"] * 6 + ["nickname", "group", "lcase", "ucase", "fmt", "fmt", "word", "tail", "split", "split"])
            if k == "text":
                t = self.text(r)
                n = max(1, r.choice([len(t), len(t) + 1, len(t) + 20, len(t) - 1, len(t) - 2, len(t) - 3, r.randrange(1, len(t) + 2), 4096]))
                ops.append([k, t, n])
            elif k == "fmt":
                t = "".join(r.choice(["%s", "%%", "%", "%d", "a", " ", "s", "%%s", "%5s", "%n"]) if r.random() < .8 else self.text(r, 2) for _ in range(r.randrange(6)))
                ops.append([k, t, r.choice([0, 1, 1, 1, 2])])
            elif k in ("word", "tail"):
                t = "".join(r.choice([" ", "\t", "x", "ab", "\xe9", "\x01", "y" * 62, "z" * 63, "w" * 64, "v" * 200, "\n"]) for _ in range(r.randrange(6)))
                ops.append([k, t])
            elif k == "split":
                t = "".join(r.choice(["\x01", "\x01", "a", "bc ", "\xff"]) for _ in range(r.choice([0, 3, 10, 30, 60])))
                ops.append([k, t])
            else:
                ops.append([k, self.text(r)])
        return ops

    def line(self, o):
        return " ".join([o[0], hx(lat(o[1]))] + [str(x) for x in o[2:]])

    def want(self, o):
        k, s = o[0], lat(o[1])
        if k == "text":
            return hx(filtertext(s, o[2]))
        if k == "nickname":
            return hx(names(s, NICKOK))
        if k == "group":
            return hx(names(s, GROUPOK))
        if k == "lcase":
            return hx(bytes(c + 32 if 65 <= c <= 90 else c for c in s))
        if k == "ucase":
            return hx(bytes(c - 32 if 97 <= c <= 122 else c for c in s))
        if k == "fmt":
            return "%d %d" % fmt(s, o[2])
        if k == "word":
            return hx(upto(s, b" \t")[:63])
        if k == "tail":
            return hx(s[len(upto(s, b" \t")):].lstrip(b" \t"))
        if k == "split":
            f = s.split(b"\x01", 19)
            return " ".join([str(len(f))] + [hx(x) for x in f + [b""] * (20 - len(f))])

    def agree(self, o, w, got):
        if o[0] == "fmt":
            f = got.split(" ")
            return " ".join(f[:2]) == w and (f[2] == "-") == (w[0] == "1") and (w[0] == "1" or len(f[2]) > 1)
        return w == got

    def nontrivial(self, o, w):
        return any(ord(c) > 126 or ord(c) < 32 or c in "% " for c in o[1])


# ------------------------------------------------------------------ lists
def low(b):
    return bytes(c + 32 if 65 <= c <= 90 else c for c in b)


class ListCheck(UnitCheck):
    id = "C24"
    part, outside = "LIST", "C24"
    rule = ("A case is a sequence of about 80 operations on three bounded name lists and one string list (names differing in letter case, patterns, "
            "fills beyond the limit), each answer and the whole list compared with a model.")

    def gen(self, r):
        pool = [r.choice(["a", "b", "Ab", "aB", "joe", "Joe", "JOE", "*", "a*", "*@h?", "x@h1", "y@h2", "[a-c]", "\xe9", "n%d" % r.randrange(60), "[", "b\\*"]) for _ in range(r.choice([3, 6, 12, 40]))]
        mx = [r.choice([1, 2, 3, 5, 32, 50]) for _ in range(3)]
        ops = [["nlinit", i, m] for i, m in enumerate(mx)]
        alpha = r.random() < .5
        for _ in range(r.choice([10, 40, 80, 200])):
            k = r.random()
            i = r.randrange(3) if r.random() < .2 else 0
            n = r.choice(pool)
            if r.random() < .2:
                n = n.swapcase()
            if k < .35:
                ops.append(["nlput", i, n])
            elif k < .5:
                ops.append(["nldel", i, n])
            elif k < .58:
                ops.append(["nlget", i])
            elif k < .66:
                ops.append(["nlpresent", i, n])
            elif k < .74:
                ops.append(["nlmatch", i, r.choice([n, "a", "b", "abc", "x@h1", "z@h12", ""])])
            elif k < .75:
                ops.append(["nlclear", i])
            elif k < .8:
                ops.append(["nldump", i])
            elif k < .88:
                ops.append(["salpha", n, r.randrange(2)] if alpha else [r.choice(["shead", "stail"]), n])
            elif k < .91:
                ops.append(["srel", n, r.choice(pool), r.randrange(2)])
            elif k < .94:
                ops.append(["sdel", n, r.randrange(2)])
            elif k < .97:
                ops.append(["sfind", n, r.randrange(2), r.randrange(2)])
            else:
                ops.append(["sdump"])
        return ops + [["nldump", 0], ["nldump", 1], ["nldump", 2], ["sdump"]]

    def judge(self, case):
        L = {}
        S = []
        lines, want, nts = [], [], set()
        for o in case["ops"]:
            k, a = o[0], [x.encode("latin-1") if isinstance(x, str) else x for x in o[1:]]
            if k.startswith("nl") and k != "nlinit" and a[0] not in L:
                continue
            if k == "nlget" and not L[a[0]][1]:
                continue
            w = None
            if k == "nlinit":
                if a[0] in L:
                    continue
                L[a[0]] = [a[1], [], 0]
                w = "ok"
            elif k == "nlput":
                m, l, _ = L[a[0]]
                old = [x for x in l if low(x) == low(a[1])]
                if old:
                    l.remove(old[0])
                    nts.add("again")
                elif len(l) >= m:
                    l.pop()
                    nts.add("full%d" % m)
                l.insert(0, old[0] if old else a[1])
                L[a[0]][2] = 0
                w = "ok"
            elif k == "nldel":
                l = L[a[0]][1]
                hit = [x for x in l if low(x) == low(a[1])]
                if hit:
                    l.remove(hit[0])
                    L[a[0]][2] = 0
                w = "0" if hit else "-1"
            elif k == "nlget":
                l = L[a[0]]
                w = hx(l[1][l[2]])
                l[2] = (l[2] + 1) % len(l[1])
            elif k == "nlclear":
                L[a[0]][1], L[a[0]][2] = [], 0
                w = "ok"
            elif k == "nlpresent":
                w = str(int(any(low(x) == low(a[1]) for x in L[a[0]][1])))
            elif k == "nlmatch":
                w = str(int(any(wild(a[1], x) for x in L[a[0]][1])))
            elif k == "nldump":
                l = L[a[0]][1]
                w = " ".join(["%d %d 1" % (len(l), len(l))] + [hx(x) for x in l])
            elif k == "salpha":
                f = low if a[1] else bytes
                at = [i for i, x in enumerate(S) if f(a[0]) < f(x)]
                S.insert(at[0] if at else len(S), a[0])
                w = "ok"
            elif k in ("shead", "stail"):
                S.insert(0 if k == "shead" else len(S), a[0])
                w = "ok"
            elif k == "srel":
                if a[1] in S:
                    S.insert(S.index(a[1]) + a[2], a[0])
                    w = "ok"
                else:
                    w = "none"
            elif k in ("sdel", "sfind"):
                pat = k == "sfind" and a[2]
                hit = [x for x in S if (wild(a[0], x) if pat else low(x) == low(a[0]) if a[1] else x == a[0])]
                w = hx(hit[0]) if hit else "none"
                if hit and k == "sdel":
                    S.remove(hit[0])
            elif k == "sdump":
                w = None
                sd = " ".join(["%d 1" % len(S)] + [hx(x) for x in S])
                want.append(sd)
                lines.append("sdump")
                continue
            lines.append(" ".join([k] + [hx(x) if isinstance(x, bytes) else str(x) for x in a]))
            want.append(w)
        out, st, log = unit(self.exe).run(lines)
        for i, w in enumerate(want):
            if i >= len(out):
                return "%s: the code crashed (status %d)\n%s" % (lines[i], st, log[:2500]), set()
            g = out[i]
            if lines[i] == "sdump":
                g = g.split(" ", 1)[1]
            if w != g:
                return "after %d operations, %s: expected %s, got %s" % (i, lines[i], w, out[i]), set()
        if nts:
            return None, {hashlib.sha256(json.dumps(case["ops"]).encode()).hexdigest()[:12]}
        return None, set()

    def events(self, ops):
        return []

    def weigh(self, ops):
        return 1


# ------------------------------------------------------------------ database
MAXREC = 1 << 20


def dbfile(d):
    return b"IDB\x01" + struct.pack("<I", len(d)) + b"".join(struct.pack("<II", len(k), len(v)) + k + v for k, v in d.items())


def dbparse(b):
    if len(b) < 8 or b[:4] != b"IDB\x01":
        raise ValueError("header")
    n, = struct.unpack_from("<I", b, 4)
    at, d = 8, {}
    for _ in range(n):
        if at + 8 > len(b):
            raise ValueError("truncated")
        k, v = struct.unpack_from("<II", b, at)
        at += 8
        if at + k + v > len(b) or k > MAXREC or v > MAXREC:
            raise ValueError("truncated")
        key = b[at:at + k]
        if key in d:
            raise ValueError("key %r twice" % key)
        d[key] = b[at + k:at + k + v]
        at += k + v
    return d


def scratch():
    return tempfile.mkdtemp(prefix="icbu-")


class DbGen:
    def keys(self, r):
        if r.random() < .3:
            # many alike, so that the table's chains hold keys that are nearly the same
            pre = r.choice([b"", b"ab\0", b"\0", b"nick.", b"\xff"])
            post = r.choice([b"", b"", b".nick", b"\0"])
            al = r.choice([b"aA", b"abcdefghijklmnopqrstuvwxyz", bytes(range(256)), b"\0\1", b"aA\0", b"a\xe1"])
            return [pre + bytes(r.choice(al) for _ in range(r.choice([8, 8, 8, 7]) if len(al) < 4 else 2)) + post for _ in range(r.choice([30, 200, 400]))]
        n = r.choice([1, 2, 4, 8, 30, 150])
        base = [b"joe", b"joe.nick", b"joe.n", b"a", b"b", b"", b"\0", b"\0\0", b"joe\0x", b"\xff\xfe", b"server.signon", b"k" * 300]
        return [r.choice(base) if r.random() < .4 else b"key%d.%s" % (r.randrange(n * 2), r.choice([b"nick", b"password", b"text"])) for _ in range(n)]

    def val(self, r):
        k = r.random()
        if k < .1:
            return b""
        if k < .9:
            return bytes(r.randrange(256) for _ in range(r.choice([1, 2, 5, 12, 40])))
        return bytes([r.randrange(256)]) * r.choice([255, 4096, 70000])


class DbCheck(UnitCheck, DbGen):
    id = "C19"
    part, outside = "DB", "C18"
    rule = ("A case is a history of 20-400 operations (store, insert, fetch, delete, sync, close, reopen, in up to three databases at once, keys and values "
            "of arbitrary bytes, tables growing past several resizes, prepared and damaged files) with every answer compared with a dictionary and the "
            "file parsed independently. Non-trivial: something was stored, the file was written, and read back after a reopening.")

    def weigh(self, ops):
        return 1

    def gen(self, r):
        keys = self.keys(r)
        ops = []
        if r.random() < .35:
            d = {}
            for k in keys:
                if r.random() < .7:
                    d[k] = self.val(r)
            items = list(d.items())
            r.shuffle(items)
            b = dbfile(dict(items))
            kind = r.choice(["ok", "ok", "trunc", "magic", "huge", "empty"])
            if kind == "trunc":
                b = b[:r.randrange(len(b))]
            elif kind == "magic":
                i = r.randrange(4)
                b = b[:i] + bytes([b[i] ^ (1 << r.randrange(8))]) + b[i + 1:]
            elif kind == "huge":
                b = b[:4] + struct.pack("<I", len(d) + 1) + b[8:] + struct.pack("<II", *r.choice([(MAXREC + 1, 0), (0, MAXREC + 1), (1 << 31, 1), (0xffffffff, 0xffffffff)]))
            elif kind == "empty":
                b = b""
            ops.append(["file", 0, b.decode("latin-1")])
        if r.random() < .1:
            ops.append(["file", 1, dbfile({b"z": b"1"}).decode("latin-1")])
        nh = r.choice([1, 1, 1, 2, 3])
        for h in range(nh):
            ops.append(["open", h])
        for _ in range(r.choice([20, 60, 120, 400])):
            h = r.randrange(nh)
            k = r.random()
            key = r.choice(keys).decode("latin-1")
            if k < .38:
                ops.append(["store", h, key, self.val(r).decode("latin-1"), int(r.random() < .7)])
            elif k < .6:
                ops.append(["fetch", h, key])
            elif k < .64:
                ops.append(["held"])
            elif k < .8:
                ops.append(["delete", h, key])
            elif k < .85:
                ops.append(["sync", h])
            elif k < .91:
                ops.append(["close", h])
                ops.append(["open", h])
            elif k < .92:
                ops.append(["store", h, key, None, 1])
            elif k < .93:
                ops.append(["fetch", h, None])
            elif k < .935:
                ops.append(["big", h, key, r.choice([MAXREC, MAXREC + 1]), r.randrange(2)])
            elif k < .95:
                ops.append(["all", h])
        for h in range(nh):
            ops += [["sync", h], ["all", h], ["close", h], ["open", h], ["all", h]]
        return ops

    def judge(self, case):
        d = scratch()
        try:
            return self.judge_in(case, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def judge_in(self, case, d):
        mem, disk, bad = {}, {}, {}
        seen = set()
        lines, want = ["cd " + hx(d.encode()), "fds"], [None, None]
        held = None

        def add(l, w):
            lines.append(l)
            want.append(w)

        stage = []          # (index into lines, handle, expected contents): checked on disk afterwards is impossible, so sync points split the run
        for o in case["ops"]:
            k = o[0]
            a = [x.encode("latin-1") if isinstance(x, str) else x for x in o[1:]]
            if k == "file":
                with open(os.path.join(d, "f%d.db" % a[0]), "wb") as f:
                    f.write(a[1])
                try:
                    disk[a[0]] = dbparse(a[1])
                except ValueError:
                    bad[a[0]] = 1
                continue
            if k == "held":
                if held is not None:
                    add("held", hx(held))
                continue
            h = a[0]
            if k == "open":
                if h in mem:
                    continue
                if h in bad:
                    add("open %d %s 384" % (h, hx(b"f%d" % h)), "0")
                    seen.add("refused")
                    continue
                mem[h] = dict(disk.get(h, {}))
                add("open %d %s 384" % (h, hx(b"f%d" % h)), "1")
                if mem[h]:
                    seen.add("reopened")
                continue
            if h not in mem:
                continue
            m = mem[h]
            if k == "store":
                if a[2] is None:
                    add("store %d %s - 1 0" % (h, hx(a[1])), "0")
                    m[a[1]] = b""
                    continue
                if not a[3] and a[1] in m:
                    add("store %d %s %s 0" % (h, hx(a[1]), hx(a[2])), "1")
                else:
                    add("store %d %s %s %d" % (h, hx(a[1]), hx(a[2]), a[3]), "0")
                    m[a[1]] = a[2]
                    seen.add("stored")
            elif k == "big":
                v = b"B" * a[2]
                if a[2] > MAXREC:
                    add("store %d %s %s 1" % (h, hx(a[1]), hx(v)), "-1")
                else:
                    add("store %d %s %s %d" % (h, hx(a[1]), hx(v), a[3]), "1" if a[1] in m and not a[3] else "0")
                    if a[3] or a[1] not in m:
                        m[a[1]] = v
            elif k == "fetch":
                if a[1] is None:
                    add("fetch %d -" % h, "-")
                    held = None
                else:
                    held = m.get(a[1])
                    add("fetch %d %s" % (h, hx(a[1])), hx(held))
            elif k == "delete":
                add("delete %d %s" % (h, hx(a[1])), "0" if a[1] in m else "-1")
                m.pop(a[1], None)
            elif k == "sync":
                add("sync %d" % h, "0")
                disk[h] = dict(m)
            elif k == "close":
                add("close %d" % h, "ok")
                disk[h] = dict(m)
                del mem[h]
                held = None
                seen.add("written")
            elif k == "all":
                for key in sorted(m):
                    add("fetch %d %s" % (h, hx(key)), hx(m[key]))
                held = None
        for h in list(mem):
            add("close %d" % h, "ok")
            disk[h] = mem[h]
        add("fds", None)
        out, st, log = unit(self.exe).run(lines)
        for i, w in enumerate(want):
            if i >= len(out):
                return "%s: the code crashed (status %d)\n%s" % (lines[i][:300], st, log[:2500]), set()
            if w is not None and out[i] != w:
                return "%s: expected %s, got %s" % (lines[i][:300], w[:200], out[i][:200]), set()
        if out[1] != out[-1]:
            return "descriptors: %s open before, %s after closing everything" % (out[1], out[-1]), set()
        for h, m in disk.items():
            p = os.path.join(d, "f%d.db" % h)
            if not os.path.exists(p):
                if m:
                    return "database %d was never written" % h, set()
                continue
            try:
                got = dbparse(open(p, "rb").read())
            except ValueError as e:
                return "file of database %d: %s" % (h, e), set()
            if got != m:
                ks = [k for k in set(got) | set(m) if got.get(k) != m.get(k)]
                return "file of database %d: %r is %r, expected %r" % (h, ks[0][:80], (got.get(ks[0]) or b"")[:80], (m.get(ks[0]) or b"")[:80]), set()
            if "written" in seen and "stored" in seen and h not in bad and os.stat(p).st_mode & 0o077 and not any(o[0] == "file" for o in case["ops"]):
                return "the database file is accessible to others (mode %o)" % (os.stat(p).st_mode & 0o777), set()
        for h in bad:
            if h not in disk:
                b = [o[2] for o in case["ops"] if o[0] == "file" and o[1] == h][-1].encode("latin-1")
                if open(os.path.join(d, "f%d.db" % h), "rb").read() != b:
                    return "a file that could not be read was changed", set()
        if {"stored", "written", "reopened"} <= seen:
            return None, {hashlib.sha256(json.dumps(case["ops"]).encode()).hexdigest()[:12]}
        return None, set()


# ------------------------------------------------------------------ crashes
class CrashCheck(UnitCheck, DbGen):
    id = "C20"
    part, outside = "DB", "C18"
    level = "fault_enumeration"
    rule = ("A case is one database history; in it every file system call of the writing code is enumerated as a crash point (process killed before it, after it, or in "
            "the middle of a write; power lost with unsynced data gone, zeroed or halved) or made to fail (no space, I/O error, short write), one run each. Each such run "
            "is one evaluation. After each, a new process opens the file, and goes on working with it. Non-trivial: the run really ended at, or met, the fault.")
    cap = (40, 1200)
    quick = 100000

    def gen(self, r):
        keys = self.keys(r)[:r.choice([2, 4, 12])]
        ops = []

        def some(n):
            for _ in range(n):
                k = r.choice(keys).decode("latin-1")
                if r.random() < .7:
                    v = self.val(r)
                    ops.append(["store", 0, k, v[:5000].decode("latin-1"), 1])
                else:
                    ops.append(["delete", 0, k])
        some(r.randrange(0, 8))
        ops.append(["sync", 0])
        for _ in range(r.choice([1, 1, 2, 3])):
            some(r.randrange(1, 6))
            if r.random() < .15:
                ops += [["close", 0], ["open", 0]]
            else:
                ops.append(["sync", 0])
        some(r.randrange(0, 4))
        ops.append(["close", 0] if r.random() < .6 else ["sync", 0])
        return ops

    def script(self, ops):
        """lines, and the states of the dictionary after each (states[0] is before everything)"""
        m, lines, states, isopen = {}, ["open 0 %s 384" % hx(b"f")], [{}, {}], True
        durable = [False, False]
        for o in ops:
            k = o[0]
            if k == "open":
                if isopen:
                    continue
                isopen = True
                lines.append("open 0 %s 384" % hx(b"f"))
            elif not isopen:
                continue
            elif k == "store":
                lines.append("store 0 %s %s 1" % (hx(lat(o[2])), hx(lat(o[3]))))
                m = dict(m)
                m[lat(o[2])] = lat(o[3])
            elif k == "delete":
                lines.append("delete 0 " + hx(lat(o[2])))
                m = dict(m)
                m.pop(lat(o[2]), None)
            else:
                lines.append(k + " 0")
                if k == "close":
                    isopen = False
            states.append(m)
            durable.append(k in ("sync", "close"))
        return lines, states, durable

    def judge(self, case):
        d = scratch()
        try:
            return self.judge_in(case, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def wipe(self, d):
        for n in os.listdir(d):
            os.unlink(os.path.join(d, n))

    def dump(self, d, keys, more=False):
        """what a new process finds: dict, or None if it cannot open the database; then go on working with it"""
        ks = sorted(keys)
        p = os.path.join(d, "f.db")
        f = {}
        if os.path.exists(p):
            try:
                f = dbparse(open(p, "rb").read())
            except ValueError as e:
                return None, "damaged file: %s" % e
        op, fetch = "open 0 %s 384" % hx(b"f"), ["fetch 0 " + hx(k) for k in ks]
        go = ["store 0 %s %s 1" % (hx(b"later"), hx(b"x")), "sync 0", "close 0", op] + fetch if more else []
        out, st, log = unit(self.exe).run(["cd " + hx(d.encode()), op] + fetch + go)
        if len(out) < 2:
            return None, "status %d %s" % (st, log[:1500])
        if out[1] != "1":
            return None, "the database cannot be opened"
        if len(out) < 2 + len(ks) + len(go):
            return None, "crash reading it: status %d %s" % (st, log[:1500])
        get = lambda o: {k: unhx(x) for k, x in zip(ks, o) if x != "-"}
        got = get(out[2:])
        if f != got:
            return None, "file and database differ"
        if more:
            rest = out[2 + len(ks):]
            if rest[:2] != ["0", "0"] or rest[3] != "1":
                return None, "after the crash the database cannot be written"
            if get(rest[4:]) != got | {b"later": b"x"}:
                return None, "after the crash and one more store: " + self.diff(get(rest[4:]), [got | {b"later": b"x"}])
        return got, ""

    def judge_in(self, case, d):
        u = unit(self.exe)
        lines, states, durable = self.script(case["ops"])
        keys = set(k for s in states for k in s) | {b"later"}
        head = ["cd " + hx(d.encode())]
        # how many calls are there?
        out, st, log = u.run(head + ["arm 0 0 0 0 0"] + lines + ["disarm"])
        self.wipe(d)
        if st != 0:
            return "without any fault: status %d\n%s" % (st, log[:2000]), set()
        n = int(out[-1])
        runs = []
        r = random.Random(case["seed"])
        pts = list(range(1, n + 1))
        if n > 60 and "only" not in case:
            # every call near the ends of the sequences, and some of the many like ones between
            pts = sorted(set(r.sample(pts, 30) + pts[:8] + pts[-16:]))
        for k in pts:
            runs += [(k, k, a, 0, p) for a, p in ((1, 0), (2, r.choice([1, 2, 3])), (4, r.choice([0, 1, 2, 3])))]
            runs += [(k, r.choice([k, k, k + 2, n]), 3, r.choice([errno.ENOSPC, errno.EIO]), r.choice([0, 0, 1, 2])), (k, r.choice([k, n]), 5, 0, 0)]
        # and after the end of everything
        runs += [(0, 0, 0, 0, p) for p in (0, 1, 2)]
        if "only" in case:
            runs = [tuple(case["only"])]
        nts = set()
        self.n = 0
        for run in runs:
            t = self.one(d, u, head, lines, states, durable, keys, run, nts)
            self.wipe(d)
            self.n += 1
            if t:
                case["only"] = list(run)
                return "fault %s: %s" % (self.describe(run), t), set()
        return None, {hashlib.sha256((json.dumps(case["ops"]) + str(x)).encode()).hexdigest()[:12] for x in nts}

    def describe(self, run):
        k, last, a, e, p = run
        pw = ["", ", power lost: unsynced data gone", ", power lost: unsynced data zeroed", ", power lost: half of the unsynced data gone"][p]
        return {0: "end of process" + pw, 1: "killed before call %d" % k, 2: "killed after call %d%s" % (k, pw), 4: "killed in the middle of call %d%s" % (k, pw),
                3: "calls %d to %d fail: %s%s" % (k, last, errno.errorcode.get(e, e), pw), 5: "calls %d to %d write less" % (k, last)}[a]

    def one(self, d, u, head, lines, states, durable, keys, run, nts):
        k, last, a, e, p = run
        tail = ["exit"] if a == 3 and p else ["disarm", "sync 0"] if a in (3, 5) and not any(l.startswith("close") for l in lines) else ["exit"] if a == 0 else []
        out, st, log = u.run(head + ["arm %d %d %d %d %d" % run] + lines + tail)
        done = len(out) - 2
        if st not in (0, 99):
            return "crash: status %d\n%s" % (st, log[:2000])
        if a in (3, 5):
            # it lives on; a sync that says so really put things on disk
            ok = [{}]           # possible contents of the file
            for i, l in enumerate(lines):
                m = states[i + 1]
                w = out[2 + i]
                if l.startswith("sync"):
                    if w == "0":
                        ok = [m]
                    else:
                        ok.append(m)
                        nts.add(run)
                elif l.startswith("close"):
                    ok = ok + [m]
                elif l.startswith("open"):
                    if w != "1":
                        return "after a failed write the database cannot be opened"
                    if i:
                        return None     # what it holds now depends on whether closing could write
                elif l.startswith("store") and w != "0":
                    return "%s: answered %s" % (l[:100], w)
                ok.append(m)
            if a == 5:
                if any(l.startswith("sync") and w != "0" for l, w in zip(lines, out[2:])):
                    return "a short write was taken for a failure"
                ok = [states[-1]] if tail or durable[-1] else ok
                nts.add(run)
            if tail and not p:
                if out[-1] != "0":
                    return "after the fault is gone, writing still fails"
                ok = [states[-1]]
            got, why = self.dump(d, keys)
            if got is None:
                return why
            if got not in ok:
                return self.diff(got, ok)
            return None
        if st == 99 and a:
            nts.add(run)
        if st == 0 and a:
            done = len(lines)
        if a == 0:
            done = len(lines)
        # states since the last one known to be on disk
        done = min(done, len(lines))
        base = max([i for i in range(1, done + 1) if durable[i]] + [0])
        ok = states[base:min(len(states), done + 2)]
        got, why = self.dump(d, keys, True)
        if got is None:
            return why
        if got not in ok:
            return self.diff(got, ok)
        return None

    def diff(self, got, ok):
        best = min(ok, key=lambda m: sum(got.get(k) != m.get(k) for k in set(got) | set(m)))
        ks = sorted(k for k in set(got) | set(best) if got.get(k) != best.get(k))
        return "contents belong to no moment: %s" % ", ".join("%r is %r, not %r" % (k[:40], (got.get(k) or b"(none)")[:40], (best.get(k) or b"(none)")[:40]) for k in ks[:4])

    def case(self, seed):
        info, f = UnitCheck.case(self, seed)
        info["n"] = self.n
        return info, f

    def with_parts(self, case, parts):
        # calls shift when operations are left out: look at all of them again
        return {"ops": parts, "seed": case["seed"]}

    def events(self, ops):
        return []


UNIT = {c.id: c() for c in (DbCheck, CrashCheck, TextCheck, WildCheck)}
