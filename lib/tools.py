"""C21: the database tools in support/ and the server understand each other, and touch only what they are told to."""
import dbm.dumb, dbm.ndbm, hashlib, json, os, random, re, resource, shutil, subprocess, time
import icbh
from unit import UnitCheck, dbfile, dbparse, hx, lat, scratch, unhx, unit

SUFFIXES = ["addr", "email", "home", "nick", "nummsg", "password", "phone", "realname", "secure", "signoff", "signon", "text", "www"]
MON = "Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec".split()
ENV = {"PATH": "/usr/bin:/bin", "PYTHONDONTWRITEBYTECODE": "1", "LC_ALL": "C.UTF-8", "TZ": "UTC"}


def date(days, now):
    t = time.gmtime(now - 86400 * days)
    return "%2d-%s-%d %02d:%02d UTC" % (t.tm_mday, MON[t.tm_mon - 1], t.tm_year, t.tm_hour, t.tm_min)


class Fail(Exception):
    pass


class ToolCheck(UnitCheck):
    id = "C21"
    cap = (40, 900)
    rule = ("A case is a database of 1-8 nicknames (and stray records; values of arbitrary bytes) and a sequence of 4-10 tool runs on it, some with a damaged file or "
            "with no room to write; after each the file is parsed independently and compared with a dictionary, and at the end opened by the server's own code. "
            "Non-trivial: the run reported on, changed or had to protect at least five records. Each tool run is one evaluation.")

    def prepare(self):
        icbh.build_server()
        try:
            self.exe = icbh.build_unit("DB")
        except icbh.BuildError:
            self.exe = None     # other interfaces; the file format is still judged

    def val(self, r):
        k = r.random()
        if k < .5:
            return r.choice(["hello", "a|b", "x = y", "", " lead", "trail ", "http://x/?a=b|c", "\\n", "back\\slash", "\xc3\xa9t\xc3\xa9", "%s", "0"])
        if k < .8:
            return "".join(chr(r.choice([10, 13, 32, 65, 124, 92, 110, 195, 169, 255, 128, 9, 61])) for _ in range(r.randrange(1, 12)))
        return "".join(chr(r.randrange(2, 256)) for _ in range(r.choice([1, 5, 40])))

    def gen(self, r):
        nicks = r.sample(["joe", "jo", "joe.x", "bob", "ann", "server", "admin", "x-1", "joeann", "zed", "b'ob", "cat", "-q", "nick", "-"], r.randrange(1, 8))
        d = {}
        for n in nicks:
            spell = r.choice([n, n, n.capitalize(), n.upper()]) if r.random() < .96 else r.choice(nicks)
            if r.random() < .93:
                d[n + ".nick"] = spell
            for s in SUFFIXES:
                if s in ("nick", "nummsg", "signon", "signoff") or r.random() < .4:
                    continue
                d[n + "." + s] = self.val(r)
            for s in ("signon", "signoff"):
                if r.random() < .75:
                    d[n + "." + s] = "@%d" % r.choice([0, 3, 27, 33, 90, 300, 362, 368, 400, 800, 5000]) if r.random() < .9 else self.val(r)
            m = r.choice([0, 0, 0, 1, 3, 20])
            if m or r.random() < .6:
                d[n + ".nummsg"] = str(m)
            for i in range(1, m + 1):
                d[n + ".header%d" % i] = "Message left at x"
                d[n + ".from%d" % i] = r.choice(nicks)
                d[n + ".message%d" % i] = self.val(r)
        if r.random() < .3:
            d[r.choice(["stray", "joe.nickname", "x.nick.2", "nick", "bob.header", "joe.message0"])] = self.val(r)
        items = list(d.items())
        r.shuffle(items)
        # the database may be where the tools look for it by themselves
        ops = [["init", items, r.choice(["db", "icbdb", "icbdb", "./icbdb", "sub dir/db", "/icbdb", "sub dir/x.db"])]]
        some = lambda: r.choice(nicks + ["nobody"])
        for _ in range(r.randrange(4, 10)):
            k = r.random()
            if k < .16:
                ops.append(["set", some() + "." + r.choice([x for x in SUFFIXES if x not in ("nick", "nummsg")]), self.val(r).replace("\0", "")])
            elif k < .36:
                l = [some() for _ in range(r.choice([1, 1, 1, 2, 3]))]
                ops.append(["del", [x if r.random() < .7 else x.upper() for x in l], int(r.random() < .5)])
            elif k < .44:
                ops.append(["count"])
            elif k < .52:
                ops.append(["cat"])
            elif k < .66:
                ops.append(["copy"])
            elif k < .74:
                ops.append(["find"] + [some() for _ in range(r.choice([1, 1, 2, 3]))])
            elif k < .88:
                ops.append(["prune", r.choice([None, 30, 365, 1000]), r.choice(["-y", "-yq", "y", "n"] + [[r.choice(["y", "y", "n", "", "q", "Yes", " y ", "no", "Quit", "NAY", "maybe", "oy"]) for _ in range(r.randrange(0, 8))]] * 4)])
            elif k < .91:
                ops.append(["mk", r.choice(["", "Boss"]), r.choice(["", "here@there"]), ""])
            elif k < .95:
                ops.append(["migrate", r.choice(["ndbm", "ndbm-same", "dumb"]), r.choice(["y", "Yes", "n", "", "-"]), r.choice([None, None, r.randrange(0, 300)])])
            elif k < .98:
                ops.append(["full", r.randrange(0, 400), some(), r.choice(["set", "set", "del", "mk", "import", "prune"])])
            else:
                ops.append(["torn", r.random(), r.choice(["set", "del", "cat", "count"])])
        return ops

    def on(self, flag=None):
        """the arguments that name the database"""
        if self.base == "icbdb":
            return []
        b = self.d + self.base if self.base[0] == "/" else self.base
        return [flag, b] if flag else [b]

    def tool(self, d, name, args=(), inp=b"", limit=None):
        pre = None
        if limit is not None:
            pre = lambda: resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        p = subprocess.run(["/usr/bin/python3", os.path.join(icbh.REPO, "support", name + ".py")] + [a.encode("latin-1") if isinstance(a, str) else a for a in args],
                           cwd=d, env=ENV, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=pre, timeout=60)
        return p.returncode, p.stdout, p.stderr

    def ok(self, r):
        if r[0] != 0:
            raise Fail("failed: status %d, %s" % (r[0], r[2].decode(errors="replace")[-300:]))
        return r[1]

    def judge(self, case):
        d = scratch()
        try:
            return self.judge_in(case["ops"], d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def contents(self, d, db=None):
        p = os.path.join(d, (db or self.base).lstrip("/") + ".db")
        if not os.path.exists(p):
            return {}
        try:
            return dbparse(open(p, "rb").read())
        except ValueError as e:
            raise Fail("the database file is damaged: %s" % e)

    def delete(self, m, nick):
        """all that belongs to a nickname"""
        n = nick.encode("latin-1")
        if not m.get(n + b".nick"):
            n = n.lower()
        num = int(m.get(n + b".nummsg", b"0") or b"0")
        for s in SUFFIXES:
            m.pop(n + b"." + s.encode(), None)
        for i in range(1, num + 1):
            for s in (b"header", b"from", b"message"):
                m.pop(n + b"." + s + b"%d" % i, None)

    def old(self, m, n, days, now):
        t = m.get(n + b".signoff") or m.get(n + b".signon") or b""
        g = re.match(rb"\s*(\d+)-([A-Za-z]+)-(\d+)\s+.*", t)
        if not g or g.group(2).decode() not in MON:
            return False
        return (now - time.mktime((int(g.group(3)), MON.index(g.group(2).decode()) + 1, int(g.group(1)), 0, 0, 0, 0, 0, 0))) / 86400 > days

    def judge_in(self, ops, d):
        m, nts, self.n = {}, set(), 0
        now = time.time()
        self.d, self.base = d, ops[0][2]
        os.mkdir(os.path.join(d, "sub dir"))
        for i, o in enumerate(ops):
            before = dict(m)
            try:
                m = self.do(o, m, d, now)
                if m is None:
                    m = before
                    continue
                got = self.contents(d)
                if got != m:
                    ks = sorted(k for k in set(got) | set(m) if got.get(k) != m.get(k))
                    raise Fail("; ".join("%r is %r, expected %r" % (k, got.get(k), m.get(k)) for k in ks[:3]))
                left = sorted(os.path.join(a, n) for a, _, c in os.walk(d) for n in c)
                if left not in ([os.path.join(d, os.path.normpath(self.base.lstrip("/") + ".db"))], []):
                    raise Fail("left %s behind" % left)
            except Fail as e:
                return "%r: %s" % (o if o[0] != "init" else "init", e), set()
            except subprocess.TimeoutExpired:
                return "%r: does not end" % (o,), set()
            if o[0] != "init":
                self.n += 1
                if len(m) >= 5 or len(before) >= 5:
                    nts.add(hashlib.sha256(repr((sorted(before.items()), o)).encode()).hexdigest()[:12])
        if m and self.exe:
            ks = sorted(m)
            out, st, log = unit(self.exe).run(["cd " + hx(d.encode()), "open 0 %s 384" % hx(self.base.lstrip("/").encode())] + ["fetch 0 " + hx(k) for k in ks])
            if len(out) < 2 + len(ks) or out[1] != "1":
                return "the server cannot open the database: status %d %s" % (st, log[:500]), set()
            for k, x in zip(ks, out[2:]):
                if unhx(x) != m[k]:
                    return "the server reads %r as %r, expected %r" % (k, unhx(x), m[k]), set()
        return None, nts

    def do(self, o, m, d, now):
        k = o[0]
        path = os.path.join(d, self.base.lstrip("/") + ".db")
        if k == "init":
            m = {}
            for a, b in o[1]:
                b = date(int(b[1:]), now) if re.fullmatch(r"@\d+", b) else b
                m[lat(a)] = lat(b)
            with open(path, "wb") as f:
                f.write(dbfile(m))
            return m
        m = dict(m)
        if k == "set":
            self.ok(self.tool(d, "setdb", self.on("-d") + [o[1], o[2]]))
            m[lat(o[1])] = lat(o[2])
        elif k == "del":
            if any(x.encode("latin-1").lower() in (b"",) for x in o[1]):
                return None
            self.ok(self.tool(d, "deldb", (["-q"] if o[2] else []) + self.on("-d") + ["--"] + o[1]))
            for n in o[1]:
                self.delete(m, n)
        elif k == "count":
            out = self.ok(self.tool(d, "countdb", self.on()))
            n = sum(x.endswith(b".nick") for x in m)
            if re.findall(rb"\d+", out) != [b"%d" % n]:
                raise Fail("said %r, there are %d" % (out, n))
        elif k == "cat":
            out = self.ok(self.tool(d, "catdb", self.on()))
            w = b"".join(a + b" = " + b + b"\n" for a, b in m.items())
            if sorted(out.split(b"\n")) != sorted(w.split(b"\n")):
                raise Fail("printed %r, expected %r" % (out[:300], w[:300]))
        elif k == "copy":
            out = self.ok(self.tool(d, "dbexport", self.on()))
            self.ok(self.tool(d, "dbimport", ["db2"], out))
            got = self.contents(d, "db2")
            if os.path.exists(os.path.join(d, "db2.db")):
                os.unlink(os.path.join(d, "db2.db"))
            if got != m:
                ks = sorted(x for x in set(got) | set(m) if got.get(x) != m.get(x))
                raise Fail("export and import: " + "; ".join("%r is %r, expected %r" % (x, got.get(x), m.get(x)) for x in ks[:3]))
        elif k == "find":
            out = self.ok(self.tool(d, "finddb", self.on("-d") + o[1:]))
            if o[1].startswith("-") and self.base == "icbdb":
                return None         # (taken for an option)
            pos = 0
            for n in o[1:]:
                n = n.encode("latin-1")
                st = m.get(n + b".nick")
                w = []
                if st is None:
                    w.append(n + b" not registered.\n")
                elif st.lower() != n.lower():
                    w.append(n)
                else:
                    w += [x.encode() + b": " + m[n + b"." + x.encode()] + b"\n" for x in SUFFIXES if n + b"." + x.encode() in m]
                    for i in range(1, int(m.get(n + b".nummsg", b"0") or b"0") + 1):
                        w += [b"message: %d\n" % i] + [b" " + m.get(n + b".%s%d" % (x, i), b"") + b"\n" for x in (b"header", b"from", b"message")]
                for x in w:
                    q = out.find(x, pos)
                    if q < 0:
                        raise Fail("does not show %r (in this place): %r" % (x, out[:400]))
                    if out[pos:q].strip(b" \n") not in (b"", *((b"NICKNAME: " + n, b"Warning: Nick") if x is w[0] else ())):
                        raise Fail("shows %r before %r" % (out[pos:q], x))
                    pos = q + len(x)
                if st is not None and st.lower() != n.lower():
                    pos = out.index(b"\n", out.index(b"(" + st + b")", pos))
            if out[pos:].strip(b" \n") not in (b"", b"NICKNAME: " + o[-1].encode("latin-1")):
                raise Fail("shows %r after all" % out[pos:])
        elif k == "prune":
            days, how = o[1:]
            auto = isinstance(how, str)
            ans = [how] * 50 if auto else list(how)
            args = self.on("--database") + (["-d", str(days)] if days else []) + ([how] if auto and how[0] == "-" else [])
            order = list(self.contents(d))
            out = self.ok(self.tool(d, "nickprune", args, "".join(x + "\n" for x in ans).encode()))
            if how == "-yq" and b"deleted" in out:
                raise Fail("not quiet: %r" % out[:300])
            if auto and how[0] == "-":
                ans = None
            for x in order:
                if not x.endswith(b".nick") or m.get(x) is None or m[x].lower() in (b"server", b"admin"):
                    continue
                if not self.old(m, x[:-5], days or 365, now):
                    continue
                if ans is not None:
                    a = ans.pop(0).strip().lower()[:1] if ans else "q"
                    if a == "q":
                        break
                    if a != "y":
                        continue
                self.delete(m, x[:-5].decode("latin-1"))
        elif k == "mk":
            a = [x or w for x, w in zip(o[1:], ["Server Admin", "icb@yourdomain.com", "icbadmin@yourdomain.com"])]
            self.ok(self.tool(d, "mkdb", self.on(), "".join(x + "\n" for x in o[1:]).encode()))
            for key, v in zip(("realname", "home", "email"), a):
                m[b"server." + key.encode()] = v.encode()
            m[b"server.nick"] = b"server"
            m[b"server.nummsg"] = b"0"
            got = self.contents(d)
            for key in (b"server.text", b"server.www"):
                if not got.get(key):
                    raise Fail("%r is missing" % key)
                m[key] = got[key]
        elif k == "migrate":
            kind = o[1]
            src = os.path.join(d, "old")
            mod = dbm.dumb if kind == "dumb" else dbm.ndbm
            small = {a: b for a, b in m.items() if 0 < len(b) and len(a) + len(b) < 900}
            x = mod.open(src, "n")
            for a, b in small.items():
                x[a] = b
            x.close()
            old = {n: open(os.path.join(d, n), "rb").read() for n in os.listdir(d) if n.startswith("old")}
            same = kind == "ndbm-same" and "old.db" in old
            dst = "old" if same else "new"
            ask, lim = o[2], o[3]
            there = same
            if not same and ask != "-":
                there = True
                with open(os.path.join(d, "new.db"), "wb") as f:
                    f.write(dbfile({b"other": b"value"}))
                old["new.db"] = dbfile({b"other": b"value"})
            if lim is not None and lim >= len(dbfile(small)):
                lim = None
            st, out, err = self.tool(d, "dbm2icbdb", ["old"] + ([] if same else ["-o", "new"]) + (["-v"] if ask == "Yes" else []), ask.encode() + b"\n" if there else b"", limit=lim)
            yes = not there or ask[:1].lower() == "y"
            now_ = {n: open(os.path.join(d, n), "rb").read() for n in os.listdir(d) if n.startswith(("old", "new"))}
            if not yes or lim is not None:
                for n in os.listdir(d):
                    if n.startswith(("old", "new")):
                        os.unlink(os.path.join(d, n))
                if st == 0:
                    raise Fail("claims success though it was %s" % ("told not to" if not yes else "out of space"))
                if now_ != old:
                    raise Fail("%s, but %s" % ("out of space" if yes else "told not to", "; ".join("%s is %s" % (n, "gone" if n not in now_ else "changed") for n in sorted(set(old) | set(now_)) if old.get(n) != now_.get(n))))
                return m
            self.ok((st, out, err))
            if {n: now_.get(n) for n in old if n != dst + ".db"} != {n: old[n] for n in old if n != dst + ".db"}:
                raise Fail("the old database is gone or changed")
            got = self.contents(d, dst)
            for n in os.listdir(d):
                if n.startswith(("old", "new")):
                    os.unlink(os.path.join(d, n))
            if got != small:
                ks = sorted(x for x in set(got) | set(small) if got.get(x) != small.get(x))
                raise Fail("; ".join("%r is %r, expected %r" % (x, got.get(x), small.get(x)) for x in ks[:3]))
        elif k == "full":
            was = open(path, "rb").read()
            new, n = dict(m), o[2]
            if o[3] == "set":
                new[lat(n + ".text")] = b"much longer than before " * 3
                t = "setdb", self.on("-d") + [n + ".text", "much longer than before " * 3], b""
            elif o[3] == "del":
                self.delete(new, n)
                t = "deldb", self.on("-d") + ["--", n], b""
            elif o[3] == "mk":
                new = dict(m)
                new.update({b"server." + x: y for x, y in ((b"realname", b"Server Admin"), (b"home", b"icb@yourdomain.com"), (b"email", b"icbadmin@yourdomain.com"), (b"nick", b"server"), (b"nummsg", b"0"), (b"text", b""), (b"www", b""))})
                t = "mkdb", self.on(), b"\n\n\n"
            elif o[3] == "import":
                new[b"a.text"] = b"b" * 50
                t = "dbimport", self.on(), b"a.text|" + b"b" * 50 + b"\n"
            else:
                new = None
                t = "nickprune", self.on("--database") + ["-y"], b""
            size = len(dbfile(new)) if new is not None else len(was)
            st, out, err = self.tool(d, *t, limit=min(o[1], size - 1))
            now_ = open(path, "rb").read()
            if new == m or o[3] == "prune" and dbparse(now_) != dbparse(was):
                # nothing to write, or what was left after some found room
                got = self.contents(d)
                if set(got.items()) - set(m.items()):
                    raise Fail("made up records")
                for x in list(m):
                    if x.endswith(b".nick") and m[x].lower() not in (b"server", b"admin") and self.old(m, x[:-5], 365, now) and x not in got:
                        self.delete(m, x[:-5].decode("latin-1"))
                return m
            if st == 0 and o[3] != "prune":
                raise Fail("claims success though the file could not be written")
            if now_ != was:
                raise Fail("changed the file though it could not be written")
        elif k == "torn":
            b = open(path, "rb").read()
            with open(path, "wb") as f:
                f.write(b[:int(o[1] * len(b))])
            t = {"set": ("setdb", self.on("-d") + ["x.text", "y"]), "del": ("deldb", self.on("-d") + ["joe"]), "cat": ("catdb", self.on()), "count": ("countdb", self.on())}[o[2]]
            st, out, err = self.tool(d, t[0], t[1])
            now_ = open(path, "rb").read()
            with open(path, "wb") as f:
                f.write(b)
            if st == 0 and len(m):
                raise Fail("took a truncated file for a database")
            if now_ != b[:int(o[1] * len(b))]:
                raise Fail("changed a truncated file")
        return m

    def case(self, seed):
        info, f = UnitCheck.case(self, seed)
        info["n"] = self.n
        return info, f

    def with_parts(self, case, parts):
        return dict(case, ops=parts)


TOOLS = {"C21": ToolCheck()}
