"""Mutation sweep: which small changes to the C sources does no history notice?

  python3-vt tools/mutate.py N SEED [FILE...]      (scratch copy in /tmp/mutsweep; results appended to /tmp/mutsweep.jsonl)

Each mutant is one edited token or deleted statement.  It is built like the checks build the tree and judged by the
general client histories (every difference from the model counts).  Survivors are for a person to look at: they
are equivalent, or show something the model or the generators do not cover."""
import glob, json, os, random, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("MUTDIR", "/tmp/mutsweep")
OPS = [(r"<=", "<"), (r">=", ">"), (r"(?<![<>=!-])<(?![<=])", "<="), (r"(?<![<>=!-])>(?![>=])", ">="), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
       (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"), (r"\breturn 0;", "return -1;"), (r"\breturn -1;", "return 0;"), (r"\breturn 1;", "return 0;"),
       (r" \+ 1\b", ""), (r" - 1\b", ""), (r"-1\]", "]"), (r"\+\+;", "--;"), (r"(?<=\W)0(?=[;,)])", "1"), (r"(?<=\W)1(?=[;,)])", "0"), (r"\bstrcasecmp\b", "strcmp"), (r"\bif \(", "if (0 && "),
       (r"\bif \(", "if (1 || ")]
SKIP = re.compile(r"^\s*(/\*|\*|//|#|extern|v?mdb ?\(|int |char |long |time_t |const |static |struct )|mdb ?\(")
BADFN = re.compile(r"icbdump|icbload|restart|dumpsockets|loadsockets|c_packet|c_didpoll|c_lostcon")


def lines(f):
    """(index, text) of statement lines worth mutating"""
    out, incomment, fn, off = [], False, "", 0
    for i, l in enumerate(open(f, encoding="latin-1").read().split("\n")):
        m = re.match(r"^(?:[a-z][\w \*]*[ \*])?([a-z_]\w*) ?\(.*[^;]$", l)
        if m:
            fn = m.group(1)
        if re.match(r"\s*#\s*if(def)? (DEBUG|0|TICKLE)", l):
            off = 1
        elif re.match(r"\s*#\s*(endif|else)", l):
            off = 0
        s = l
        if incomment:
            if "*/" in s:
                incomment = False
            continue
        if "/*" in s and "*/" not in s:
            incomment = True
            continue
        if off or SKIP.search(s) or BADFN.search(fn) or not s.strip() or s.strip() in "{}":
            continue
        out.append((i, l, fn))
    return out


def mutants(f):
    for i, l, fn in lines(f):
        for a, b in OPS:
            for m in re.finditer(a, l):
                if l[:m.start()].count('"') % 2:
                    continue
                yield i, l[:m.start()] + b + (l[m.end():] if b[:3] != "if " else l[m.end():].rstrip("{ ")) if False else (l[:m.start()] + b + l[m.end():]), fn
        if re.match(r"^\s+[\w\[\]\.\->]+ ?(\(.*\)|[+-]?= .*|\+\+|--);\s*$", l):
            yield i, re.match(r"^\s+", l).group() + ";", fn


def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    files = sys.argv[3:] or [os.path.relpath(x, "/repo") for x in glob.glob("/repo/server/*.c") + glob.glob("/repo/pktserv/*.c")]
    rng = random.Random(seed)
    if os.path.isdir(R):
        shutil.rmtree(R)
    subprocess.check_call(["git", "clone", "-q", "/repo", R])
    pool = []
    for f in files:
        pool += [(f,) + m for m in mutants(os.path.join(R, f))]
    print(len(pool), "mutants")
    rng.shuffle(pool)
    env = dict(os.environ, ICBD_REPO=R)
    for f, i, new, fn in pool[:n]:
        p = os.path.join(R, f)
        src = open(p, encoding="latin-1").read()
        ls = src.split("\n")
        old, ls[i] = ls[i], new
        if "if (0 && " in new or "if (1 || " in new:
            # keep the parenthesised condition whole where it ends on this line
            k = new.index("&& " if "if (0 && " in new else "|| ") + 3
            d, j = 1, k
            while j < len(new) and d:
                d += {"(": 1, ")": -1}.get(new[j], 0)
                j += 1
            if d:
                continue
            ls[i] = new[:k] + "(" + new[k:j - 1] + "))" + new[j:]
        open(p, "w", encoding="latin-1").write("\n".join(ls))
        try:
            r = subprocess.run([sys.executable, os.path.join(V, "tools", "anydiff.py")], env=env, capture_output=True, text=True, timeout=300)
            st = {0: "SURVIVED", 1: "killed", 2: "nobuild"}.get(r.returncode, "error")
            t = r.stdout.strip().split("\n")[-1][:200]
        except subprocess.TimeoutExpired:
            st, t = "killed", "timeout"
        finally:
            open(p, "w", encoding="latin-1").write(src)
        with open(os.environ.get("MUTOUT", "/tmp/mutsweep.jsonl"), "a") as o:
            o.write(json.dumps(dict(file=f, line=i + 1, fn=fn, old=old.strip(), new=ls[i].strip(), st=st, text=t)) + "\n")
    shutil.rmtree(R)


main()
