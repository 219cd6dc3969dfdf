#!/usr/bin/env python3
"""mkbug.py SPEC.py : build a seeded bug from a spec (ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO=python source).
Confirms in scratch copies that it builds, passes the tests, and that the demo tells the trees apart."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = "/tmp/bug"


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def tree(d):
    os.makedirs(d, exist_ok=True)
    head = sh("git -C /repo rev-parse HEAD").stdout.decode().strip()
    st = d + ".head"
    if not os.path.exists(st) or open(st).read() != head:
        shutil.rmtree(d)
        os.makedirs(d)
        sh("git -C /repo archive HEAD | tar x -C " + d)
        open(st, "w").write(head)
    return d


def build(d):
    return sh("cmake -S . -B _build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DCMAKE_C_COMPILER=gcc -DCMAKE_C_FLAGS=-Wno-error -DBUILD_TESTING=ON "
              "-DICBD_ENABLE_SSL=ON -DADMIN_PWD=ci_test_pwd && ninja -C _build", cwd=d)


def main():
    spec = {}
    exec(open(sys.argv[1]).read(), spec)
    clean, mut = tree(B + "/clean"), tree(B + "/mut")
    sh("git init -q . 2>/dev/null; true", cwd=mut)
    # restore mut from HEAD
    sh("git -C /repo archive HEAD | tar x -m -C " + mut)
    for f, old, new in spec["EDITS"]:
        p = os.path.join(mut, f)
        s = open(p).read()
        if s.count(old) != 1:
            print("edit does not apply once: %s %r (%d)" % (f, old, s.count(old)))
            return 1
        open(p, "w").write(s.replace(old, new))
    files = sorted({f for f, _, _ in spec["EDITS"]})
    diff = b""
    for f in files:
        r = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, os.path.join(clean, f), os.path.join(mut, f)], stdout=subprocess.PIPE)
        diff += b"diff --git a/%s b/%s\n" % (f.encode(), f.encode()) + r.stdout
    d = os.path.join(V, "seeded", spec["ID"])
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "wb").write(diff)
    r = sh("git -C /repo apply --check " + d + "/patch.diff")
    if r.returncode:
        print("patch does not apply", r.stdout.decode()); return 1
    # lines removed must be original ones
    demo = d + "/demo.py"
    open(demo, "w").write('import os, sys\nsys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))\nfrom demolib import *\n' + spec["DEMO"])
    shutil.copy(V + "/tools/demo/demolib.py", d)
    for x in spec.get("EXTRA", []):
        shutil.copy(os.path.join(V, "tools/demo", x), d)
    open(d + "/demo.sh", "w").write('#!/bin/bash\n' + spec.get("PRE", "") + 'export PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 python3 "$(dirname "$0")/demo.py"\n')
    os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": spec["PROPERTY"], "needs": spec["NEEDS"], "what_it_breaks": spec["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    ok = True
    for t in (clean, mut):
        r = build(t)
        if r.returncode:
            print("BUILD FAILED in", t, r.stdout.decode()[-1500:]); ok = False
    if not ok:
        return 1
    for t, want in ((clean, 0), (mut, 1)):
        r = sh("bash %s/demo.sh" % d, cwd=t)
        got = 0 if r.returncode == 0 else 1
        print("demo on", t, "rc", r.returncode, r.stdout.decode(errors="replace")[-500:].strip())
        ok = ok and got == want
    if "--notest" not in sys.argv:
        r = sh("ctest --test-dir _build -j4 --timeout 120", cwd=mut)
        last = [l for l in r.stdout.decode().splitlines() if "tests passed" in l]
        print("ctest:", last)
        ok = ok and r.returncode == 0
    print("KEEP" if ok else "REJECT", spec["ID"])
    return 0 if ok else 1


sys.exit(main())
