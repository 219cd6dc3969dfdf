"""Refresh the generated tables of DESIGN.md."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
from allchecks import CHECKS
B, E = "<!-- %s -->", "<!-- /%s -->"
def table():
    o = ["| id | property | how it is decided | quick/thorough cases |", "|---|---|---|---|"]
    man = {c["property"]: c for c in json.load(open(V + "/MANIFEST.json"))["checks"]}
    for l in open(V + "/properties.jsonl"):
        p = json.loads(l)
        c = CHECKS.get(p["id"])
        o.append("| %s | %s | %s %s | %s |" % (p["id"], p["title"], man.get(p["id"], {}).get("technique", ""), c.rule if c else "", "%d / %d" % (c.quick, c.thorough) if c else "n/a"))
    return "\n".join(o)
def bugs():
    res = json.load(open(V + "/tools/bugs/results.json")) if os.path.exists(V + "/tools/bugs/results.json") else {}
    o = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
    for b in sorted(os.listdir(V + "/seeded")):
        m = json.load(open(V + "/seeded/%s/meta.json" % b))
        o.append("| %s | %s | %s | %s |" % (b, m["property"], m["needs"], res.get(b, "?")))
    return "\n".join(o)
s = open(V + "/DESIGN.md").read()
for k, f in (("TABLE", table), ("BUGS", bugs)):
    blk = (B % k) + "\n" + f() + "\n" + (E % k)
    if "@@%s@@" % k in s:
        s = s.replace("@@%s@@" % k, blk)
    else:
        i, j = s.index(B % k), s.index(E % k) + len(E % k)
        s = s[:i] + blk + s[j:]
open(V + "/DESIGN.md", "w").write(s)
