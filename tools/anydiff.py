"""One short general run of the client histories where every difference counts (for tools/mutate.py).
exit 0 none, 1 some, 2 no build"""
import os, sys, multiprocessing as mp, random, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import icbh, props, allchecks
from chatcheck import ChatCheck
T = float(os.environ.get("ANY_S", "12"))
NW = int(os.environ.get("ICB_WORKERS", "6"))
names = os.environ.get("ANY_CHECKS", "").split() or None


def work(wid, q, stop, t_end, chks):
    os.environ["ICB_WNET"] = str((wid * 7 + os.getpid()) % 250 + 1)
    rng = random.Random(wid * 1000 + 5)
    while time.time() < t_end and not stop.is_set():
        c = rng.choice(chks)
        try:
            info, f = c.case(rng.randrange(1 << 40))
        except Exception as e:
            info, f = {}, {"text": "exception %r" % e}
        t = f and f["text"] or (info or {}).get("foreign")
        if t:
            q.put((c.id, t))
            stop.set()
            return
    q.put(None)


chks = [c for k, c in sorted(allchecks.CHECKS.items()) if (k in names if names else isinstance(c, ChatCheck) and k not in ("C32", "C04") and c.quick > 500)]
try:
    for c in chks:
        c.prepare()
except icbh.BuildError as e:
    print("nobuild")
    sys.exit(2)
ctx = mp.get_context("fork")
q, stop = ctx.Queue(), ctx.Event()
t_end = time.time() + T
ps = [ctx.Process(target=work, args=(i, q, stop, t_end, chks)) for i in range(NW)]
[p.start() for p in ps]
rs = [q.get() for _ in ps]
[p.join() for p in ps]
rs = [r for r in rs if r]
if rs:
    print(rs[0][0], rs[0][1].replace("\n", " ")[:300])
    sys.exit(1)
print("survived", [c.id for c in chks])
