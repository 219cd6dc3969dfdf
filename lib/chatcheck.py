"""Model-based checks of the chat behaviour: one profile and one focus per property."""
import hashlib, json, random, re
import icbh, gen, model as M
from chat import Run, Div, opname
from icbh import ServerDied, Hang, ProtocolError
from runner import Check

FILES = {"motd": "Welcome\nUp since %U\n100%%\n", "news.1": "one\nmore\n", "news.3": "three\n", "icbd_help": "help text\n"}


class ChatCheck(Check):
    RUN, GEN = Run, gen.G
    nops = 110
    cap = (45, 1500)

    def __init__(self, id, prof, nt, ops=(), frames=None, kinds=(), db=None, rule="", cfg=None, quick=2200, thorough=60000,
                 nops=None, prelogin=False, setup=None, need=None, body=None):
        self.id = id
        self.prof = prof
        self.nt = set(nt)
        self.fops = set(ops)
        self.ffr = re.compile(frames, re.S) if frames else None
        self.kinds = set(kinds)
        self.fdb = re.compile(db, re.S) if db else None
        self.quick, self.thorough = quick, thorough
        self.mkcfg = cfg
        self.fpre = prelogin
        self.setup = setup
        self.need = need
        self.fbody = re.compile(body, re.S | re.I) if body else None
        if nops:
            self.nops = nops
        self.rule = ("A case is a random history of about %d client operations (several connections, some over TLS), chosen while "
                     "watching the reference model; every frame every client receives is compared with the model. Non-trivial: %s."
                     % (self.nops, rule))

    def prepare(self):
        self.exe = icbh.build_server()

    def focus(self, d):
        if d.kind in self.kinds:
            return True
        if d.kind == "db":
            return bool(self.fdb and self.fdb.search(d.detail.encode("latin-1", "replace")))
        if d.kind == "shutdown":
            return "shutdown" in self.fops
        if d.cmd in self.fops:
            return True
        if self.fbody and d.op and d.op[0] == "pkt" and self.fbody.search(d.op[2] + d.op[3]):
            return True
        if self.fpre and d.prelogin:
            return True
        if d.kind == "frames" and self.ffr:
            e, g = d.frames()
            return any(self.ffr.search(x) for x in e[:2] + g[:2] if x is not None)
        return False

    def cfg(self, rng):
        c = {"tls": rng.random() < .25, "files": FILES, "dbeach": bool(self.fdb or "db" in self.kinds) and self.id != "C20"}
        if self.mkcfg:
            c.update(self.mkcfg(rng))
        return c

    def drive(self, run, nxt):
        """feed operations until done; -> failing Div or None"""
        try:
            while True:
                op = nxt()
                if op is None:
                    break
                run.step(op)
            run.final()
        except M.ModelGap:
            pass
        except Div as d:
            return d
        return None

    def open(self, cfg):
        try:
            return self.RUN(self.exe, cfg), None
        except Div as d:
            return None, d
        except (ServerDied, Hang, ProtocolError) as e:
            return None, Div("crash", -1, ["start"], str(e))

    def case(self, seed):
        rng = random.Random(seed)
        cfg = self.cfg(rng)
        run, d = self.open(cfg)
        ops = []
        ev = set()
        if run is not None:
            g = self.GEN(rng, run, self.prof)
            g.begin()
            if self.setup:
                self.setup(g)
            left = [rng.randrange(self.nops // 2, self.nops * 3 // 2)]

            def nxt():
                if left[0] <= 0:
                    return None
                left[0] -= 1
                return g.one()
            try:
                d = self.drive(run, nxt)
            finally:
                run.close()
            ops, ev = run.ops, run.events
        case = {"cfg": cfg, "ops": ops}
        js = json.dumps(ops)
        info = dict(nt=bool(ev & self.nt), key=hashlib.sha256(js.encode()).hexdigest()[:16], sample={"ops": ops[:25], "events": sorted(ev)},
                    ops=len(ops), events=ev)
        fail = None
        if d is not None:
            if self.focus(d):
                fail = {"case": case, "text": d.text()}
            else:
                info["foreign"] = d.text()
                info["foreign_case"] = case
        return info, fail

    def owns(self, case):
        """is a difference outside the focus this property's after all?  Yes if the minimal history showing it
        cannot do without the operations the property is about."""
        return bool(self.need and any(self.need(o, opname(o)) for o in case["ops"]))

    def rerun(self, case, anything=False):
        icbh.set_hang(8)
        run, d = self.open(case["cfg"])
        if run is not None:
            it = iter(case["ops"])
            try:
                d = self.drive(run, lambda: next(it, None))
            finally:
                run.close()
        return d.text() if d is not None and (anything or self.focus(d)) else None
