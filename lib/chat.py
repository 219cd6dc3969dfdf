"""Run operation lists against the real server and the reference model, side by side.

A case is {"cfg": {...}, "ops": [...]}, JSON, all text latin-1.  Operations:
  ["conn", cid, [a, b], tls]      open a connection from 127.0.a.b
  ["pkt", cid, type, body, nul]   send one packet (nul: terminated or not)
  ["bulk", cid, n, [groups]]      n connections that log in as z<cid>, ... in one of the groups
  ["wander", cid, n, how]         n groups made and given up, one after another (0 by moving on, 1 by a client that leaves)
  ["hup"]                         move the log file away and send SIGHUP
  ["dump", how]                   have the state dumped (SIGUSR1) and compare; how 1: where it cannot be written
  ["close", cid, how]             drop the connection (0 FIN, 1 RST)
  ["half", cid, n]                send the first n bytes of a packet, then drop the connection
  ["tick", seconds, usec]         advance the clock
  ["dying", kind, at, act, op]    do op with the server dying at a call that writes the database file (if it comes to that), and start it again
  ["dbfull", kind, at, n]         such calls fail from the at-th on, n times
  ["dbheal"]                      no more of that
  ["restart", how]                stop the server (0 SIGTERM, 1 SIGKILL) and start it again
Operations on connections that do not exist are skipped, so any sublist is a case too.
"""
import os, re, signal, struct, time
from icbh import *
import model as M

PROBE = -1
CAPACITY = 254      # descriptors below this are for users


class Div(Exception):
    """the server did something the model does not allow"""

    def __init__(self, kind, i, op, detail, exp=(), got=(), cid=None):
        self.kind, self.i, self.op, self.detail = kind, i, op, detail
        self.exp, self.got, self.cid = list(exp), list(got), cid
        self.cmd = opname(op)
        self.prelogin = False
        Exception.__init__(self, kind)

    def text(self):
        s = "%s at op %s %r: %s" % (self.kind, self.i, self.op, self.detail)
        if self.kind == "frames":
            k = 0
            while k < min(len(self.exp), len(self.got)) and self.exp[k] == self.got[k]:
                k += 1
            s += "\n  client %s, frame %d\n  expected %r\n  received %r" % (self.cid, k, self.exp[k:k + 3], self.got[k:k + 3])
        return s

    def frames(self):
        """the differing frames, both sides"""
        k = 0
        while k < min(len(self.exp), len(self.got)) and self.exp[k] == self.got[k]:
            k += 1
        return self.exp[k:], self.got[k:]


def opname(op):
    if not op:
        return ""
    if op[0] != "pkt":
        return op[0]
    if op[2] == "h":
        f = op[3].split("\x01")
        c = f[0].lower()
        if c == "m" and len(f) > 1:
            w = f[1].split(" ")
            if w[0].lower() == "server" and len(w) > 1:
                c = w[1].lower()
        return {"shush": "hush", "?": "auto?", "stats": "stats"}.get(c, c)
    return {"a": "login", "b": "open", "m": "pong"}.get(op[2], "type_" + op[2])


def read_db(path):
    """independent reader of the database file: IDB\\x01, count, records"""
    b = open(path, "rb").read()
    if b[:4] != b"IDB\x01":
        raise ValueError("bad magic %r" % b[:4])
    n, = struct.unpack_from("<I", b, 4)
    o, d = 8, {}
    for _ in range(n):
        kl, vl = struct.unpack_from("<II", b, o); o += 8
        k = b[o:o + kl]; o += kl
        v = b[o:o + vl]; o += vl
        if len(k) != kl or len(v) != vl:
            raise ValueError("truncated record")
        if k in d:
            raise ValueError("duplicate key %r" % k)
        d[k] = v
    if o != len(b):
        raise ValueError("trailing bytes")
    return d


LOGLINE = re.compile(rb"(?:\[(ERR|WARN|INFO|DEBUG|VERBOSE)\] )? (\w{3} \d\d \d{4} \d\d:\d\d:\d\d) (\S*): (.*)$", re.S)
LOGTELLS = re.compile(rb"\[(CONNECT(?: \(SSL\))?|LOGIN|LOST)\] \d+(?:: (.*))?$|Login refused for (.*)$")
LEVELS = {b"ERR": 1, b"WARN": 2, b"INFO": 3, b"DEBUG": 4, b"VERBOSE": 5}


def dumped(raw):
    """users (by slot) and groups of a state dump"""
    at = [0]

    def num():
        i = raw.index(b"\n", at[0])
        v = int(raw[at[0]:i])
        at[0] = i + 1
        return v

    def text():
        i = raw.index(b"X\n", at[0])
        v = raw[at[0]:i]
        at[0] = i + 2
        return v

    def names():
        return sorted(text() for _ in range(num()))
    for _ in range(num() + 2):
        num()
    for _ in range(255):
        num()
    users, groups = {}, []
    for i in range(255):
        u = users[i] = {k: text() for k in ("id", "node", "nick", "pw", "reg", "group", "away")}
        u.update((k, num()) for k in ("lastaway", "lastawaytime", "login", "echo", "nobeep", "perms", "t_notify", "t_on", "t_sent", "t_recv", "t_group"))
        u.update((k, names()) for k in ("pri_n", "pub_n", "pri_s", "pub_s", "n_not", "s_not"))
    for i in range(300):
        g = {k: text() for k in ("name", "topic")}
        g.update((k, num()) for k in ("vis", "ctl", "mod", "modtimeout"))
        g["missing"] = text()
        g["vol"] = num()
        g.update((k, names()) for k in ("inv_n", "inv_nr", "inv_s", "inv_sr", "b1", "b2", "b3", "b4", "talk_n", "talk_nr"))
        g["size"], g["idleboot"], g["idlemsg"], g["idlemod"] = num(), num(), text(), num()
        groups.append(g)
    if at[0] != len(raw):
        raise ValueError("%d bytes after the end" % (len(raw) - at[0]))
    return users, groups


def ill(f):
    """what is wrong with the text of a frame, if anything"""
    for b in f[1:]:
        if b < 32 and b != 1:
            return "control character %#x" % b
    try:
        f[1:].decode("utf-8")
    except UnicodeDecodeError as x:
        return "not UTF-8: %s" % x
    if len(f) > 254:
        return "too long"
    return None


def ip_of(a, b, dual=False):
    return b"::1" if a == 99 else (b"::ffff:" if dual else b"") + b"127.0.%d.%d" % (a, b)


def node_of(a, b, dual=False):
    """the name of an address if that leads back to it (see the shim), else the address in brackets"""
    if a == 99:
        return b"six.test"
    if b >= 250 or b in (24, 239, 240, 242, 243):
        return b"[%s127.0.%d.%d]" % (b"::ffff:" if dual else b"", a, b)
    if 235 <= b <= 238:
        return b"h%d.n%d.test.org" % (b - 230, a)
    if b == 241:
        return b"multi.n%d.test" % a
    if b == 244:
        return b"H5.N%d.Test" % a
    if b >= 245:
        return (b"x" * {245: 45, 246: 46, 247: 47}.get(b, 100) + b".n%d.b%d.long.test" % (a, b))[:64]
    return b"h%d.n%d.test" % (b, a)


class Run:
    def __init__(self, exe, cfg, trace=False):
        self.cfg = cfg
        self.trace = trace
        self.files = {k: v.encode("latin-1") for k, v in cfg.get("files", {}).items()}
        self.tls = cfg.get("tls", False)
        self.now, self.usec = cfg.get("now", T0), 0
        self.srv = Server(exe, self.files, tls=self.tls, now=self.now, loglevel=cfg.get("log", 0), dual=cfg.get("dual", False))
        self.c = {}
        self.slot = {}
        self.m = None
        self.db = {}
        self.ops = []
        self.events = set()
        self.i = -1
        self.op = None
        self.full = False
        self.db_seen = None
        self.nframes = 0
        self.wf = cfg.get("wf", False)
        self.srv.clock.io(cfg.get("io", 0), cfg.get("ioseed", 1))
        try:
            self.boot()
        except BaseException:
            self.close()
            raise

    # -- plumbing
    def boot(self):
        """attach the probe and a fresh model"""
        p = Client(self.srv, addr="127.0.0.1")
        f = p.recv()
        p.sync()
        self.base = self.srv.nfds() - 1
        if f is None or not f.startswith(b"j"):
            raise Div("frames", self.i, self.op, "no protocol packet on connect", [b"j1..."], [f], PROBE)
        parts = f[1:].split(b"\x01")
        host = parts[1] if len(parts) > 1 else b""
        self.m = M.Model(self.now, host, self.files, self.db)
        self.m.usec = self.usec
        self.c = {PROBE: p}
        self.logfd = 3
        n = self.free_slot()
        self.slot = {PROBE: n}
        self.m.connect(n, b"h1.n0.test", b"127.0.0.1", 0)
        self.m.settle()
        self.collect({PROBE: [f]})
        self.m.loglevel = self.cfg.get("log", 0)
        if self.cfg.get("logcheck"):
            self.m.log = []
            self.logpos = os.path.getsize(os.path.join(self.srv.dir, "icbd.log"))
            self.loglevel, self.logtime = self.m.loglevel, self.now

    def free_slot(self):
        """the lowest free descriptor: 3 was the log's at first, 4 and with TLS 5 listen"""
        n = 3
        used = set(self.slot.values()) | {4, 5 if self.tls else 4, self.logfd}
        while n in used:
            n += 1
        return n

    def close(self):
        for c in self.c.values():
            c.abort()           # no lingering sockets
        self.srv.close()

    def probe_sync(self, got):
        p = self.c[PROBE]
        p.mark()
        got.setdefault(PROBE, []).extend(p.until_mark())
        if p.eof:
            self.lost_probe()

    def lost_probe(self):
        if self.srv.wait_exit(2) is not None:
            raise ServerDied(self.srv.why())
        raise Div("closed", self.i, self.op, "a bystander's connection was closed", cid=PROBE)

    def all_sync(self, got):
        live = []
        for cid, c in self.c.items():
            if c.eof:
                continue
            if self.slot[cid] not in self.m.u:      # a packet sent now would only reset the connection
                self.read_end(cid, got)
                continue
            if self.unread(cid):
                got.setdefault(cid, []).extend(c.drain(0.0))
                continue
            c.mark()
            live.append(cid)
        for cid in live:
            got.setdefault(cid, []).extend(self.c[cid].until_mark())
        if self.c[PROBE].eof:
            self.lost_probe()

    def unread(self, cid):
        """will the server not answer this client now?"""
        u = self.m.u[self.slot[cid]]
        return u.slow and u.login

    def read_end(self, cid, got):
        """everything up to the end of a connection that should have been closed"""
        c = self.c[cid]
        t = time.time() + 3
        while not c.eof and time.time() < t:
            got.setdefault(cid, []).extend(c.drain(0.02))

    def collect(self, got):
        """compare what arrived with what the model says"""
        exp = {}
        back = {s: cid for cid, s in self.slot.items()}
        for s, f in self.m.take():
            if s in back:
                exp.setdefault(back[s], []).append(f)
        for cid in sorted(set(exp) | set(got)):
            e, g = exp.get(cid, []), got.get(cid, [])
            self.nframes += len(e)
            c = self.c.get(cid)
            if c is not None and not c.eof and self.short(cid, e, g):
                t = time.time() + 2
                while self.short(cid, e, g) and time.time() < t and not c.eof:
                    g = g + c.drain(0.05)
            if self.trace:
                for f in g:
                    print("   ", cid, f)
            if self.wf:
                for f in g:
                    bad = ill(f)
                    if bad:
                        raise Div("illformed", self.i, self.op, "client %s received %r: %s" % (cid, f, bad), cid=cid)
            if not self.same(cid, e, g):
                raise Div("frames", self.i, self.op, "wrong output", e, g, cid)
        gone = [cid for cid, s in self.slot.items() if s not in self.m.u]
        for cid in gone:
            c = self.c[cid]
            t = time.time() + 2
            while not c.eof and time.time() < t:
                extra = c.drain(0.05)
                if extra:
                    raise Div("frames", self.i, self.op, "output after disconnect", [], extra, cid)
            if not c.eof:
                raise Div("closed", self.i, self.op, "connection %d should have been closed" % cid, cid=cid)
            c.close()
            del self.c[cid], self.slot[cid]
        for cid, c in self.c.items():
            if c.eof:
                raise Div("closed", self.i, self.op, "connection %d was closed" % cid, cid=cid)
        if gone:
            self.fds()

    def short(self, cid, e, g):
        """is more output certain to come?"""
        return len(g) < len(e)

    def same(self, cid, e, g):
        return e == g

    def fds(self):
        """descriptors in use = listeners etc. + one per connection"""
        t = time.time() + 3
        want = self.base + len(self.c) - (not self.m.logopen)
        while True:
            n = self.srv.nfds()
            if n == want:
                return
            if n <= 0 and not self.srv.alive():
                raise ServerDied(self.srv.why())
            if time.time() > t:
                if not self.srv.alive():
                    raise ServerDied(self.srv.why())
                raise Div("fds", self.i, self.op, "server holds %d descriptors, %d expected" % (n, want))
            time.sleep(0.002)

    # -- one operation
    def step(self, op):
        self.i += 1
        self.op = op
        self.ops.append(op)
        if self.trace:
            print(self.i, op)
        pre = op[0] == "pkt" and op[1] in self.slot and self.m.u[self.slot[op[1]]].login < M.LOGIN_COMPLETE
        try:
            r = getattr(self, "op_" + op[0])(*op[1:])
        except Div as e:
            e.prelogin = pre
            raise
        except ProtocolError as e:
            raise Div("malformed", self.i, op, str(e))
        except ServerDied as e:
            raise Div("crash", self.i, op, str(e))
        except Hang as e:
            if not self.srv.alive():
                raise Div("crash", self.i, op, self.srv.why())
            raise Div("hang", self.i, op, str(e))
        self.events |= self.m.events
        if self.m.events and self.trace:
            print("    events", self.m.events)
        self.m.events = set()
        return r

    def finish_op(self, got):
        self.m.settle()
        self.probe_sync(got)
        self.probe_sync(got)
        self.all_sync(got)
        if self.m.dead:
            raise M.ModelGap("dead")
        for e in self.m.logev:
            self.logfd = None
            if e:
                self.logfd = self.free_slot()
        self.m.logev = []
        self.collect(got)
        if self.cfg.get("logcheck"):
            self.check_log()
        if self.cfg.get("dbeach") and not self.full and self.m.db != self.db_seen:
            self.check_db()         # what a server killed now would leave behind
            self.db_seen = dict(self.m.db)

    def check_log(self):
        """every new line of the log is an entry made now, of a kind asked for, and those who came and went are in it"""
        with open(os.path.join(self.srv.dir, "icbd.log"), "rb") as f:
            f.seek(self.logpos)
            raw = f.read()
        self.logpos += len(raw)
        have = []
        lo, hi = sorted((self.loglevel, self.m.loglevel))
        if raw and not raw.endswith(b"\n"):
            raise Div("log", self.i, self.op, "the log ends in half an entry: %r" % raw[-200:])
        for l in raw.split(b"\n")[:-1]:
            x = LOGLINE.match(l)
            if not x or x.group(3) != self.m.host:
                raise Div("log", self.i, self.op, "not a log entry: %r" % l)
            if x.group(1) and LEVELS[x.group(1)] > hi:
                raise Div("log", self.i, self.op, "entry in the log at level %d: %r" % (hi, l))
            try:
                t = time.mktime(time.strptime(x.group(2).decode(), "%b %d %Y %H:%M:%S"))
            except ValueError:
                t = 0
            if not self.logtime <= t <= self.now:
                raise Div("log", self.i, self.op, "entry of another time than %d..%d: %r" % (self.logtime, self.now, l))
            y = LOGTELLS.match(x.group(4))
            if y:
                if y.group(3):
                    have.append((b"REFUSED", y.group(3)))
                elif y.group(2) and (y.group(1)[:7] == b"CONNECT" or b"@" in y.group(2)):
                    have.append((y.group(1), y.group(2)[:64] if y.group(1)[:1] == b"C" else y.group(2)))
        want, self.m.log = self.m.log, []
        if raw and want:
            self.events.add("logged")
        if lo < LEVELS[b"INFO"]:
            want = [] if hi < LEVELS[b"INFO"] else want
            if lo == hi and have or any(h not in want for h in have):
                raise Div("log", self.i, self.op, "the log tells of %r" % have)
        elif sorted(have) != sorted(want):
            raise Div("log", self.i, self.op, "the log tells of %r, not %r" % (sorted(have), sorted(want)))
        self.loglevel, self.logtime = self.m.loglevel, self.now

    def refused(self, a, b):
        """no room for one more"""
        c = Client(self.srv, addr="127.0.%d.%d" % (a, b))
        f = c.recv(3)
        if f is not None:
            raise Div("capacity", self.i, self.op, "a connection too many was served: %r" % f)
        if not c.eof:
            raise Div("capacity", self.i, self.op, "a connection too many was not closed")
        c.close()
        self.events.add("house_full")
        self.fds()
        self.finish_op({})
        return True

    def op_rush(self, k):
        """several at once, all one too many"""
        if self.free_slot() < CAPACITY:
            return False
        self.srv.proc.send_signal(signal.SIGSTOP)
        try:
            l = [Client(self.srv, addr="127.0.0.%d" % (5 + i)) for i in range(k)]
        finally:
            self.srv.proc.send_signal(signal.SIGCONT)
        for c in l:
            f = c.recv(3)
            if f is not None:
                raise Div("capacity", self.i, self.op, "a connection too many was served: %r" % f)
            if not c.eof:
                raise Div("capacity", self.i, self.op, "a connection too many was not closed")
            c.close()
        self.events.add("rush")
        self.fds()
        self.finish_op({})
        return True

    def op_bulk(self, cid, n, groups):
        got = {}
        for k in range(cid, cid + n):
            s = self.free_slot()
            if k in self.c or s >= CAPACITY:
                continue
            a, b = k // 200 + 1, k % 200 + 1
            c = Client(self.srv, addr="127.0.%d.%d" % (a, b))
            self.c[k], self.slot[k] = c, s
            self.m.connect(s, node_of(a, b), b"127.0.%d.%d" % (a, b), 0)
            self.m.settle()
            got[k] = [c.recv()]
            body = "\x01".join(["u%d" % (k % 7), "z%d" % k, groups[k % len(groups)], "login", ""])
            c.send("a", body)
            self.m.packet(s, ("a" + body).encode())
            self.m.settle()
            c.mark()
            got[k] += c.until_mark()
        self.finish_op(got)
        return True

    def op_wander(self, cid, n, how):
        if how == 0 and cid not in self.c:
            return False
        for i in range(n):
            g = "w%d" % i
            if how == 0:
                if cid in self.c:
                    self.op_pkt(cid, "h", "g\x01" + g, True)
                continue
            self.op_conn(9000, [0, 9], False)
            if 9000 in self.c:
                self.op_pkt(9000, "a", "\x01".join(["wan", "wanderer", g, "login", ""]), True)
            if 9000 in self.c:
                self.op_close(9000, i % 2)
        self.events.add("wander")
        return True

    def op_hup(self):
        log = os.path.join(self.srv.dir, "icbd.log")
        if os.path.exists(log):
            os.rename(log, log + ".old")
        self.srv.proc.send_signal(signal.SIGHUP)
        self.m.logopen = True
        self.m.logev += [0, 1]
        t = time.time() + 5
        while not os.path.exists(log):
            if time.time() > t or not self.srv.alive():
                if not self.srv.alive():
                    raise ServerDied(self.srv.why())
                raise Div("log", self.i, self.op, "the log file was not opened again")
            time.sleep(.002)
        self.events.add("hup")
        self.fds()
        self.finish_op({})
        return True

    def op_dump(self, how=0):
        path = os.path.join(self.srv.dir, "icbd.dump")
        if how == 1:
            if os.path.exists(path):
                os.unlink(path)
            os.mkdir(path)
        elif how == 2 and os.path.exists(path):
            os.unlink(path)
        old = os.path.exists(path) and how != 1
        if old:
            with open(path, "ab") as f:
                f.write(b"remains of an earlier one\n" * 9000)
        self.srv.proc.send_signal(signal.SIGUSR1)
        t = time.time() + 5
        while how != 1 and (not os.path.exists(path) or old and os.path.getsize(path) >= 234000):
            if not self.srv.alive():
                raise ServerDied(self.srv.why())
            if time.time() > t:
                raise Div("dump", self.i, self.op, "no dump was written")
            time.sleep(.002)
        got = {}
        self.probe_sync(got)            # answered only once the dump is complete
        if how == 1:
            os.rmdir(path)
        else:
            self.check_dump(open(path, "rb").read())
        self.events.add("dump" if how != 1 else "dump_refused")
        self.fds()
        self.finish_op(got)
        return True

    def check_dump(self, raw):
        try:
            users, groups = dumped(raw)
        except (ValueError, IndexError) as e:
            raise Div("dump", self.i, self.op, "the dump cannot be read: %s" % e)
        nick = {n: u["nick"] for n, u in users.items()}
        m = self.m
        have = {u["nick"].lower(): u for u in users.values() if u["nick"]}
        want = {}
        for n, u in m.u.items():
            if u.nick and u.login == M.LOGIN_COMPLETE:
                want[u.nick.lower()] = dict(
                    id=u.id, node=u.node, nick=u.nick, reg=b"registered" if u.reg else b"", group=u.group, away=u.away, login=2, echo=u.echo, nobeep=u.nobeep,
                    perms=2 if u.slow else 0, t_on=u.t_on, t_recv=u.t_recv, t_group=u.t_group,
                    **{k: sorted(getattr(u, k)) for k in ("pri_n", "pub_n", "pri_s", "pub_s", "n_not", "s_not")})
        self.dump_diff("users", want, have)
        have = {}
        for g in groups:
            if g["name"]:
                if g["name"].lower() in have:
                    raise Div("dump", self.i, self.op, "group %r is dumped twice" % g["name"])
                g["mod"] = nick.get(g["mod"], b"?") if g["mod"] >= 0 else b""
                have[g["name"].lower()] = g
        want = {}
        for g in (m.g.values() if isinstance(m.g, dict) else m.g):
            if g.name:
                want[g.name.lower()] = dict(
                    name=g.name, topic=g.topic, vis=g.vis, ctl=g.ctl, mod=m.u[g.mod].nick if g.mod >= 0 else b"", modtimeout=int(g.modtimeout), missing=g.missing, vol=g.vol,
                    size=g.size, idleboot=g.idleboot, idlemsg=g.idlemsg, idlemod=g.idlemod,
                    **{k: sorted(getattr(g, k)) for k in ("inv_n", "inv_nr", "inv_s", "inv_sr", "talk_n", "talk_nr")})
        self.dump_diff("groups", want, have)

    def dump_diff(self, what, want, have):
        if set(want) != set(have):
            raise Div("dump", self.i, self.op, "the dumped %s are %r, not %r" % (what, sorted(have), sorted(want)))
        for k, w in want.items():
            d = {f: (v, have[k][f]) for f, v in w.items() if have[k][f] != v}
            if d:
                raise Div("dump", self.i, self.op, "dump of %r differs (expected, found): %r" % (k, d))

    def op_conn(self, cid, ab, tls):
        if cid in self.c:
            return False
        a, b = ab
        if self.free_slot() >= CAPACITY:
            return self.refused(a, b)
        tls = bool(tls and self.tls)
        if a == 99 and not self.srv.dual:
            return False
        ip = ip_of(a, b)
        c = Client(self.srv, tls=tls, addr=ip.decode())
        n = self.free_slot()
        self.c[cid], self.slot[cid] = c, n
        self.m.connect(n, node_of(a, b, self.srv.dual), ip_of(a, b, self.srv.dual), 1 if tls else 0)
        if node_of(a, b) != b"h%d.n%d.test" % (b, a):
            self.events.add("odd_address")
        f = c.recv()
        self.finish_op({cid: [f] if f is not None else []})
        return True

    def op_pkt(self, cid, typ, body, nul=True):
        if cid not in self.c:
            return False
        c, n = self.c[cid], self.slot[cid]
        u = self.m.u[n]
        slow = u.slow and u.login
        if slow:
            self.later(2)
            if cid not in self.c:
                return True
        c.send(typ, body, nul=nul)
        got = {}
        self.m.packet(n, (typ + body).encode("latin-1"))
        if u.slow and u.login:
            self.events.add("slow_user")
        if self.files and opname(self.op) in ("motd", "news", "s_help"):
            self.events.add("files_shown")
        if self.m.u[n].kill or n in self.m.closing:
            got[cid] = []
        elif slow or (u.slow and u.login):
            for _ in range(3):
                self.probe_sync(got)
            got.setdefault(cid, []).extend(c.drain(0.0))
        else:
            c.mark()
            got[cid] = c.until_mark()
        self.finish_op(got)
        return True

    def later(self, secs):
        """a little later; what is due by then has been done when this is over"""
        if self.m.due(self.now + secs):
            self.op_tick(secs)
        else:
            self.now += secs
            self.clock()

    def clock(self):
        self.m.now, self.m.usec = self.now, self.usec
        self.srv.clock.set(self.now, self.usec)

    def op_close(self, cid, how=0):
        if cid not in self.c or cid == PROBE:
            return False
        if self.m.u[self.slot[cid]].slow:        # only looked at once a second
            self.later(2)
            if cid not in self.c:
                return True
            self.m.settle()
        c = self.c.pop(cid)
        n = self.slot.pop(cid)
        if how:
            c.abort()
        else:
            c.close()
        self.m.gone(n)
        self.fds()
        self.finish_op({})
        return True

    def lull(self):
        """input is waiting for its time"""

    def op_burst(self, cid, pkts):
        """a user admitted at a reduced rate sends several packets at once"""
        if cid not in self.c or cid == PROBE:
            return False
        n = self.slot[cid]
        u = self.m.u[n]
        if not (u.slow and u.login):
            return False
        left = list(pkts)
        for t, b in left:
            self.c[cid].send(t, b)
        while True:
            if left and self.now - u.t_recv >= 1:
                t, b = left.pop(0)
                self.m.packet(n, (t + b).encode("latin-1"))
                self.events.add("slow_user")
            got = {}
            for _ in range(3):
                self.probe_sync(got)
            self.finish_op(got)
            if not left or n not in self.m.u or self.m.u[n].kill or n in self.m.closing:
                return True
            self.lull()
            if self.m.due(self.now + 1):        # before the waiting packet or after it
                raise M.ModelGap("something is due in the middle of a burst")
            self.now += 1
            self.clock()

    def op_half(self, cid, n):
        if cid not in self.c or cid == PROBE:
            return False
        self.c[cid].send_raw(enc("b", "never seen by anyone, as it stays incomplete")[:max(1, n)])
        return self.op_close(cid, 0)

    def op_tick(self, secs, usec=0):
        if secs <= 0:
            return False
        self.now += secs
        self.usec = usec
        self.clock()
        got = {}
        self.m.settle()
        if self.m.dead:
            rc = self.srv.wait_exit(5)
            if rc is None:
                self.c[PROBE].mark()
                rc = self.srv.wait_exit(10)
            if rc is None:
                raise Div("shutdown", self.i, self.op, "scheduled shutdown did not happen")
            if rc != 0:
                raise ServerDied(self.srv.why())
            raise M.ModelGap("dead")
        self.probe_sync(got)
        self.finish_op(got)
        return True

    def op_dying(self, kind, at, act, op):
        if op[0] not in ("pkt", "close", "half") or op[1] not in self.c:
            return False
        self.op_dbheal()
        pre = dict(self.m.db)
        self.m.dblog = []
        self.srv.clock.dbfault(kind, at, 1, act)
        try:
            r = getattr(self, "op_" + op[0])(*op[1:])
            self.srv.clock.dbfault()
            return r
        except (Div, ServerDied, ProtocolError, Hang, OSError):
            if self.srv.wait_exit(2) != 99:
                raise
        self.srv.clock.dbfault()
        try:
            self.m.settle()
        except M.ModelGap:
            pass
        self.events.add("died_writing")
        may = {}
        for k, v in self.m.dblog:
            may.setdefault(k, {pre.get(k)}).add(v)
        have = self.stored()
        d = {k: (pre.get(k), have.get(k)) for k in set(have) | set(pre) if have.get(k) not in may.get(k, {pre.get(k)})}
        if d:
            raise Div("db", self.i, self.op, "after dying in the middle of this, records not concerned differ (before, after): %r" % (d,))
        for c in self.c.values():
            c.close()
        self.c, self.slot = {}, {}
        self.db = have
        self.srv.start()
        self.boot()
        return True

    def op_dbfull(self, kind, at, n):
        self.full = True
        self.srv.clock.dbfault(kind, at, n, 3)
        return True

    def op_dbheal(self):
        """room again on the disk: all is written at the next opportunity"""
        if not self.full:
            return False
        if self.srv.clock.dbhits():
            self.events.add("disk_full")
        self.stored()
        self.srv.clock.dbfault()
        self.full = False
        ok = [c for c in sorted(self.c) if c != PROBE and self.m.u[self.slot[c]].login == M.LOGIN_COMPLETE and not self.m.u[self.slot[c]].slow]
        if ok:
            self.op_pkt(ok[0], "h", "whois\x01nobody")
        else:
            self.op_conn(9999, [0, 99], 0)
            self.op_pkt(9999, "a", "\x01".join(["healer", "zzhealer", "zzheal", "login", ""]))
            self.op_close(9999)
        return True

    def op_restart(self, how=0):
        self.check_db()
        if how:
            self.srv.kill()
        else:
            rc = self.srv.term(signal.SIGTERM)
            if rc not in (0, -15):
                raise ServerDied(self.srv.why())
        for c in self.c.values():
            c.close()
        self.c, self.slot = {}, {}
        if any(k.endswith(b".password") for k in self.db):
            self.events.add("restart_reg")
        self.srv.start()
        self.boot()
        return True

    def stored(self):
        p = os.path.join(self.srv.dir, "icbdb.db")
        if not os.path.exists(p):
            return {}
        mode = os.stat(p).st_mode
        if mode & 0o077:
            raise Div("db", self.i, self.op, "the database file is accessible to others (mode %o)" % (mode & 0o777))
        try:
            return read_db(p)
        except (ValueError, struct.error) as e:
            raise Div("db", self.i, self.op, "unreadable database file: %s" % e)

    def check_db(self):
        """everything acknowledged is in the database file, and nothing else"""
        self.op_dbheal()
        have = self.stored()
        want = {k: v for k, v in self.m.db.items()}
        if have != want:
            d = {k: (want.get(k), have.get(k)) for k in set(have) | set(want) if have.get(k) != want.get(k)}
            raise Div("db", self.i, self.op, "stored records differ (expected, found): %r" % (d,))

    def final(self):
        self.op = ["final"]
        if self.cfg.get("dbcheck", True):
            self.check_db()
        self.fds()
