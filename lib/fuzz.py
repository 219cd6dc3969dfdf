"""C04: hostile bytes.  The model only guides generation here; the oracle is memory safety, liveness and isolation."""
import random
import gen, model as M
from chat import *
from chatcheck import ChatCheck, FILES
from net import NetRun, HostileG, flips

WIT = -2

NUM = ["0", "1", "-1", "254", "255", "256", "32767", "65535", "65536", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296",
       "99999999999999999999", "1e9", "0x10", " 7", "+5", "-0", "007"]
LENS = [7, 8, 9, 11, 12, 13, 31, 32, 33, 39, 40, 41, 63, 64, 65, 66, 79, 80, 81, 127, 128, 199, 200, 229, 230, 231, 245, 250, 251, 252, 253]
FMT = ["%s", "%n", "%d", "%s%s%s%s", "%99999d", "%*d", "%1$s", "%", "%%", "%.400s"]
SEED = ["cp\x01a b", "status\x01name x # 5 b 5 im 5 idlebootmsg hi", "m\x01server info\x01x", "invite\x01-q -s -r a@b", "talk\x01-r -q -d x",
        "hush\x01-s -q -o -p x@y", "notify\x01-s -q x@y", "w\x01-g .x", "w\x01@x", "g\x01@x", "g\x01..x\x01pw", "boot\x01x y", "write\x01x y", "whois\x01x",
        "news\x011", "cancel\x01-s x", "exclude\x01x y", "drop\x01x y", "beep\x01x", "nobeep\x01verbose", "echoback\x01verbose", "name\x01x",
        "topic\x01x", "away\x01%s x", "noaway\x01", "motd\x01", "s_help\x01", "v\x01", "?\x01", "ping\x01x", "pass\x01x", "read\x01", "secure\x01",
        "text\x01x", "addr\x01a|b|c", "rname\x01x", "phone\x01x", "email\x01x", "www\x01x", "delete\x01x", "p\x01x", "log\x01x", "wall\x01x", "stats\x01x",
        "shuttime\x01", "whereis\x01x", "status\x01v", "m\x01x y"]


class FuzzRun(NetRun):
    """tolerant: any reply is fine, ending the offender's connection is fine"""

    def model(self, f, *a):
        try:
            f(*a)
            self.m.settle()
        except Exception:       # the model is only a guide here
            pass
        self.m.out = []
        self.m.dead = False

    def boot(self):
        """besides the probe a user who does nothing wrong, over TLS where there is TLS"""
        NetRun.boot(self)
        self.nth = 0
        w = Client(self.srv, tls=bool(self.tls), addr="127.0.0.2")
        n = self.free_slot()
        self.c[WIT], self.slot[WIT] = w, n
        w.login("witness", "w-home", "witness")
        if w.sync() is None or w.eof:       # a site file may refuse it
            w.close()
            del self.c[WIT], self.slot[WIT]

    def witness(self):
        self.nth += 1
        w = self.c.get(WIT)
        if w is None or self.nth % 3:
            return
        if w.tls:
            d = b"".join(w.tls_records([enc("j")]))
            k = 1 + self.nth * 7 % (len(d) - 1)
            for part in (d[:k], d[k:]):
                try:
                    w.raw.sendall(part)
                except OSError:
                    pass
                self.probe_sync({})
        else:
            w.mark()
        try:
            w.until_mark()
        except ProtocolError as e:
            raise Div("closed", self.i, self.op, "a bystander was sent garbage: %s" % e, cid=WIT)
        if w.eof:
            if self.srv.wait_exit(.5) is not None:
                raise ServerDied(self.srv.why())
            raise Div("closed", self.i, self.op, "a bystander's connection was closed", cid=WIT)

    def op_thalf(self, *a):
        try:
            return NetRun.op_thalf(self, *a)
        finally:
            self.m.take()

    def finish_op(self, got=None):
        self.after()

    def fds(self):
        """(fewer is fine: an operator may have closed the log)"""
        t = time.time() + 3
        while True:
            self.after()
            n = self.srv.nfds()
            if n <= self.base + len(self.c):
                return
            if time.time() > t:
                raise Div("fds", self.i, self.op, "server holds %d descriptors, %d expected" % (n, self.base + len(self.c)))

    def after(self):
        try:
            self.probe_sync({})
            self.probe_sync({})
            self.witness()
            for cid in list(self.c):
                c = self.c[cid]
                if cid in (PROBE, WIT):
                    continue
                try:
                    c.drain(0)
                except ProtocolError:
                    c.buf.clear()
                if c.eof:
                    self.events.add("disconnected")
                    self.forget(cid)
        finally:
            self.m.take()
            for cid, n in self.slot.items():
                if n not in self.m.u:       # the model lost track of it
                    self.model(self.m.connect, n, b"h5.n0.test", b"127.0.0.5", 0)

    def forget(self, cid):
        c = self.c.pop(cid)
        n = self.slot.pop(cid)
        c.close()
        if n in self.m.u:
            self.model(self.m.gone, n)
        self.m.u.pop(n, None)

    def op_conn(self, cid, ab, tls):
        if cid in self.c or len(self.c) > 30:
            return False
        tls = bool(tls and self.tls)
        a, b = ab
        c = Client(self.srv, tls=tls, addr="127.0.%d.%d" % (a, b))
        n = self.free_slot()
        self.c[cid], self.slot[cid] = c, n
        self.model(self.m.connect, n, node_of(a, b), b"127.0.%d.%d" % (a, b), int(tls))
        self.after()
        return True

    def op_pkt(self, cid, typ, body, nul=True):
        if cid not in self.c:
            return False
        self.c[cid].send(typ, body, nul=nul)
        self.model(self.m.packet, self.slot[cid], (typ + body).encode("latin-1"))
        self.after()
        return True

    def op_raw(self, cid, data, under=0):
        """bytes as they are; under: below TLS"""
        if cid not in self.c:
            return False
        c = self.c[cid]
        b = data.encode("latin-1")
        try:
            if under and c.tls:
                c.raw.sendall(b)
            else:
                c.send_raw(b)
        except OSError:
            pass
        self.events.add("raw")
        self.after()
        return True

    def op_close(self, cid, how=0):
        if cid not in self.c or cid in (PROBE, WIT):
            return False
        c = self.c[cid]
        if how:
            c.abort()
        self.forget(cid)
        self.after()
        return True

    def op_half(self, cid, n):
        return self.op_close(cid, 0)

    def op_tick(self, secs, usec=0):
        self.now += secs
        self.usec = usec
        self.clock()
        self.model(lambda: None)
        self.after()
        return True

    def final(self):
        self.after()
        if self.cfg.get("spin"):
            for _ in range(3):
                a = self.srv.cpu()
                time.sleep(.25)
                if self.srv.cpu() - a < .15:
                    return
            raise Div("hang", self.i, self.op, "the server uses all of a processor though nothing happens")


class FuzzG(HostileG):
    def bytesmut(self, b):
        b = bytearray(b, "latin-1")
        for _ in range(self.r.randrange(1, 4)):
            k = self.r.randrange(8)
            at = self.r.randrange(len(b) + 1)
            if k == 0 and b:
                b[at % len(b)] = self.r.randrange(256)
            elif k == 1:
                b[at:at] = bytes([self.r.choice([0, 1, 1, 9, 10, 32, 37, 42, 45, 46, 64, 91, 92, 93, 127, 128, 255])])
            elif k == 2:
                del b[at:at + self.r.randrange(1, 5)]
            elif k == 3:
                b[at:at] = self.pick(NUM).encode()
            elif k == 4:
                n = self.pick(LENS)
                b[at:at] = (self.pick(["A", "a ", "\xc3\xa9", "\x01", "|", "*", "[", "-", "%s", "x.", "@", ":", "\xf0"]) * n).encode("latin-1")[:n]
            elif k == 5:
                b[at:at] = self.pick(FMT).encode()
            elif k == 6:
                b[at:at] = self.nick().encode("latin-1")
            else:
                f = bytes(b).split(b"\x01")
                self.r.shuffle(f)
                b = bytearray(b"\x01".join(f + [self.pick(f)] * self.pick([0, 1, 3, 18, 20])))
        return bytes(b[:253]).decode("latin-1")

    def one(self):
        try:
            op = self.try_one()
        except Exception:
            op = ["tick", 1, 0]
        if op[0] == "pkt" and opname(op) in ("shutdown", "restart"):
            op[3] = "w\x01"
        return op

    def try_one(self):
        if self.pending:
            return self.pending.pop(0)
        l = [c for c in self.run.c if c >= 0]
        k = self.r.random()
        if k < .35 or not l:
            return gen.G.one(self)
        c = self.user()
        if c is None:
            c = self.pick(l)
        if k < .62:
            body = self.pick(SEED)
            for w in ("x", "y"):
                if w in body and self.p_(.8):
                    body = body.replace(w, self.pick([self.nick, self.group, self.text, self.site])(), 1)
            if self.p_(.6):
                body = self.bytesmut(body)
            if "shutdown" in body.lower() or "restart" in body.lower() or "boot\x01server" in body.lower():
                body = "w\x01"
            return ["pkt", c, "h", body[:253], self.p_(.7)]
        if k < .8:
            op = gen.G.one(self)
            if op[0] == "pkt":
                op = [op[0], op[1], op[2] if self.p_(.9) else chr(self.r.randrange(256)), self.bytesmut(op[3]), self.p_(.7)]
                if "shutdown" in op[3].lower() or "restart" in op[3].lower():
                    op[3] = "w\x01"
            return op
        if k < .84:
            return ["pkt", c, "a", "\x01".join(self.bytesmut(self.pick([self.nick(), self.group(), "joe", "login", "w", ""])) for _ in range(self.r.randrange(0, 24)))[:253], self.p_(.8)]
        if k < .9:
            n = self.r.randrange(1, 60)
            return ["raw", self.pick(l), "".join(chr(self.r.randrange(256)) for _ in range(n)), int(self.p_(.3))]
        if k < .95:
            # a valid packet with a wrong length byte, or several in one piece
            b = b"".join(enc("h", self.bytesmut(self.pick(SEED)).replace("shutdown", "w").replace("restart", "w")) for _ in range(self.pick([1, 1, 2, 5])))
            b = bytearray(b)
            if self.p_(.5):
                b[0] = self.r.choice([0, 1, 2, 3, 127, 128, 254, 255, self.r.randrange(256)])
            return ["raw", self.pick(l), bytes(b).decode("latin-1"), 0]
        if k < .96 and self.run.tls:
            return ["thalf", [0, 5], [self.r.randrange(1, 200) for _ in range(self.r.randrange(0, 4))], self.pick([9999, self.r.randrange(600)]),
                    "".join(chr(self.r.randrange(256)) for _ in range(self.pick([0, 0, 5, 40]))), flips(self.r)]
        if k < .97:
            return ["close", self.pick(l), self.r.randrange(2)]
        return ["tick", self.pick([1, 60, 301, 3700, 100000]), 0]


class FuzzCheck(ChatCheck):
    RUN, GEN = FuzzRun, FuzzG

    def __init__(self):
        mix = {k: .5 for k in gen.ALL if k not in ("restart", "half")}
        mix.update(join=3, admin=.5, fillup=.15, status=1.5, mailbox=.2, reg=1, gather=1.5, raw=2)
        ChatCheck.__init__(self, "C04", dict(start=5, max=8, w=mix, admin=.15, startreg=.6), ["raw", "disconnected"], nops=150,
                           kinds=["crash", "hang", "closed", "fds"],
                           rule="bytes that are no valid packet sequence were sent, or the server hung up on somebody")
        self.rule = ("A case is a history of about 150 mutated, malformed or random inputs from several clients (some over TLS, some below TLS) on top of a "
                     "valid session, under AddressSanitizer and UBSan. Non-trivial: raw bytes were sent or the server hung up on an offender.")

    def cfg(self, rng):
        f = dict(FILES)
        if rng.random() < .3:
            for n in rng.sample(["motd", "news.1", "icbd_help", "icbd.deny", "icbd.perms", "news.5"], 3):
                f[n] = "".join(rng.choice(["x" * rng.randrange(300), "a@b\t", "\n", "\n", "user\t", "mask 1.2.3.4 ", "%U", "%s", "%%", "\xff", "\t\t", "PERM_DENY|", "é", " "])
                               for _ in range(rng.randrange(30)))
                f[n] = f[n].encode().decode("latin-1")
                if f[n].rstrip("\n").endswith("%"):
                    f[n] += "x"
        return {"tls": rng.random() < .5, "files": f, "log": rng.choice([0, 0, 0, 2, 5, 9]), "spin": rng.random() < .1,
                "io": rng.choice([0, 0, 0, 15]), "ioseed": rng.randrange(1 << 30), "dbcheck": False}

    def focus(self, d):
        if d.kind == "crash" and "rc=0" in d.detail[:8] and "Sanitizer" not in d.detail:
            return False        # an operator shut it down
        return ChatCheck.focus(self, d)


FUZZ = {"C04": FuzzCheck()}
