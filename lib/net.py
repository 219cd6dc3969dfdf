"""Checks of the transport: segmentation, TLS, stalled readers, hostile bytes.

Further operations (see chat.py for the basic ones):
  ["cut", packets, schedule]   packets = [[cid, type, body, nul], ...]; each client's packets form a byte stream, which is
                               sent in the pieces of the schedule, [cid, n, sync, records, segments]: the next n bytes of that
                               stream, over TLS cut into records and the ciphertext into segments at the given places
  ["tconn", cid, [a, b], cuts, tls12]  TLS connection with the handshake sent in pieces
  ["thalf", [a, b], cuts, n, bytes(, flips)]  TLS port: the first n bytes of a handshake (some changed), then other bytes, then nothing more
  ["tend", cid, how, bytes, n] (after n bytes of a packet) end a TLS connection by a close notification (0) or by bytes that are no TLS record (1)
  ["stall", cid, n]            the client's kernel takes n more bytes of output and then nothing
  ["grant", cid, n]            n more
  ["resume", cid]              the client reads normally again
  ["flood", cid, n, len]       cid sends n packets of text to its group
  ["calm"]                     nothing happens for a while
  ["poke", cid]                a client that takes no output sends something, nothing happens for a while, and it reads again
  ["pause", cid, type, body, cuts]     a packet in pieces (of the ciphertext, over TLS) with a calm after each
  ["thold", hid, [a, b], n]    TLS port: the first n bytes of a handshake, and the connection stays open
  ["tdrop", hid]               ... until now
"""
import random
import gen, tales, model as M
from chat import *
from chatcheck import ChatCheck, FILES
from props import P, W


def bad_hello(ctx, flips=None):
    """a client's first TLS message; flips: with these bytes of it changed, counted from the key share"""
    if flips is not None:
        ctx.set_ecdh_curve("prime256v1")        # not every value is a valid key share
    i, o = ssl.MemoryBIO(), ssl.MemoryBIO()
    try:
        ctx.wrap_bio(i, o).do_handshake()
    except ssl.SSLWantReadError:
        pass
    d = bytearray(o.read())
    at = max(0, d.find(b"\x00\x41\x04"))
    for k, x in flips or []:
        d[(at + k) % len(d)] ^= x
    return bytes(d)


def flips(r):
    """changes to a hello: mostly in the key share"""
    return [[r.choice([r.randrange(2, 67), r.randrange(3, 67), r.randrange(-8, 70), r.randrange(600)]), r.randrange(1, 256)] for _ in range(r.choice([1, 1, 1, 2, 3]))]


class NetRun(Run):
    def __init__(self, exe, cfg, trace=False):
        self.rio = bool(cfg.get("io", 0) & 5)
        self.wio = bool(cfg.get("io", 0) & 10)
        Run.__init__(self, exe, cfg, trace)

    def lossy(self, cid, e):
        """with output held up, what exceeds the queue may be dropped, and what is queued is lost with the connection"""
        return self.wio and (len(e) > 10 or self.slot.get(cid) not in self.m.u)

    def short(self, cid, e, g):
        return len(g) < len(e) and not self.lossy(cid, e)

    def same(self, cid, e, g):
        return subseq(g, e) if self.lossy(cid, e) else e == g

    def passes(self, n):
        """let the server take note of n packets or records"""
        got = {}
        for _ in range(n * 8 + 2 if self.rio else n + 1):
            self.probe_sync(got)
        self.probe_got += got.get(PROBE, [])

    def op_cut(self, packets, schedule):
        streams, ends = {}, {}
        for cid, typ, body, nul in packets:
            if cid not in self.c or cid == PROBE:
                continue
            b = enc(typ, body, nul=nul)
            streams[cid] = streams.get(cid, b"") + b
            ends.setdefault(cid, []).append((len(streams[cid]), (typ + body).encode("latin-1")))
        at = {cid: 0 for cid in streams}
        self.probe_got = []
        owed = 0
        todo = list(schedule) + [[cid, 1 << 20, 1, [], []] for cid in streams for _ in range(len(packets))]
        for cid, n, sync, recs, segs in todo:
            if cid not in streams or self.slot[cid] not in self.m.u or cid in self.dead:
                continue
            slot = self.slot[cid]
            end = min(len(streams[cid]), at[cid] + max(1, n))
            if end == at[cid]:
                continue
            done = 0
            while ends[cid] and ends[cid][0][0] <= end:
                e, pkt = ends[cid].pop(0)
                self.m.packet(slot, pkt)
                killed = slot not in self.m.u or self.m.u[slot].kill or slot in self.m.closing
                others = bool(self.m.closing) or any(u.kill for u in self.m.u.values())
                self.m.settle()
                done += 1
                if killed or slot not in self.m.u:
                    end = e
                    self.dead.add(cid)
                    break
                if others:      # somebody else's end and our next packet happen in either order
                    end = e
                    break
            piece = streams[cid][at[cid]:end]
            at[cid] = end
            self.put(cid, piece, recs, segs, sync)
            owed += done + 2 * len(recs) + 2
            if done or sync:
                self.passes(owed)
                owed = 0
            if done > 1:
                self.events.add("coalesced")
            if end < len(streams[cid]) and end not in [e for e, _ in ends[cid]] and len(streams) > 1:
                self.events.add("interleaved")
            if not done:
                self.events.add("partial")
        self.dead = set()
        self.finish_op({PROBE: self.probe_got})
        return True

    dead = set()

    def put(self, cid, piece, recs, segs, sync):
        c = self.c[cid]
        if not c.tls:
            c.send_raw(piece)
            return
        chunks, o = [], 0
        for k in recs:
            if o < len(piece):
                chunks.append(piece[o:o + max(1, k)])
                o += max(1, k)
        if o < len(piece):
            chunks.append(piece[o:])
        ct = b"".join(c.tls_records(chunks))
        self.events.add("records" if len(chunks) > 1 else "record")
        o = 0
        for k in list(segs) + [len(ct)]:
            k = max(1, k)
            if o >= len(ct):
                break
            try:
                c.raw.settimeout(HANG_T)
                c.raw.sendall(ct[o:o + k])
            except socket.timeout:
                raise Hang("send blocked")
            except OSError:
                return
            o += k
            if o < len(ct):
                self.events.add("segments")
                if sync:
                    self.passes(1)

    def op_tconn(self, cid, ab, cuts, tls12):
        if cid in self.c or not self.tls or len(self.c) >= 240:
            return False
        a, b = ab
        self.probe_got = []
        c = Client(self.srv, tls=True, addr="127.0.%d.%d" % (a, b), cuts=list(cuts), tls12=tls12, sync=lambda: self.passes(1))
        n = self.free_slot()
        self.c[cid], self.slot[cid] = c, n
        self.m.connect(n, node_of(a, b), b"127.0.%d.%d" % (a, b), 1)
        f = c.recv()
        self.events.add("handshake_cut")
        self.finish_op({cid: [f] if f is not None else [], PROBE: self.probe_got})
        return True

    def op_thalf(self, ab, cuts, n, junk, flips=None):
        """nothing comes of a connection that does not complete its handshake"""
        if not self.tls:
            return False
        s = socket.socket()
        s.settimeout(HANG_T)
        s.bind(("127.0.%d.%d" % tuple(ab), 0))
        s.connect((self.srv.host, self.srv.sport))
        self.probe_got = []
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        ctx.check_hostname = False
        ctx.verify_mode = ssl.CERT_NONE
        d = bad_hello(ctx, flips)[:n] + junk.encode("latin-1")
        try:
            for k in list(cuts) + [len(d)]:
                if not d:
                    break
                s.sendall(d[:max(1, k)])
                d = d[max(1, k):]
                self.passes(1)
        except OSError:
            pass
        s.close()
        self.events.add("handshake_abandoned")
        self.passes(1)
        self.fds()
        self.finish_op({PROBE: self.probe_got})
        return True

    def op_tend(self, cid, how, junk, part=0):
        if cid not in self.c or not self.c[cid].tls:
            return False
        c = self.c[cid]
        n = self.slot[cid]
        if part:        # in the middle of a packet
            c.send_raw(enc("b", "never seen by anyone, as it stays incomplete")[:part])
            self.probe_got = []
            self.passes(2)
            self.m.settle()
            self.collect({PROBE: self.probe_got})
        try:
            if how == 0:
                try:
                    c.obj.unwrap()
                except ssl.SSLError:
                    pass
                c._flush()
            else:
                c.raw.sendall(b"GET / HTTP/1.0\r\n" + junk.encode("latin-1"))
        except OSError:
            pass
        self.events.add("tls_end")
        self.m.gone(n)
        self.c.pop(cid)
        self.slot.pop(cid)
        self.fds()
        c.close()
        self.finish_op({})
        return True


def subseq(g, e):
    it = iter(e)
    return all(any(x == y for y in it) for x in g)


class Stalled:
    """what a client that takes only so many bytes is sure to get: the server keeps at least ten packets waiting"""

    def __init__(self, room, tls):
        self.room, self.tls = room, tls
        self.queue, self.sure, self.all, self.got = [], [], [], []
        self.quit = False
        self.partial = False     # was output resumed bit by bit?
        self.tries = self.most = 0      # vain attempts at writing since a packet was last finished; the server gives up after ten

    def flush(self):
        while self.queue:
            k = min(self.queue[0], self.room)
            self.queue[0] -= k
            self.room -= k
            if self.queue[0]:
                self.tries += 1
                self.most = max(self.most, self.tries)
                return
            self.queue.pop(0)
            self.tries = 0

    def put(self, frames):
        for f in frames:
            self.all.append(f)
            if len(self.queue) < 10:
                self.sure.append(f)
                self.queue.append(len(f) + 2 + (30 if self.tls else 0))
                self.flush()


class StallRun(NetRun):
    def __init__(self, exe, cfg, trace=False):
        self.st, self.early = {}, {}
        NetRun.__init__(self, exe, cfg, trace)

    def unread(self, cid):
        return cid in self.st or NetRun.unread(self, cid)

    def lossy(self, cid, e):
        return cid in self.st or NetRun.lossy(self, cid, e)

    def same(self, cid, e, g):
        if cid in self.st:
            s = self.st[cid]
            s.put(e)
            s.got += g
            return subseq(s.got, s.all)
        return NetRun.same(self, cid, e, g)

    def finish_op(self, got):
        got[PROBE] = self.early.pop(PROBE, []) + got.get(PROBE, [])
        cut = [cid for cid in self.st if cid in self.c and self.slot[cid] in self.m.u]
        if not cut:
            return NetRun.finish_op(self, got)
        self.m.settle()
        for _ in range(4):
            self.probe_sync(got)
        for cid in cut:
            c = self.c[cid]
            got.setdefault(cid, []).extend(c.drain(0))
            if c.eof and self.slot[cid] in self.m.u:
                # given up on after output in drips; otherwise like any other departure
                s = self.st[cid]
                s.quit = True
                if not s.partial:
                    raise Div("closed", self.i, self.op, "client %d was disconnected for being behind by a few packets" % cid, cid=cid)
                self.events.add("given_up")
                self.m.gone(self.slot[cid])
                self.m.settle()
                self.probe_sync(got)
        quits = [(cid, self.st[cid]) for cid in cut if self.st[cid].quit]
        NetRun.finish_op(self, got)
        for cid, s in quits:
            if not s.tls and s.most <= 10:
                raise Div("closed", self.i, self.op, "client %d was given up on after only %d vain attempts to write to it" % (cid, s.most), cid=cid)
        for cid in list(self.st):
            if cid not in self.c:
                del self.st[cid]

    def op_pkt(self, cid, typ, body, nul=True):
        return cid not in self.st and NetRun.op_pkt(self, cid, typ, body, nul)

    def op_half(self, cid, n):
        return cid not in self.st and NetRun.op_half(self, cid, n)

    def op_close(self, cid, how=0):
        if cid in self.st:
            how = 1
            self.events.add("stalled_gone")
            del self.st[cid]
        return NetRun.op_close(self, cid, how)

    def fds(self):
        if any(s.partial for s in self.st.values()):
            # one of those may be given up on at any time, so don't count; finish_op() finds out
            t = time.time() + 3
            while self.srv.nfds() > self.base + len(self.c) and time.time() < t:
                time.sleep(.002)
            for _ in range(4):
                self.probe_sync(self.early)
            return
        NetRun.fds(self)

    early = {}

    def op_stall(self, cid, room):
        if cid not in self.c or cid in self.st or cid == PROBE or self.m.u[self.slot[cid]].slow:
            return False
        self.srv.clock.window(self.slot[cid], room)
        self.st[cid] = Stalled(room, self.c[cid].tls)
        self.events.add("stall")
        return True

    def op_grant(self, cid, n):
        if cid not in self.st:
            return False
        slot = self.slot[cid]
        self.srv.clock.window(slot, (self.srv.clock.room(slot) or 0) + n)   # the server is idle now
        s = self.st[cid]
        s.partial = True
        s.room += n
        s.flush()
        self.events.add("grant")
        got = {}
        for _ in range(5):
            self.probe_sync(got)
        self.finish_op(got)
        return True

    def op_resume(self, cid):
        if cid not in self.st:
            return False
        self.srv.clock.window(self.slot[cid], None)
        got = {}
        for _ in range(5):
            self.probe_sync(got)
        s = self.st[cid]
        before = len(s.got)
        self.finish_op(got)
        if cid not in self.c:
            return True
        # back to normal: everything that waited is here, and requests are answered again
        c = self.c[cid]
        c.mark()
        s.got += c.until_mark()
        if c.eof:
            raise Div("closed", self.i, self.op, "client %d was disconnected when it caught up" % cid, cid=cid)
        if not subseq(s.got, s.all):
            raise Div("frames", self.i, self.op, "packets that were never sent, or in the wrong order", s.all, s.got, cid)
        if not (s.partial and s.tls) and not subseq(s.sure, s.got):
            raise Div("frames", self.i, self.op, "packets lost though at most ten were waiting", s.sure, s.got, cid)
        if len(s.all) > 150 and len(s.got) - before > 100:
            raise Div("unbounded", self.i, self.op, "%d packets kept for a client that does not read" % (len(s.got) - before), cid=cid)
        if len(s.all) > len(s.got):
            self.events.add("dropped")
        if s.all:
            self.events.add("caught_up")
        del self.st[cid]
        return True

    def op_flood(self, cid, n, size):
        if cid not in self.c or cid in self.st or self.m.u[self.slot[cid]].login < M.LOGIN_COMPLETE or self.m.u[self.slot[cid]].slow:
            return False
        for k in range(n):
            body = ("%d " % k + "f" * size)[:200]
            if cid not in self.c or self.slot[cid] not in self.m.u:
                break
            self.c[cid].send("b", body)
            self.m.packet(self.slot[cid], b"b" + body.encode())
            self.m.settle()
            if any(s.partial for s in self.st.values()) or k % 10 == 9 or k == n - 1:
                self.finish_op({})
        self.events.add("flood")
        return True

    def final(self):
        for cid in list(self.st):
            self.step(["resume", cid])
        NetRun.final(self)


class CutG(gen.G):
    """like G, but most packets go out in pieces, several clients at a time"""

    def one(self):
        op = gen.G.one(self)
        if self.run.wio:
            return op
        if op[0] == "conn" and op[3] and self.run.tls and self.p_(.4):
            return ["tconn", op[1], op[2], [self.r.randrange(1, 200) for _ in range(self.r.randrange(0, 8))], self.p_(.3)]
        if op[0] == "close" and op[1] in self.run.c and self.run.c[op[1]].tls and self.p_(.6):
            return ["tend", op[1], self.r.randrange(2), self.text()[:20], self.pick([0, 0, 1, 2, 20])]
        if self.run.tls and self.p_(.025):
            return ["thalf", [0, 5], [self.r.randrange(1, 200) for _ in range(self.r.randrange(0, 4))], self.r.randrange(0, 600),
                    "".join(chr(self.r.randrange(256)) for _ in range(self.r.choice([0, 0, 5, 40])))] if self.p_(.6) else ["thalf", [0, 5], [], 9999, "", flips(self.r)]
        if op[0] != "pkt" or op[1] not in self.run.c or self.p_(.15):
            return op
        pk = [op[1:5]]
        for _ in range(self.pick([0, 0, 1, 2, 3, 5, 8])):
            if self.pending or self.fill:
                break
            for _ in range(10):
                o = gen.G.one(self)
                if o[0] == "pkt" and o[1] in self.run.c:
                    pk.append(o[1:5])
                    break
                if o[0] != "pkt":
                    self.pending = []
        if self.pending and self.pending[0][1] not in self.run.c:
            self.pending = []
        pk = [[p[0], p[1], p[2], p[3] if len(p) > 3 else True] for p in pk]
        left = {}
        for c, t, b, nul in pk:
            left[c] = left.get(c, 0) + len(enc(t, b, nul=nul))
        sched = []
        style = self.r.random()
        while left and len(sched) < 40:
            c = self.pick(sorted(left))
            k = self.r.random()
            n = left[c] if k < .2 else self.r.randrange(1, left[c] + 1) if k < .6 else 1 if k < .75 else self.r.randrange(1, 30)
            if style < .15:
                n = left[c]
            n = min(n, left[c])
            recs, segs = [], []
            if self.run.c[c].tls:
                if self.p_(.5):
                    recs = [self.pick([1, 1, 2, 3, self.r.randrange(1, n + 1)]) for _ in range(self.r.randrange(1, 6))]
                if self.p_(.5):
                    segs = [self.pick([1, 4, 5, 6, self.r.randrange(1, n + 30)]) for _ in range(self.r.randrange(1, 6))]
            sched.append([c, n, int(self.p_(.5)), recs, segs])
            left[c] -= n
            if not left[c]:
                del left[c]
        return ["cut", pk, sched]


class CutCheck(ChatCheck):
    RUN, GEN = NetRun, CutG

    def __init__(self, id, tls, rule, nt):
        self.tlsp = tls
        mix = {k: .4 for k in gen.ALL if k not in ("restart", "fillup", "mailbox", "admin", "adminname")}
        mix.update(join=2.5, open=3, personal=2, leave=1, half=.6, raw=.6, tick=.2)
        ChatCheck.__init__(self, id, dict(start=4, max=6, w=mix), nt, rule=rule, nops=70,
                           kinds=["frames", "closed", "fds", "malformed", "hang"])

    def cfg(self, rng):
        c = ChatCheck.cfg(self, rng)
        c["tls"] = self.tlsp
        if self.tlsp:
            c["alltls"] = .8
        c["io"] = rng.choice([0, 0, 1, 4, 5, 0, 5, 8, 10])
        c["ioseed"] = rng.randrange(1 << 30)
        return c


NET = {}
c = CutCheck("C01", False, "packets were sent in several pieces, or several in one piece, with other clients' pieces in between",
             ["partial", "coalesced", "interleaved"])
NET[c.id] = c
c = CutCheck("C02", True, "a TLS client's packets were cut into several records or segments, or its handshake was",
             ["records", "segments", "handshake_cut", "handshake_abandoned", "tls_end"])
NET[c.id] = c


CH = ["\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xef\xbf\xbf", "\xf4\x8f\xbf\xbf"]
BADCH = ["\xc0\xaf", "\xe0\x80\xaf", "\xed\xa0\x80", "\xed\xbf\xbf", "\xf4\x90\x80\x80", "\xf8\x88\x80\x80\x80", "\xfe", "\xff", "\x80", "\xbf",
         "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xc3(", "\xe2(\xa1", "\xf0\x28\x8c\x28", "\xc1\xbf", "\xf0\x80\x80\x80"]


class HostileG(gen.G):
    """text that is long, cut mid-character, ill-encoded or full of control characters, wherever text is accepted"""

    def text(self, n=None):
        k = self.r.random()
        if k < .12:
            return gen.G.text(self)
        room = self.pick([8, 12, 30, 32, 33, 40, 60, 64, 80, 128, 200, 225, 230, 235, 240, 245, 248, 250, 252])
        out = self.pick(["", "a", "ab", "abc", "%s", " "])
        one = self.pick(CH)
        while len(out) < room:
            j = self.r.random()
            if k < .45:
                out += one                          # a run of the same character: every cut offset over the cases
            elif j < .35:
                out += self.pick(CH)
            elif j < .6:
                out += self.pick(BADCH)
            elif j < .75:
                out += chr(self.r.choice([2, 3, 7, 8, 9, 10, 13, 27, 31, 127, 11]))
            else:
                out += self.pick(gen.WORDS)
        return out[:room].replace("\x01", "")

    def plain(self):
        return self.text() if self.p_(.6) else gen.G.plain(self)

    def group(self):
        if self.p_(.12):
            return self.text()[:self.r.randrange(1, 14)]
        return gen.G.group(self)

    def nick(self):
        if self.p_(.05):
            return self.text()[:self.r.randrange(1, 16)].replace(" ", "")
        return gen.G.nick(self)


class HostileCheck(ChatCheck):
    RUN, GEN = NetRun, HostileG

    def __init__(self):
        mix = {k: .5 for k in gen.ALL if k not in ("restart", "fillup", "mailbox", "adminname", "tick")}
        mix.update(join=1.5, open=3, personal=3, topic=1.5, away=1.5, chinfo=1.5, whois=1, write=1, read=1, boot=1, exclude=1, status=.8,
                   admin=.6, reg=1, name=1, change=1, who=1, raw=1)
        ChatCheck.__init__(self, "C03", dict(start=5, max=7, w=mix, admin=.2, startreg=.6), ["hostile"], nops=90,
                           kinds=["illformed", "malformed"], cfg=hostile_cfg,
                           need=lambda o, n: o[0] == "pkt" and (len(o[3]) > 150 or any(ord(ch) > 126 or ord(ch) < 32 and ch != "\x01" for ch in o[3])),
                           rule="text of more than 100 bytes, of several bytes per character, ill-encoded or with control characters was sent")

    def drive(self, run, nxt):
        def n2():
            op = nxt()
            if op and op[0] == "pkt" and len(op) > 3 and (len(op[3]) > 100 or any(ord(ch) > 126 or ord(ch) < 32 and ch != "\x01" for ch in op[3])):
                run.events.add("hostile")
            return op
        return ChatCheck.drive(self, run, n2)


def hostile_cfg(rng):
    from props import filecfg
    c = filecfg(rng) if rng.random() < .5 else {}
    c.update(wf=True, io=rng.choice([0, 0, 2, 8, 10]), ioseed=rng.randrange(1 << 30))
    return c


NET["C03"] = HostileCheck()


class StallG(CutG):
    def one(self):
        st = self.run.st
        k = self.r.random()
        l = [c for c in self.logged() if c not in st]
        if not self.pending and not self.fill:
            if k < .12 and len(l) > 2 and len(st) < 3:
                return ["stall", self.pick(l), self.pick([0, 0, 0, 1, 5, 40, 200, 1000])]
            if k < .17 and st:
                return ["resume", self.pick(sorted(st))]
            if k < .21 and st:
                return ["grant", self.pick(sorted(st)), self.pick([1, 3, 20, 100, 400])]
            if k < .24 and st and l:
                return ["flood", self.pick(l), self.pick([8, 9, 11, 12, 15, 30]), self.pick([0, 20, 180])]
            if k < .243 and st and l:
                return ["flood", self.pick(l), 180, self.pick([0, 20, 180])]
        for _ in range(8):
            op = gen.G.one(self)
            if op[0] != "pkt" or op[1] not in st:
                return op
        return ["tick", 1, 0]


class LeaveG(StallG):
    """users leave at all kinds of moments: with output waiting, in the middle of a packet or of a handshake"""

    def one(self):
        st = self.run.st
        if not self.pending and not self.fill:
            k = self.r.random()
            l = [c for c in self.logged() if c not in st]
            if k < .03 and len(l) > 2 and len(st) < 2:
                return ["stall", self.pick(l), self.pick([0, 0, 1, 30, 200])]
            if k < .06 and st:
                return ["close", self.pick(sorted(st)), 1]
            if k < .075 and st:
                return ["resume", self.pick(sorted(st))]
            if k < .085 and st:
                return ["grant", self.pick(sorted(st)), self.pick([1, 20, 300])]
            if k < .1 and self.run.tls:
                return ["thalf", [0, 5], [self.r.randrange(1, 200) for _ in range(self.r.randrange(0, 4))], self.r.randrange(0, 600), ""]
        for _ in range(8):
            op = gen.G.one(self)
            if op[0] != "pkt" or op[1] not in st:
                return op
        return ["tick", 1, 0]


class StallCheck(ChatCheck):
    RUN, GEN = StallRun, StallG

    def __init__(self):
        mix = {k: .25 for k in gen.ALL if k not in ("restart", "fillup", "mailbox", "adminname")}
        mix.update(join=1.5, open=5, personal=5, who=1, gather=1.5, drop=.4, boot=.6, leave=1, beep=1, half=.2)
        ChatCheck.__init__(self, "C06", dict(start=5, max=7, w=mix, groups=["foo", "foo", "foo", "bar"], startreg=.5),
                           ["caught_up", "given_up", "stalled_gone", "dropped"], nops=110,
                           kinds=["frames", "closed", "fds", "malformed", "hang", "unbounded"],
                           rule="a client took no output for a while and packets for it had to wait")

    def cfg(self, rng):
        return {"tls": rng.random() < .4, "files": FILES}


NET["C06"] = StallCheck()


class CalmRun(StallRun):
    """watches how often the server looks for something to do while there is nothing"""

    def __init__(self, exe, cfg, trace=False):
        self.held = {}
        StallRun.__init__(self, exe, cfg, trace)

    def calm(self):
        for t in (.006, .03, .1):
            a = self.srv.clock.polls()
            time.sleep(t)
            n = self.srv.clock.polls() - a
            if n <= 15:
                return
        if not self.srv.alive():
            raise ServerDied(self.srv.why())
        raise Div("busy", self.i, self.op, "the server went round %d times in %d ms though nothing happened" % (n, t * 1000))

    def lull(self):
        self.calm()
        self.events.add("calm_slow")

    def op_calm(self):
        self.finish_op({})
        self.calm()
        self.events.add("calm")
        if self.held:
            self.events.add("calm_handshake")
        if self.st:
            self.events.add("calm_stalled")
        return True

    def op_poke(self, cid):
        """a client that takes no output sends something, then reads again"""
        if cid not in self.st or self.st[cid].partial or not self.st[cid].queue:
            return False
        self.c[cid].send("n", "")
        self.m.packet(self.slot[cid], b"n")
        self.calm()
        self.events.add("calm_poke")
        return self.op_resume(cid)

    def op_pause(self, cid, typ, body, cuts):
        if cid not in self.c or cid == PROBE or cid in self.st:
            return False
        n = self.slot[cid]
        u = self.m.u[n]
        if u.slow and u.login:
            return False
        c = self.c[cid]
        d = enc(typ, body)
        if c.tls:
            d = b"".join(c.tls_records([d]))
        c.raw.settimeout(HANG_T)
        self.probe_got = []
        for k in cuts:
            k = min(max(1, k), len(d) - 1)
            if k < 1:
                break
            c.raw.sendall(d[:k])
            d = d[k:]
            self.passes(1)
            self.calm()
        self.events.add("calm_partial")
        c.raw.sendall(d)
        self.m.packet(n, (typ + body).encode("latin-1"))
        self.passes(1)
        self.finish_op({PROBE: self.probe_got})
        self.calm()
        return True

    def op_thold(self, hid, ab, n):
        if not self.tls or hid in self.held or self.free_slot() >= 240:
            return False
        s = socket.socket()
        s.settimeout(HANG_T)
        s.bind(("127.0.%d.%d" % tuple(ab), 0))
        slot = self.free_slot()
        s.connect((self.srv.host, self.srv.sport))
        ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        ctx.check_hostname = False
        ctx.verify_mode = ssl.CERT_NONE
        i, o = ssl.MemoryBIO(), ssl.MemoryBIO()
        obj = ctx.wrap_bio(i, o)
        try:
            obj.do_handshake()
        except ssl.SSLWantReadError:
            pass
        d = o.read()[:n]
        if d:
            s.sendall(d)
        self.held[hid] = (s, slot)
        self.probe_got = []
        self.passes(2)
        self.fds()
        self.finish_op({PROBE: self.probe_got})
        self.calm()
        self.events.add("calm_handshake")
        return True

    def op_tdrop(self, hid):
        if hid not in self.held:
            return False
        self.held.pop(hid)[0].close()
        self.fds()
        self.finish_op({})
        return True

    def free_slot(self):
        n = 6 if self.tls else 5
        used = set(self.slot.values()) | {s for _, s in self.held.values()}
        while n in used:
            n += 1
        return n

    def fds(self):
        base = self.base
        try:
            self.base = base + len(self.held)
            StallRun.fds(self)
        finally:
            self.base = base

    def final(self):
        self.step(["calm"])
        for hid in list(self.held):
            self.step(["tdrop", hid])
        StallRun.final(self)

    def close(self):
        for s, _ in self.held.values():
            s.close()
        StallRun.close(self)


class CalmG(StallG):
    nhid = 0

    def one(self):
        if not self.pending and not self.fill:
            k = self.r.random()
            if k < .1:
                return ["calm"]
            if k < .15:
                l = [c for c in self.logged() if c not in self.run.st]
                o = self.g_open() if self.p_(.6) else self.g_who()
                if l and o and o[0] == "pkt" and o[2] in "bh":
                    return ["pause", self.pick(l), o[2], o[3], [self.pick([1, 1, 2, 3, 5, 6, 20, 60]) for _ in range(self.r.randrange(1, 4))]]
            if k < .2 and self.run.tls and len(self.run.held) < 5:
                self.nhid += 1
                return ["thold", self.nhid, [0, 5], self.pick([0, 0, 1, 3, 5, 6, 100, 200, 9999])]
            ok = [c for c, x in sorted(self.run.st.items()) if x.queue and c in self.run.c]
            if k < .24 and ok:
                return ["poke", self.pick(ok)]
            if k < .22 and self.run.held:
                return ["tdrop", self.pick(sorted(self.run.held))]
        return StallG.one(self)


class CalmCheck(ChatCheck):
    RUN, GEN = CalmRun, CalmG

    def __init__(self):
        mix = {k: .25 for k in gen.ALL if k not in ("restart", "fillup", "mailbox", "adminname")}
        mix.update(join=2, conn=1, open=4, personal=4, who=1, gather=1.5, drop=.6, boot=.6, leave=1.5, beep=1, half=.4, raw=.4, burst=1)
        ChatCheck.__init__(self, "C35", dict(start=4, max=7, w=mix, groups=["foo", "foo", "foo", "bar"], startreg=.4, ),
                           ["calm", "calm_partial", "calm_handshake", "calm_stalled", "calm_slow"], nops=90, kinds=["busy"],
                           rule="the server was left alone with connections idle, in the middle of a packet or a handshake, or not taking output")

    def cfg(self, rng):
        c = {"tls": rng.random() < .6, "files": FILES}
        if rng.random() < .2:
            c["files"] = dict(FILES, **{"icbd.perms": "mask 127.0.0.6 255.255.255.255 PERM_SLOWMSGS\nmask 127.0.1.0 255.255.255.0 PERM_SLOWMSGS\nuser joe h5.n0.test PERM_SLOWMSGS\n"})
        return c


NET["C35"] = CalmCheck()


class LeakG(StallG):
    def one(self):
        if self.run.tls and not self.pending and not self.fill and self.p_(.02):
            return ["thalf", [0, 5], [self.r.randrange(1, 200) for _ in range(self.r.randrange(0, 4))], self.r.randrange(0, 600),
                    "".join(chr(self.r.randrange(256)) for _ in range(self.r.choice([0, 0, 5, 40])))] if self.p_(.6) else ["thalf", [0, 5], [], 9999, "", flips(self.r)]
        return StallG.one(self)


class LeakCheck(ChatCheck):
    """the same history again and again must not take ever more memory"""
    RUN, GEN = StallRun, LeakG

    def __init__(self):
        mix = {k: .4 for k in gen.ALL if k not in ("restart", "fillup", "mailbox", "admin", "adminname", "write", "read", "tick")}
        mix.update(join=2.5, conn=1, open=2, personal=2, leave=2, half=.5, raw=.6, who=.6, reg=.8, chinfo=.8, whois=.6, drop=.4, tick=.3, away=.6, misc=.8, news=.5)
        ChatCheck.__init__(self, "C36", dict(start=3, max=6, w=mix, groups=["foo", "foo", "bar", "1", ".sec"], startreg=.5, ticks=[1, 30, 300, 4000],
                                                    tales=[x for x in tales.NAMES if x != "proofs"]),
                           ["rounds"], nops=40, kinds=["grows"], rule="the history was repeated at least six times")
        self.rule += " The history is then repeated from the start, all clients having left, and the memory in use after each repetition compared."

    def cfg(self, rng):
        return {"tls": rng.random() < .35, "files": dict(FILES, **{"icbd.deny": "zed@h9* no\n", "icbd.perms": "user bob h6.n0.test PERM_DENY\n"})}

    def drive(self, run, nxt):
        try:
            ops = []
            while True:
                op = nxt()
                if op is None:
                    break
                ops.append(op)
                run.step(op)
            self.leave(run)
            hist = [self.heap(run)]
            n = 7
            while len(hist) < n:
                for op in ops:
                    self.step(run, op)
                self.leave(run)
                hist.append(self.heap(run))
                if None in hist:
                    return None
                if len(hist) == 7 and self.growing(hist[-4:]):
                    n = 28      # (more than a mailbox holds)
            run.events.add("rounds")
            if n == 28 and self.growing(hist[3:]):
                run.op = ["repeat"]
                raise Div("grows", run.i, run.op, "memory in use after each repetition of the history: %r" % (hist,))
        except M.ModelGap:
            pass
        except Div as d:
            return d
        return None

    @staticmethod
    def growing(h):
        return all(b > a for a, b in zip(h, h[1:]))

    def step(self, run, op):
        run.step(op)
        run.ops.pop()
        run.i -= 1

    def leave(self, run):
        for cid in [c for c in run.c if c != PROBE]:
            if cid in getattr(run, "st", {}):
                self.step(run, ["resume", cid])
            self.step(run, ["close", cid, 0])
        self.step(run, ["tick", 400, 0])

    def heap(self, run):
        run.fds()
        for ask in (True, False, False):
            v = run.srv.clock.heap(ask)
            got = {}
            run.probe_sync(got)
            run.probe_sync(got)
            run.m.settle()
            run.collect(got)
        return run.srv.clock.heap()


NET["C36"] = LeakCheck()

import props
props.CHECKS["C05"].RUN, props.CHECKS["C05"].GEN = StallRun, LeaveG
