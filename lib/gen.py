"""Generators of operations, aware of the model's state (so that they hit interesting cases)."""
import model as M
import tales

NICKS = ["joe", "Bob", "carol", "Dave_2", "eve!", "TwelveChars1", "x", "fay", "Gus", "h.h", "ivy", "JOE2"]
MORE = [",a", ",twelve-char", "longnickname", "anothernick_", "-dash", "@at", "m_m_m_m_m_m_", "$dollar", "''quotes''", "0123456789ab", "zzzzzzzzzzzz", "+", "?what", ",", "a,b,c,d,e,f,", "nick_of_11c"]
GROUPS = ["foo", "Bar", "baz", "longname", "g_1", "Q", "zed", "foo2"]
PWS = ["pw", "secret", "PW", "a-longer-password", "hunter2", "twelve_chars"]
WORDS = ["hello", "a", "the", "quick", "fox", "ICB", "50%", "%s", "%%", "x" * 30, "caf\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80",
         "\xc3", "\xff\xfe", "tab\there", "nl\nx", "bell\x07", "\x02co", "--", "*", "?", "me", "'", "\"", "|", "\\", "/x", "#1", "1", "0", "-5"]
USERS = ["joe", "bob", "ann", "u1", "abcdefghijkl", "Zed"]
MISC = ["-q", "-n", "-s", "-r", "-a", "-d", "-p", "-o", "-qr", "-x", "-", "--", "on", "off", "verbose", "reset", "Server", "admin"]


def J(*f):
    return "\x01".join(f)


def swap(s):
    return s.encode("latin-1").swapcase().decode("latin-1")


class G:
    def __init__(self, rng, run, prof):
        self.r, self.run, self.p = rng, run, prof
        self.names = list(prof["w"])
        self.ws = [prof["w"][k] for k in self.names]
        self.ncid = 0
        self.pending = []
        self.fill = []
        self.homes = {}
        self.NICKS = NICKS
        if "crowd" in prof and rng.random() < prof["crowd"]:
            # so many, with such names, that listings take several lines
            self.NICKS = NICKS[:6] + MORE
            self.p = dict(prof, start=rng.randrange(8, 19), max=20, groups=["foo", "foo", "foo", "foo", "1", "Bar"])

    def begin(self):
        names = self.r.sample(self.NICKS, min(len(self.NICKS), self.p.get("start", 0)))
        for nk in names:
            cid = self.ncid
            self.ncid += 1
            gr = self.pick(self.p.get("groups") or ["foo", "foo", "bar", "1"])
            self.pending.append(["conn", cid, self.addr([5, 6, 7, 8, 250], False), self.p_(self.run.cfg.get("alltls", .3))])
            self.pending.append(["pkt", cid, "a", J(self.pick(USERS), nk, gr, "login", ""), True])
            if self.p_(self.p.get("startreg", .3)):
                self.pending.append(["pkt", cid, "h", J("p", self.pick(PWS)), True])
        if self.p.get("admin"):
            cid = self.ncid
            self.ncid += 1
            self.pending.append(["conn", cid, [0, 9], False])
            self.pending.append(["pkt", cid, "a", J("root", self.pick(["admin", "ADMIN"]), "foo", "login", "ci_test_pwd"), True])

    # -- values
    @property
    def m(self):
        return self.run.m

    def pick(self, xs):
        return xs[self.r.randrange(len(xs))]

    def p_(self, x):
        return self.r.random() < x

    def case(self, s):
        k = self.r.random()
        t = s if k < .7 else s.upper() if k < .85 else s.lower()
        return t if all(ord(c) < 256 for c in t) else s

    def logged(self):
        return [c for c, s in self.run.slot.items() if c >= 0 and s in self.m.u and self.m.u[s].login == M.LOGIN_COMPLETE]

    def user(self):
        """a connection to act on: mostly logged in ones"""
        l = self.logged()
        if l and self.p_(.97):
            return self.pick(l)
        l = [c for c in self.run.c if c >= 0]
        return self.pick(l) if l else None

    def u(self, cid):
        return self.m.u[self.run.slot[cid]]

    def on_nicks(self):
        return [self.u(c).nick.decode("latin-1") for c in self.logged()] or ["nobody"]

    def nick(self):
        k = self.r.random()
        if k < .75:
            return self.case(self.pick(self.on_nicks()))
        if k < .93:
            return self.case(self.pick(self.NICKS))
        if k < .96:
            return self.pick(["server", "Server", "admin", "ADMIN"])
        return self.pick(["", "no one", "\x80x", "thirteenchars", "a" * 70, "[", "*"])

    def group(self):
        k = self.r.random()
        live = [g.name.decode("latin-1") for i, g in self.m.g.items() if i]
        if k < .45 and live:
            return self.case(self.pick(live))
        if k < .75:
            return self.case(self.pick(GROUPS))
        if k < .80:
            return "." + self.pick(GROUPS)
        if k < .85:
            return ".." + self.pick(GROUPS)
        if k < .92:
            return "@" + self.nick()
        return self.pick(["1", "1", "ICB", "~IDLE~", "~idle~", "~reseda~", "~RESEDA~", "", ".", "..", "...", "a b", "\xe9t\xe9", "toolonggroup", "-SECRET-"])

    def text(self, n=None):
        k = self.r.random()
        if k < .05:
            return ""
        if k < .12:
            return "".join(chr(self.r.randrange(1, 256)) for _ in range(self.r.randrange(1, 60))).replace("\x01", "")
        if k < .2:
            t = self.pick(["w", "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "ab ", "%"]) * 250
            return t[:self.r.randrange(200, 252)]
        return " ".join(self.pick(WORDS) for _ in range(self.r.randrange(1, 6)))

    def plain(self):
        return self.pick(["hi", "hello there", "how are you", "ok %d" % self.r.randrange(100), "caf\xc3\xa9"])

    def site(self):
        k = self.r.random()
        us = [self.u(c) for c in self.logged()]
        if us and k < .7:
            v = self.pick(us)
            a = v.addr().decode("latin-1")
            i, h = a.split("@", 1)
            return self.pick([a, a, i + "@*", "*@" + h, "*" + h[2:], i[:1] + "?*@*", "[" + i[:1] + "-z]*@" + h])
        return self.pick(["*", "*@*.test", "nobody@nowhere", "*.com", "joe@*", "[A-Z]*", "*@h[0-9].*", "[", "\\"])

    def pw(self, cid=None):
        if cid is not None and self.p_(.75):
            v = self.m.dbget(self.u(cid).nick, b"password")
            if v is not None:
                return self.near(v.decode("latin-1"))
        return self.pick(PWS)

    def near(self, pw):
        """the password, or now and then one that is almost it"""
        if self.p_(.75) or not pw:
            return pw
        return self.pick([pw[:-1], pw[:1], pw + "x", swap(pw), swap(pw.lower()), pw[1:], pw[:-1] + "~", "*", pw[::-1], "x" + pw])

    # -- operations
    def one(self):
        op = self.next()
        if op[0] == "conn":
            self.homes[op[1]] = op[2]
        if op[0] == "pkt" and op[2] != "a":
            self.recent = self.recent[-11:] + [op]
        return op

    recent = []

    def next(self):
        if self.pending:
            return self.pending.pop(0)
        if self.fill:
            op = self.fill.pop(0)
            return op
        for _ in range(20):
            k = self.r.choices(self.names, self.ws)[0]
            op = getattr(self, "g_" + k)()
            if op:
                return op
        return ["tick", 1, 0]

    def g_tale(self):
        """a short story with random details"""
        if self.pending or self.fill:
            return None
        ops = tales.tell(self, self.pick(self.p.get("tales") or tales.NAMES))
        if ops:
            self.pending = ops[1:]
            return ops[0]

    def g_heir(self):
        """somebody takes the place of one who has just done something, and goes on where that one left off"""
        l = [o for o in self.recent[-6:] if o[1] in self.logged()]
        if not l or self.pending or self.fill:
            return None
        c = self.pick(l)[1]
        u = self.u(c)
        nick = u.nick.decode("latin-1")
        cid = self.ncid
        self.ncid += 1
        free = [x for x in self.NICKS if self.m.find_user(x.encode()) < 0]
        new = self.pick(free) if free and self.p_(.8) else nick
        gr = u.group.decode("latin-1") if self.p_(.7) else self.group()
        mine = [["pkt", cid] + o[2:] for o in self.recent if o[1] == c]
        his = [list(o) for o in self.recent if o[1] != c and nick.lower() in o[3].lower()]
        if new != nick:
            his = [[o[0], o[1], o[2], o[3].replace(nick, new)[:252]] + o[4:] for o in his]
        self.pending = [["conn", cid, self.addr([5, 6, 7, 8, 250], False), self.p_(self.run.cfg.get("alltls", .3))],
                        ["pkt", cid, "a", J(self.pick(USERS), new, gr, "login", ""), True]] + mine[-self.pick([1, 1, 2, 3]):] + his[-self.pick([1, 1, 2]):]
        return ["close", c, self.r.randrange(2)]

    def C(self, cmd, arg, cid=None):
        c = self.user() if cid is None else cid
        if c is None:
            return None
        b = J(cmd, arg)
        return ["pkt", c, "h", b[:252], True]

    def addr(self, bs, nets):
        if self.p.get("odd") and self.p_(self.p["odd"]):
            if self.run.cfg.get("dual") and self.p_(.2):
                return [99, 1]
            return [self.pick([0, 0, 1]), self.pick([24, 235, 236, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 250, 253, 5, 5, 6])]
        return [self.pick([0, 0, 1]) if nets else 0, self.pick(bs)]

    def g_burst(self):
        """a slow user in a hurry"""
        ok = [c for c in self.logged() if self.m.u[self.run.slot[c]].slow]
        if not ok:
            return None
        c = self.pick(ok)
        ps = []
        for _ in range(self.r.randrange(2, 6)):
            op = self.g_open() if self.p_(.5) else self.g_personal()
            if op and op[0] == "pkt" and op[2] in "bh":
                ps.append([op[2], op[3]])
        return ["burst", c, ps] if ps else None

    def g_join(self):
        """connect and log in"""
        if len(self.logged()) >= self.p.get("max", 6):
            return None
        cid = self.ncid
        self.ncid += 1
        ab = self.addr([5, 6, 7, 8, 9, 250, 253], True)
        self.pending += [self.login_op(cid)]
        return ["conn", cid, ab, self.p_(self.run.cfg.get("alltls", .3))]

    def login_op(self, cid):
        us = self.pick(USERS)
        nk = self.pick(self.NICKS)
        free = [x for x in self.NICKS if self.m.find_user(x.encode()) < 0]
        if free and self.p_(.9):
            nk = self.pick(free)
        if self.p_(.1):
            nk = self.nick()
        if self.p.get("admin") and self.p_(self.p["admin"]):
            nk = self.pick(["admin"] * 6 + ["admin2", "Administratr", "admi", "xadmin"])
        gr = self.group()
        if self.p.get("groups") and self.p_(.8):
            gr = self.pick(self.p["groups"])
        pw = ""
        if self.p_(.5):
            v = self.m.dbget(nk.encode("latin-1"), b"password")
            pw = self.near(v.decode("latin-1")) if v is not None and self.p_(.8) else self.pick(PWS)
        if "admi" in nk.lower():
            pw = self.pick(["ci_test_pwd"] * 6 + ["CI_TEST_PWD", "ci_test_pw", ""])
        typ = "login"
        f = [us, nk, gr, typ, pw]
        if self.p_(.06):
            k = self.r.randrange(7)
            if k == 0:
                f[0] = self.pick(["", "a b", "thirteenchars", "a-b", "\xe9"])
            elif k == 1:
                f[1] = self.pick(["", "thirteenchars", "bad nick", "\x01"])
            elif k == 2:
                f[3] = self.pick(["w", "wg", "bogus", "LOGIN", "", "W"])
                if len(f[1]) < len(f[2]):
                    f[1] = f[1] + "y" * (len(f[2]) - len(f[1]))
            elif k == 3:
                f = f[:self.r.randrange(1, 5)]
            elif k == 4:
                f += ["extra"] * self.r.randrange(1, 4)
            elif k == 5:
                f[4] = "p" * 40
            else:
                f = f[:4]
        return ["pkt", cid, "a", J(*f)[:252], True]

    def g_relogin(self):
        c = self.user()
        return self.login_op(c) if c is not None else None

    def g_conn(self):
        if len(self.run.c) > self.p.get("max", 6) + 3:
            return None
        self.ncid += 1
        return ["conn", self.ncid - 1, [0, 5], self.p_(self.run.cfg.get("alltls", .3))]

    def g_leave(self):
        l = [c for c in self.run.c if c >= 0]
        if len(l) < 3 and self.p_(.7):
            return None
        return ["close", self.pick(l), self.r.randrange(2)] if l else None

    def g_half(self):
        l = [c for c in self.run.c if c >= 0]
        return ["half", self.pick(l), self.r.randrange(1, 40)] if l else None

    def edge(self):
        """seconds until somebody or some group is exactly at a limit, or just beside it"""
        out = []
        for u in self.m.u.values():
            g = self.m.g.get(self.m.find_group(u.group))
            for x in [60, 3600, 86400] + ([g.idleboot, g.idlemod] if g else []):
                out += [x - (self.m.now - u.t_recv)] * 2
        for g in self.m.g.values():
            if g.modtimeout:
                out += [g.modtimeout - self.m.now] * 3
        if self.m.die > 0:
            out = out[:8] + [self.m.die - x - self.m.now for x in (3600, 300, 60, 60)] * 4
        d = self.pick(out or [1]) + self.pick([-1, 0, 0, 1])
        return d if 0 < d <= 90000 else None

    def g_tick(self):
        if self.p_(.25):
            d = self.edge()
            if d and d <= 2 * max(self.p.get("ticks", [4000])):
                if self.p_(.5) and not self.pending:
                    cs = self.logged()
                    if cs:
                        u = self.u(self.pick(cs))
                        op = self.C("shuttime", "") if self.m.die > 0 else self.C("whereis", u.nick.decode("latin-1"))
                        self.pending = [op] if op else []
                return ["tick", d, 0]
        return ["tick", self.pick(self.p.get("ticks", [1, 1, 2, 5, 11, 30, 60, 61, 240, 301, 1000])),
                self.pick([0, 0, 123456, 999999, 10000])]

    def g_restart(self):
        return ["restart", self.r.randrange(2)]

    def g_dying(self):
        """something that is likely to write the database, with a fault"""
        k = self.pick(["reg", "reg", "cp", "delete", "secure", "write", "write", "read", "chinfo", "leave", "relogin", "join"])
        op = getattr(self, "g_" + k)()
        if op is None or op[0] not in ("pkt", "close", "half"):
            return op
        kind = self.pick([1, 1, 2, 3, 3, 4, 5, 5])
        at = self.r.randrange(1, 8) if kind in (2, 4, 5) else int(2 ** self.r.uniform(0, 9))
        return ["dying", kind, at, self.pick([1, 2, 4] if kind in (1, 3) else [1, 2]), op]

    def g_dbfull(self):
        if self.run.full:
            return ["dbheal"]
        kind = self.pick([1, 1, 2, 3, 4, 5])
        return ["dbfull", kind, self.r.randrange(1, 6) if kind in (2, 4, 5) else int(2 ** self.r.uniform(0, 7)), self.pick([1, 1, 2, 5, 1000000])]

    def g_forge(self):
        """something that might pass for an entry of the log"""
        import time
        l = [c for c in self.run.c if c >= 0]
        if not l:
            return None
        c = self.pick(l)
        e = self.pick(["\n", "\r\n", "\n\n", "x\ny"]) + "[INFO]  %s %s: [LOGIN] 7: eve@h5.n0.test" % (
            time.strftime("%b %d %Y %H:%M:%S", time.localtime(self.run.now)), self.m.host.decode("latin-1"))
        e = self.pick([e, e + "\n", "\n", "a\tb", "\x1b[2J", e[:20]])
        if self.u(c).login == 0:
            return self.pick([["pkt", c, "a", J("eve" + e, "eve", "", "w", ""), True], ["pkt", c, "b", "hi" + e, True], ["pkt", c, "h", J("m" + e, "x" + e), True],
                              ["pkt", c, "a", J("eve", "eve", "", "log" + e, ""), True]])
        return self.pick([["pkt", c, "h", J("bogus" + e, "x"), True], ["pkt", c, "h", J("topic", "a" + e), True], ["pkt", c, "b", "hi" + e, True], ["pkt", c, "h", J("w", "x" + e), True],
                          ["pkt", c, "h", J("name", "ev" + e[:9]), True], ["pkt", c, "h", J("p", "pw" + e), True], ["pkt", c, self.pick("czkAq"), "hi" + e, True]])

    def g_dump(self):
        return ["dump", self.pick([0, 0, 0, 0, 1, 2])]

    def g_hup(self):
        return ["hup"]

    def g_open(self):
        c = self.user()
        return ["pkt", c, "b", (self.text() if self.p_(.5) else self.plain())[:252], self.p_(.9)] if c is not None else None

    def g_personal(self):
        return self.C("m", self.nick() + " " + (self.text() if self.p_(.4) else self.plain()))

    def g_change(self):
        return self.C("g", self.group())

    def g_gather(self):
        """go where somebody else is"""
        live = [g.name.decode("latin-1") for i, g in self.m.g.items() if i]
        return self.C("g", self.pick(live)) if live else None

    def g_who(self):
        k = self.r.random()
        return self.C("w", "" if k < .35 else self.group() if k < .6 else self.pick(["-g", "-s"]) if k < .75 else
                      self.pick(["-g ", "-s "]) + self.group() if k < .85 else "@" + self.nick() if k < .95 else self.pick([".", "?", "-x", "- ", " "]))

    def modof(self):
        """(cid, group) of a moderator"""
        l = []
        for c in self.logged():
            for g in self.m.g.values():
                if g.mod == self.run.slot[c]:
                    l.append((c, g))
        return self.pick(l) if l else None

    def modcid(self, q=.85):
        x = self.modof()
        return x[0] if x and self.p_(q) else self.user()

    def g_invite(self):
        f = self.pick(["", "", "", "-q ", "-r ", "-n ", "-qr ", "-q -r ", "-x ", "-nn ", "-"])
        if self.p_(.3):
            return self.C("invite", self.pick(["-s ", "-rs ", "-q -s "]) + self.site(), self.modcid())
        return self.C("invite", (f + self.nick()) if self.p_(.93) else f.strip(), self.modcid())

    def g_cancel(self):
        x = self.modof()
        if x and self.p_(.7):
            g = x[1]
            ns, ss = list(g.inv_n) + list(g.inv_nr), list(g.inv_s) + list(g.inv_sr)
            if ns and self.p_(.6):
                return self.C("cancel", self.pick(["", "-q ", "-n "]) + self.case(self.pick(ns).decode("latin-1")), x[0])
            if ss:
                return self.C("cancel", self.pick(["-s ", "-q -s ", "-qs "]) + self.case(self.pick(ss).decode("latin-1")), x[0])
        return self.C("cancel", self.pick(["", "-q ", "-s ", "-x "]) + self.nick(), self.modcid())

    def g_pass(self):
        return self.C("pass", self.nick() if self.p_(.85) else "", self.modcid())

    def g_boot(self):
        x = self.modof()
        c = self.modcid()
        if c is None:
            return None
        w = self.nick()
        if self.p_(.7):
            w = self.pick([self.u(i).nick.decode("latin-1") for i in self.logged() if M.caseeq(self.u(i).group, self.u(c).group)] or ["x"])
        if w.lower() == "server":
            w = "joe"
        return self.C("boot", w + self.pick(["", "", " for fun", " %s is out", " 100%", " %d", " %s %s", " %% x", " " + self.text()]), c)

    def statusword(self):
        k = self.r.random()
        if k < .6:
            return self.pick(["r", "m", "c", "p", "i", "s", "v", "q", "n", "l"])
        if k < .7:
            return "# " + self.pick(["0", "1", "2", "3", "254", "255", "-1", "x", ""])
        if k < .78:
            return "b " + self.pick(["0", "1", "5", "59", "60", "90", "-1", ""])
        if k < .86:
            return "im " + self.pick(["0", "1", "5", "60", "240", "241", "-1", ""])
        if k < .91:
            n = self.group()
            return "name " + (n if n.lower() != "~idle~" else "x")
        if k < .95:
            return "idlebootmsg " + self.pick(["%s fell asleep", "no name", "%s %s", "%d", "", "100%% of %s", "%s " + "z" * 50, "%s" + "z" * 52, "%s" + "z" * 53])
        return self.pick(["?", "bogus", "R", "V"])

    def g_status(self):
        if self.p_(.12):
            return self.C("status", "")
        return self.C("status", " ".join(self.statusword() for _ in range(self.pick([1, 1, 1, 2, 3]))), self.modcid())

    def g_topic(self):
        return self.C("topic", self.text() if self.p_(.5) else self.pick(["", "a topic", "news"]), self.modcid(.6))

    def g_exclude(self):
        return self.C("exclude", self.nick() + " " + (self.text() if self.p_(.4) else self.plain()))

    def g_talk(self):
        return self.C("talk", self.pick(["", "-a ", "-a ", "-d ", "-r ", "-ar ", "-q ", "-qa ", "-x ", "-dq "]) + self.nick(), self.modcid())

    def g_hush(self):
        if self.p_(.1):
            return self.C("hush", "")
        f = self.pick(["", "", "-p ", "-o ", "-q ", "-qp ", "-po ", "-n ", "-x "])
        w = self.nick() if self.p_(.65) else "-s " + self.site()
        if self.p_(.05):
            w = self.pick(["j*", "[a-j]*", "?", "*"])
        return self.C(self.pick(["hush", "shush"]), f + w)

    def g_notify(self):
        if self.p_(.1):
            return self.C("notify", "")
        w = (self.nick() if self.p_(.5) else self.pick(self.NICKS)) if self.p_(.65) else "-s " + self.site()
        if self.p_(.05):
            w = self.pick(["j*", "[a-j]*", "?", "*"])
        return self.C("notify", self.pick(["", "", "-q ", "-n ", "-x "]) + w)

    def g_name(self):
        k = self.r.random()
        return self.C("name", self.pick(self.NICKS) if k < .7 else self.nick() if k < .9 else self.pick(["", "has space", "\xe9", "averyveryverylong", "Server"]))

    def g_echoback(self):
        return self.C("echoback", self.pick(["on", "off", "verbose", "verbose", "ON", "x", ""]))

    def g_nobeep(self):
        return self.C("nobeep", self.pick(["on", "off", "verbose", "OFF", "x", ""]))

    def g_beep(self):
        return self.C("beep", self.nick())

    def g_ping(self):
        return self.C("ping", self.nick() if self.p_(.8) else "")

    def g_pong(self):
        l = [c for c in self.logged() if self.u(c).pong != -1]
        c = self.pick(l) if l and self.p_(.8) else self.user()
        return ["pkt", c, "m", self.pick(["", "x"]), True] if c is not None else None

    def g_away(self):
        return self.C("away", self.pick(["", "lunch", "gone %s", "100%% away %s", "%d", self.text(), "z" * 240, "%s" + "z" * 200]))

    def g_noaway(self):
        return self.C("noaway", self.pick(["", "x"]))

    def g_whereis(self):
        return self.C("whereis", self.nick() if self.p_(.7) else self.pick(["", "", " ", "\tann", " " + self.nick(), self.nick() + " x"]))

    def g_misc(self):
        return self.C(self.pick(["motd", "v", "s_help", "shuttime", "stats", "?", "help", "info", "bogus", "MOTD", ""]), "")

    def g_news(self):
        return self.C("news", self.pick(["", "1", "2", "9", "10", "x", "../motd", "(null)", "01", "1x", " 1", "+1", "0", "1 2"]))

    # admin
    def g_admin(self):
        l = [c for c in self.logged() if b"admi" in self.u(c).nick.lower()]
        c = self.pick(l) if l and self.p_(.7) else None
        k = self.pick(["wall", "wall", "drop", "drop", "shutdown", "stats", "restart", "log"])
        if k == "restart" and c is not None and self.m.check_auth(self.run.slot[c]):
            k = "wall"
        if k == "wall":
            return self.C("wall", self.text(), c)
        if k == "drop":
            n = self.nick()
            if n.lower() == "server":
                n = "x"
            i = self.m.find_user(n.encode("latin-1"))
            pw = self.m.dbget(n.encode("latin-1"), b"password")
            return self.C("drop", n + self.pick(["", " ", " " + self.pick(PWS), " " + self.near((pw or b"pw").decode("latin-1"))]), c)
        if k == "shutdown":
            return self.C("shutdown", self.pick(["10", "100", "400", "7"]), c)
        if k == "log":
            return self.C("log", self.pick(["", "0", "1", "2", "3", "3", "4", "5", "9", "x"] if self.p.get("loglevels") else ["", "0"]), c)
        return self.C(k, "reset" if k == "stats" else "", c)

    def g_adminname(self):
        return self.C("name", self.pick(["admin", "ADMIN", "Admin", "admin2", "joe", "x"]))

    def g_drop(self):
        n = self.regnick()
        if n.lower() == "server":
            return None
        pw = self.m.dbget(n.encode("latin-1"), b"password")
        return self.C("drop", n + " " + self.pick([self.near(pw.decode("latin-1")) if pw else "pw"] * 3 + PWS))

    # nickname database
    def auto(self, cmd, arg, cid=None):
        """the same request, as a command or as a message to the server's nickname"""
        c = self.user() if cid is None else cid
        if c is None:
            return None
        if self.p_(.5) or (cmd == "?" and self.p_(.5)):
            return self.C(cmd, arg, c)
        return self.C("m", self.pick(["server ", "Server "]) + cmd + (" " + arg if arg else ""), c)

    def g_reg(self):
        c = self.user()
        if c is None:
            return None
        return self.auto("p", self.pw(c) if self.p_(.95) else "", c)

    def g_cp(self):
        c = self.user()
        return self.auto("cp", self.pw(c) + " " + (self.pick(PWS + [""]) if self.p_(.6) else self.pick([self.pw(c) + "x", self.pw(c)[:-1], self.pw(c)[:2], swap(self.pw(c))])), c) if c is not None else None

    def g_delete(self):
        c = self.user()
        return self.auto("delete", self.pw(c) if self.p_(.9) else "", c) if c is not None else None

    def g_secure(self):
        return self.auto(self.pick(["secure", "nosecure"]), "")

    def regnick(self):
        l = sorted({k.split(b".")[0].decode("latin-1") for k in self.m.db if k.endswith(b".nick")})
        return self.case(self.pick(l)) if l and self.p_(.8) else self.nick()

    def g_write(self):
        return self.auto("write", self.regnick() + " " + (self.text() if self.p_(.5) else self.plain()))

    def g_mailbox(self):
        """fill somebody's mailbox"""
        c = self.user()
        if c is None:
            return None
        to = self.regnick()
        self.fill = [["pkt", c, "h", J("write", to + " msg %d" % i), True] for i in range(self.r.randrange(5, 23))]
        return self.fill.pop(0)

    def g_read(self):
        return self.auto("read", "")

    def g_chinfo(self):
        if self.p_(.35):
            # something close to what is there already
            c = self.user()
            if c is None:
                return None
            a, f = self.pick([("rname", "realname"), ("text", "text"), ("addr", "addr"), ("phone", "phone"), ("email", "email"), ("www", "www")])
            v = (self.m.dbget(self.u(c).nick, f.encode()) or b"").decode("latin-1")
            if v and "\x00" not in v:
                return self.auto(a, self.pick([v, v + self.pick(["x", " 7", "|q"]), v[:-1], v[:len(v) // 2], v[1:], swap(v), v[:-1] + "~"])[:200], c)
        return self.auto(self.pick(["rname", "text", "addr", "phone", "email", "www"]),
                         self.text() if self.p_(.6) else self.pick(["Joe Bloggs", "1 Main St|Town|CA", "555-1212", "x@y.z", "http://a/", "w " * 90, "v" * 200, ""]))

    def g_whois(self):
        return self.auto("whois", self.regnick() if self.p_(.92) else self.pick(["", "server", "thirteenchars"]))

    # raw packets
    def g_raw(self):
        l = [c for c in self.run.c if c >= 0]
        if not l:
            return None
        c = self.pick(l)
        t = self.pick(list("abcdefghiklmno") + ["z", "A", " "])
        if t == "a" and self.u(c).login == 0 and self.p_(.9):
            t = "b"
        body = self.text()
        if t == "h":
            body = self.pick(M.COMMANDS + M.AUTO)
            if body in ("restart", "shutdown", "boot", "status", "log"):
                body = "w"
            for _ in range(self.pick([0, 0, 1, 2, 3, 18, 19])):
                body += "\x01" + self.pick(MISC + WORDS)
        return ["pkt", c, t, body[:252], self.p_(.8)]


    def g_fillup(self):
        """bring one of the bounded lists to its limit and poke at it"""
        c = self.modcid(.9)
        if c is None:
            return None
        k = self.pick(["hush", "hush -p", "hush -o", "hush -s", "notify", "notify -s", "invite", "invite -r", "invite -s", "talk -a", "talk -ar"])
        cmd, _, fl = k.partition(" ")
        n = {"hush": 32, "notify": 40, "invite": 50, "talk": 50}[cmd]
        names = ["n%02d" % i for i in range(n + self.r.randrange(0, 5))]
        q = self.pick(["-q ", ""])
        ops = [["pkt", c, "h", J(cmd, q + (fl + " " if fl else "") + x), True] for x in names]
        for _ in range(6):
            x = self.case(self.pick(names))
            ops.append(["pkt", c, "h", J(cmd if cmd in ("hush", "notify") else "cancel" if cmd == "invite" else cmd,
                                         ("-d " if cmd == "talk" else "-s " if fl == "-s" else fl + " " if cmd == "hush" and fl else "") + x), True])
            ops.append(["pkt", c, "h", J(cmd, q + (fl + " " if fl else "") + self.pick(names + ["extra"])), True])
            ops.append(["pkt", c, "h", J("status", "") if cmd == "talk" else J(cmd, ""), True])
        pre = []
        if cmd == "invite":
            pre = [["pkt", c, "h", J("status", "r"), True]]
        elif cmd == "talk":
            pre = [["pkt", c, "h", J("status", "c"), True]]
        self.fill = pre + ops
        return self.fill.pop(0)


ALL = {k[2:]: 1 for k in dir(G) if k.startswith("g_") and k not in ("g_dying", "g_dbfull", "g_hup", "g_dump", "g_forge")}
