"""Short stories with random details: sequences of operations leading to situations random histories reach too seldom.
Each takes the generator and returns a list of operations (or None)."""
import model as M

SEP = "\x01"


class Tales:
    def __init__(self, g):
        self.g = g
        self.ops = []

    # -- words to tell them with
    def cmd(self, cid, c, arg=""):
        self.ops.append(["pkt", cid, "h", (c + SEP + arg)[:252], True])

    def say(self, cid, t="hi"):
        self.ops.append(["pkt", cid, "b", t, True])

    def tick(self, *secs):
        self.ops.append(["tick", self.g.pick(list(secs)), self.g.pick([0, 0, 500000])])

    def leave(self, cid):
        self.ops.append(["close", cid, self.g.r.randrange(2)])

    def nick(self, cid):
        return self.g.u(cid).nick.decode("latin-1")

    def home(self, cid):
        """where it came from, for an operation"""
        return self.g.homes.get(cid, [0, 5])

    def login(self, nick, group, pw="", user=None, addr=None):
        g = self.g
        cid = g.ncid
        g.ncid += 1
        self.ops.append(["conn", cid, addr or g.addr([5, 6, 7, 8, 250], False), g.p_(g.run.cfg.get("alltls", .3))])
        self.ops.append(["pkt", cid, "a", SEP.join([user or g.pick(["joe", "bob", "ann", "u1"]), nick, group, "login", pw])[:252], True])
        return cid

    def cast(self, n):
        l = [c for c in self.g.logged() if self.g.u(c).nick.lower() != b"admin" and not self.g.u(c).slow]
        if len(l) < n:
            return None
        return self.g.r.sample(l, n)

    def room(self):
        return self.g.pick(["den", "Loft", "cave7", "q"])

    def pw(self, cid):
        v = self.g.m.dbget(self.g.u(cid).nick, b"password")
        return v.decode("latin-1") if v is not None else "sesame"

    def maybe(self, p, f, *a):
        if self.g.p_(p):
            f(*a)

    def look(self, cid):
        self.cmd(cid, *self.g.pick([("w", ""), ("status", ""), ("w", "-g"), ("topic", "new one"), ("status", "v")]))

    # -- the stories
    def hold(self):
        """a registered moderator leaves and comes back, in time or not"""
        c = self.cast(3)
        if not c:
            return
        g, (a, b, d), r = self.g, c, self.room()
        pw, nk = self.pw(a), self.nick(a)
        self.cmd(a, "p", pw)
        self.cmd(a, "g", r)
        self.cmd(b, "g", r)
        self.maybe(.4, self.cmd, d, "g", r)
        self.maybe(.3, self.cmd, b, "away", "%s out")
        self.maybe(.3, self.cmd, a, "status", g.pick(["c", "r", "q", "i", "im 1"]))
        self.maybe(.2, self.cmd, a, "g", "foo")
        self.leave(a)
        self.maybe(.7, self.tick, 1, 60, 200, 299, 300, 301)
        k = g.r.random()
        if k < .25:
            adm = self.login("admin", r, "ci_test_pwd")
            self.cmd(adm, "pass", g.pick([self.nick(b), self.nick(d), "", "admin"]))
            self.maybe(.5, self.leave, adm)
        elif k < .5:
            self.cmd(b, *g.pick([("topic", "mine"), ("status", "p"), ("status", "v"), ("pass", self.nick(b)), ("boot", self.nick(d))]))
        elif k < .6:
            x = self.login(self.nick_other(), r)
            self.cmd(x, "name", nk)
            self.maybe(.5, self.cmd, x, "p", pw)
        a2 = self.login(g.case(nk), g.pick([r, "foo", "1"]), g.pick([pw, pw, "", "wrong"]))
        self.maybe(.4, self.cmd, a2, "p", pw)
        self.look(b)
        self.tick(1, 100, 299, 300, 301, 302, 600)
        self.say(g.pick([b, a2]))
        self.look(g.pick([a2, b]))
        self.maybe(.5, self.tick, 300, 301, 600)
        self.look(a2)

    def nick_other(self):
        free = [x for x in ("Kim", "pat", "Lou", "xena") if self.g.m.find_user(x.encode()) < 0]
        return self.g.pick(free or ["Quux"])

    def invites(self):
        """invitations of several kinds for the same person, taken back"""
        c = self.cast(3)
        if not c:
            return
        g, (a, b, d), r = self.g, c, self.room()
        nb = self.nick(b)
        ad = g.u(b).addr().decode("latin-1")
        self.cmd(a, "g", r)
        self.maybe(.2, self.cmd, b, "g", r)
        self.cmd(a, "status", "r")
        kinds = [("", nb), ("-r ", nb), ("-s ", ad), ("-rs ", ad), ("-s ", "*" + ad[2:])]
        bare = g.p_(.3)      # nobody invited but by the following
        if bare:
            self.cmd(a, "cancel", self.nick(a))
            kinds = [g.pick(kinds)]
        for _ in range(g.pick([1, 2, 2, 3])):
            f, w = g.pick(kinds)
            self.cmd(a, "invite", f + g.case(w))
        self.maybe(.6 if bare else .1, self.cmd, a, "invite", "")
        self.maybe(.4, self.cmd, b, "p", self.pw(b))
        for _ in range(g.pick([0, 1, 1, 2])):
            f, w = g.pick(kinds)
            self.cmd(a, "cancel", ("-s " if "s" in f else "") + g.case(w))
        if g.p_(.25):
            self.cmd(b, "g", r)
            self.cmd(a, "boot", nb)
        self.maybe(.3, self.cmd, b, "name", self.nick_other())
        self.maybe(.3, self.cmd, a, "status", g.pick(["m r", "p r", "c r", "m", "r"]))
        self.maybe(.3, self.cmd, a, "pass", self.nick(d))
        self.cmd(b, "g", r)
        self.cmd(g.pick([a, b]), "invite", "")
        if g.p_(.2):       # and the moderator may not care to hear of it
            x = g.pick([b, d])
            self.cmd(a, "hush", g.pick(["", "-p ", "-o ", "-o "]) + g.pick([self.nick(x), "-s " + g.u(x).addr().decode("latin-1")]))
            self.maybe(.5, self.cmd, x, "g", "1")
            self.cmd(a, "status", "r")
            self.cmd(x, "g", r)
        self.maybe(.5, self.cmd, d, "g", "@" + nb)

    def away(self):
        """somebody writes again and again to one who is away"""
        c = self.cast(3)
        if not c:
            return
        g, (a, b, d) = self.g, c
        self.cmd(a, "away", g.pick(["gone %s", "lunch %s", "%s back soon"]))
        for _ in range(g.r.randrange(3, 8)):
            k = g.r.random()
            x = g.pick([b, b, b, d])
            if k < .5:
                self.cmd(x, "m", self.nick(a) + " you there?")
            elif k < .6:
                self.cmd(x, "beep", self.nick(a))
            elif k < .65:
                self.cmd(a, "away", "gone again %s")
            elif k < .7:
                self.cmd(a, "noaway")
            elif k < .75:
                self.cmd(a, "m", self.nick(x) + " back?")
            else:
                self.tick(1, 3, 5, 6, 8, 9, 10, 11)

    def succession(self):
        """who follows a moderator"""
        c = self.cast(4)
        if not c:
            return
        g, (a, b, d, e), r = self.g, c, self.room()
        for x in (a, b, d, e)[:g.pick([3, 4])]:
            self.cmd(x, "g", r)
        if g.p_(.3):
            self.cmd(a, "g", "two")
            self.cmd(b, "g", "two")
        self.maybe(.4, self.cmd, a, "status", g.pick(["c", "r", "q", "p", "im 1", "im 2", "b 1", "b 2"]))
        for x in g.r.sample([b, d, e], 3):
            self.maybe(.8, self.tick, 1, 5, 60, 61)
            self.maybe(.8, self.say, x)
            self.maybe(.2, self.cmd, x, "away", "%s zzz")
        if g.p_(.5):
            self.leave(a)
        else:
            self.tick(59, 60, 61, 120, 121, 3601)
            self.maybe(.5, self.say, g.pick([b, d]))
            self.tick(60, 61, 121, 3601)
        self.look(b)
        self.look(d)

    def pinged(self):
        """several ask, some leave, one answers"""
        c = self.cast(3)
        if not c:
            return
        g, (a, b, d) = self.g, c
        self.cmd(a, "ping", self.nick(b))
        self.tick(0, 1, 2)
        self.maybe(.6, self.cmd, d, "ping", self.nick(b))
        self.maybe(.3, self.cmd, b, "ping", self.nick(a))
        self.tick(0, 1, 7)
        gone = g.pick([a, d, b, None])
        if gone is not None:
            self.leave(gone)
            if g.p_(.7):
                self.login(self.nick_other(), "foo")
            self.maybe(.3, self.tick, 1)
        for x in (b, a, b):
            if x != gone:
                self.ops.append(["pkt", x, "m", "", True])
                self.maybe(.3, self.tick, 1)

    def hidden(self):
        """a group hidden, shown, left and asked after"""
        c = self.cast(3)
        if not c:
            return
        g, (a, b, d), r = self.g, c, self.room()
        self.cmd(a, "g", g.pick([".", "..", ""]) + r)
        self.maybe(.4, self.cmd, d, "g", r)
        for _ in range(g.r.randrange(3, 8)):
            k = g.r.randrange(9)
            if k < 2:
                self.cmd(a, "status", g.pick(["i", "s", "v", "r", "i r", "s r", "name den2", "m"]))
            elif k == 2:
                self.cmd(a, "invite", g.pick([self.nick(b), "-r " + self.nick(b), "-s " + g.u(b).addr().decode("latin-1")]))
            elif k == 3:
                self.cmd(a, "cancel", self.nick(b))
            elif k == 4:
                self.cmd(b, "g", "@" + self.nick(a))
                self.maybe(.5, self.cmd, b, "g", "foo")
            elif k == 5:
                self.cmd(b, "notify", self.nick(g.pick([a, d])))
            elif k == 6:
                self.login(self.nick_other(), "@" + self.nick(a))
            else:
                self.cmd(b, "w", g.pick(["", "-g", "-s", r, "@" + self.nick(a), "-s " + r, "." + r]))
        self.cmd(b, "w", g.pick(["", "-g", "-s"]))
        self.maybe(.4, self.leave, g.pick([a, d]))

    def full(self):
        """a group with a limit"""
        c = self.cast(4)
        if not c:
            return
        g, (a, b, d, e), r = self.g, c, self.room()
        self.cmd(a, "g", r)
        self.cmd(a, "status", "# %d" % g.pick([1, 2, 2, 3]))
        self.maybe(.3, self.cmd, a, "status", g.pick(["l", "q", "c", "r", "p"]))
        for _ in range(g.r.randrange(4, 9)):
            x = g.pick([a, b, b, d, d, e])
            k = g.r.random()
            if k < .7:
                self.cmd(x, "g", r)
            elif k < .85:
                self.cmd(x, "g", "foo")
            elif k < .9:
                self.cmd(g.pick([a, b, d]), "away", "%s a")
            else:
                self.cmd(a, "status", "# %d" % g.pick([0, 1, 2, 3]))

    def thrown(self):
        """the place where the booted go may be full or closed, and the group they leave may die"""
        c = self.cast(4)
        if not c:
            return
        g, (a, b, d, e), r = self.g, c, self.room()
        pit = "~RESEDA~"
        if g.p_(.6):
            self.cmd(e, "g", pit)
            self.cmd(e, "status", g.pick(["# 1", "# 1", "# 2", "r", "r # 1", "c", "m"]))
        self.cmd(a, "g", r)
        lone = g.p_(.35)
        if not lone:
            self.cmd(b, "g", r)
        self.cmd(a, "status", g.pick(["r", "r", "r", "# 2", "r q", "c", "i"]))
        self.maybe(.2, self.cmd, a, "topic", "old business")
        for _ in range(g.pick([1, 1, 2])):
            self.cmd(a, "boot", self.nick(a if lone else b))
            self.maybe(.7, self.cmd, g.pick([b, d]), "g", r)
        self.cmd(d, "g", r)
        self.maybe(.3, self.cmd, b, "g", r)
        self.maybe(.4, self.cmd, d, "status", "")
        self.maybe(.3, self.cmd, d, "w", ".")
        self.maybe(.3, self.cmd, e, "status", "p")
        self.maybe(.3, self.cmd, a, "g", r)

    def floor(self):
        """who may speak"""
        c = self.cast(3)
        if not c:
            return
        g, (a, b, d), r = self.g, c, self.room()
        nb = self.nick(b)
        for x in (a, b, d):
            self.cmd(x, "g", r)
        self.cmd(a, "status", "c")
        for _ in range(g.r.randrange(4, 10)):
            k = g.r.randrange(9)
            if k == 0:
                self.cmd(a, "talk", g.pick(["", "-a ", "-r ", "-ar ", "-d ", "-q "]) + g.case(self.nick(g.pick([b, d]))))
            elif k == 1:
                self.cmd(b, "p", self.pw(b))
            elif k == 2:
                self.cmd(a, "status", g.pick(["c", "q", "n", "m", "p", "c n"]))
            elif k == 3:
                self.cmd(b, "name", g.pick([self.nick_other(), nb]))
            elif k == 4:
                self.cmd(b, "exclude", self.nick(d) + " psst")
            elif k == 5:
                self.cmd(a, "talk", g.pick(["-a ", "-ar "]) + nb)
            else:
                self.say(g.pick([b, b, d, a]))
        self.say(b)

    def sleepers(self):
        """idle limits"""
        c = self.cast(3)
        if not c:
            return
        g, (a, b, d), r = self.g, c, self.room()
        n = g.pick([1, 2, 5])
        for x in (a, b, d):
            self.cmd(x, "g", r)
        self.cmd(a, "status", "b %d" % n)
        self.maybe(.3, self.cmd, a, "status", "idlebootmsg %s dozed off")
        for _ in range(g.r.randrange(3, 7)):
            k = g.r.random()
            x = g.pick([a, b, d])
            if k < .45:
                self.tick(n * 60 - 1, n * 60, n * 60 + 1, 30, n * 30)
            elif k < .6:
                self.say(x)
            elif k < .7:
                self.cmd(x, "g", g.pick([r, "foo", "~IDLE~"]))
            elif k < .8:
                self.cmd(a, "status", g.pick(["b 0", "b 1", "b %d" % n, "b 5", "im 1", "q", "p"]))
            elif k < .9:
                self.ops.append(["pkt", x, g.pick(["m", "n", "l"]), "", True])
            else:
                self.cmd(x, "away", "z %s")
        self.cmd(g.pick([a, b, d]), "w", "")

    def watched(self):
        """somebody is watched by name and by address"""
        c = self.cast(2)
        if not c:
            return
        g, (a, b) = self.g, c
        nk = self.nick_other()
        us, ad = "eve", g.addr([5, 6], False)
        for w in g.r.sample([nk, nk.upper(), "-s eve@*", "-s *@h*", "-s EVE@*", nk[:1] + "*", self.nick(b)], g.pick([1, 2, 3])):
            self.cmd(a, "notify", w)
        for _ in range(g.pick([1, 2])):
            x = self.login(nk, g.pick(["foo", "..inv", ".sec", r"1"]), user=us, addr=ad)
            for _ in range(g.r.randrange(0, 3)):
                k = g.r.randrange(5)
                if k == 0:
                    self.cmd(x, "g", g.pick(["..inv", "foo", ".sec"]))
                elif k == 1:
                    self.cmd(x, "name", g.pick([nk, "Zoe7"]))
                elif k == 2:
                    self.cmd(a, "notify", nk)
                elif k == 3:
                    self.cmd(a, "g", g.pick(["..inv", "foo"]))
                else:
                    self.cmd(x, "status", g.pick(["i", "v", "s"]))
            self.leave(x)

    def hushed(self):
        """somebody is silenced in part"""
        c = self.cast(3)
        if not c:
            return
        g, (a, b, d), r = self.g, c, self.room()
        for x in (a, b, d):
            self.cmd(x, "g", r)
        ad = g.u(b).addr().decode("latin-1")
        for _ in range(g.r.randrange(5, 11)):
            k = g.r.randrange(8)
            if k < 2:
                self.cmd(a, "hush", g.pick(["", "-p ", "-o ", "-q ", "-po "]) + g.pick([self.nick(b), "-s " + ad, self.nick(b)[:1] + "*", "-s *" + ad[-6:]]))
            elif k == 2:
                self.say(b)
            elif k == 3:
                self.cmd(b, "m", self.nick(a) + " psst")
            elif k == 4:
                self.cmd(b, "exclude", self.nick(d) + " he hears not")
            elif k == 5:
                self.cmd(b, "name", g.pick([self.nick_other(), self.nick(b)]))
            elif k == 6:
                self.cmd(b, g.pick(["beep", "ping"]), self.nick(a))
            else:
                self.cmd(d, "m", self.nick(a) + " and me?")
        self.cmd(a, "whereis", "")

    def proofs(self):
        """a nickname on file, and people who say it is theirs"""
        c = self.cast(2)
        if not c:
            return
        g, (a, b) = self.g, c
        nk, pw = self.nick(a), self.pw(a)
        self.cmd(a, "p", pw)
        self.maybe(.4, self.cmd, a, g.pick(["secure", "nosecure"]))
        if g.p_(.3):
            n2 = g.pick([pw + "2", pw.upper(), pw[:-1] or "x"])
            self.cmd(a, "cp", g.pick([pw, pw, pw + "x", pw.swapcase()]) + " " + n2)
            pw = g.pick([pw, n2])
        self.maybe(.3, self.cmd, b, "write", nk + " hello")
        self.maybe(.2, self.cmd, a, "delete", pw)
        us = g.u(a).id.decode("latin-1")
        ad = self.home(a)
        if g.p_(.3):
            self.cmd(a, "name", self.nick_other())
            x = b
            self.cmd(x, "name", g.case(nk))
        else:
            self.leave(a)
            x = self.login(g.case(nk), "foo", g.pick(["", pw, pw.swapcase(), "no"]), user=g.pick([us, us, "eve"]), addr=g.pick([ad, ad, [1, 7]] + ([[ad[0], ad[1] + 230]] * 2 if 5 <= ad[1] <= 8 else [])))
        for _ in range(g.r.randrange(2, 6)):
            self.cmd(x, *g.pick([("p", pw), ("p", pw.swapcase()), ("p", "bad"), ("read", ""), ("secure", ""), ("nosecure", ""), ("delete", pw), ("delete", "bad"), ("phone", "555"),
                                 ("cp", pw + " new"), ("cp", "bad new"), ("cp", " new"), ("write", nk + " me"), ("whois", nk)]))
        self.cmd(b, "whois", nk)


NAMES = [k for k in dir(Tales) if k in ("hold", "invites", "away", "succession", "pinged", "hidden", "full", "floor", "sleepers", "watched", "hushed", "proofs", "thrown")]


ASIDES = [("away", "%s brb"), ("away", "%s brb"), ("noaway", ""), ("echoback", "on"), ("echoback", "verbose"), ("nobeep", "on"), ("nobeep", "verbose"), ("status", "q"), ("status", "n"),
          ("status", "l"), ("status", "v"), ("status", "i"), ("status", "s"), ("status", "p"), ("status", "m"), ("pass", ""), ("beep", "bob"), ("w", "")]


def tell(g, name):
    t = Tales(g)
    getattr(t, name)()
    ops = t.ops
    if ops:
        who = sorted({o[1] for o in ops if o[0] == "pkt" and o[2] != "a"})
        for _ in range(g.pick([0, 0, 1, 1, 2])):
            x = g.pick(who)
            at = [i for i, o in enumerate(ops) if o[0] == "pkt" and o[1] == x]
            c, a = g.pick(ASIDES)
            ops.insert(g.pick(at) + 1, ["pkt", x, "h", c + SEP + a, True])
    return ops
