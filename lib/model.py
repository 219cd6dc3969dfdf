"""Reference model of the ICB server: predicts every frame every client receives.

Written from the documentation and the observable behaviour of the server; it is
a plain state machine over users, groups and the nickname database.  All text is
bytes.  One model object stands for one server process life (the `db` dict may be
carried over a restart).
"""
import time as _time

SRV = 254
MAX_REAL = 254
MAX_GROUPS = 300
PUBLIC, MODERATED, RESTRICTED, CONTROLLED = 1, 2, 3, 4
VISIBLE, SECRET, SUPERSECRET = 1, 2, 3
QUIET, NORMAL, LOUD = 1, 2, 3
CTL = {PUBLIC: b"Public", MODERATED: b"Moderated", RESTRICTED: b"Restricted", CONTROLLED: b"Controlled"}
VIS = {VISIBLE: b"Visible", SECRET: b"Secret", SUPERSECRET: b"Invisible"}
VOL = {QUIET: b"Quiet", NORMAL: b"Normal", LOUD: b"Loud"}
BOOT_GROUP = b"~RESEDA~"
IDLE_GROUP = b"~IDLE~"
ADMIN_PWD = b"ci_test_pwd"
VERSION = b"ICB Server v1.3.0"
LOGIN_FALSE, LOGIN_PENDING, LOGIN_COMPLETE = 0, 1, 2


# ---------------------------------------------------------------- text helpers
def lower(s):
    return s.lower()          # bytes.lower() is ASCII only


def upper(s):
    return s.upper()


def caseeq(a, b):
    return a.lower() == b.lower()


def getword(s):
    i = 0
    while i < len(s) and i < 63 and s[i] not in b" \t":
        i += 1
    return s[:i]


def get_tail(s):
    i = 0
    while i < len(s) and s[i] not in b" \t":
        i += 1
    while i < len(s) and s[i] in b" \t":
        i += 1
    return s[i:]


def atoi(s):
    i = 0
    while i < len(s) and s[i] in b" \t\n\v\f\r":
        i += 1
    sign = 1
    if i < len(s) and s[i] in b"+-":
        sign = -1 if s[i] == 45 else 1
        i += 1
    v = 0
    while i < len(s) and 48 <= s[i] <= 57:
        v = v * 10 + s[i] - 48
        i += 1
    return sign * v


def utf8_next(s, i, limit):
    """decode one step at s[i]; returns (kind, nbytes): kind ok/bad/short.
    bad: number of bytes consumed before the '?' (the offending byte is re-examined
    unless it was itself the first byte)."""
    b = s[i]
    if b < 0x80:
        return "ok", 1
    if 0xC2 <= b <= 0xDF:
        need, lo, hi = 1, 0x80, 0xBF
    elif b == 0xE0:
        need, lo, hi = 2, 0xA0, 0xBF
    elif b == 0xED:
        need, lo, hi = 2, 0x80, 0x9F
    elif 0xE1 <= b <= 0xEF:
        need, lo, hi = 2, 0x80, 0xBF
    elif b == 0xF0:
        need, lo, hi = 3, 0x90, 0xBF
    elif b == 0xF4:
        need, lo, hi = 3, 0x80, 0x8F
    elif 0xF1 <= b <= 0xF3:
        need, lo, hi = 3, 0x80, 0xBF
    else:
        return "bad", 1
    for k in range(1, need + 1):
        j = i + k
        if j >= len(s) or j >= limit:
            return "short", k
        if not (lo <= s[j] <= hi):
            return "bad", k
        lo, hi = 0x80, 0xBF
    return "ok", need + 1


def filtertext(s, limit):
    """what a client gets to see of text s in a field of `limit` bytes"""
    out = bytearray()
    i = 0
    while i < len(s) and i < limit:
        kind, n = utf8_next(s, i, limit)
        if kind == "ok":
            if n > 1 or s[i] >= 0x20:
                out += s[i:i + n]
            i += n
        elif kind == "bad":
            out.append(63)
            i += n
        else:
            break
    return bytes(out)


def wildmat(text, pat):
    """shell-style match of the whole text"""
    toks, pi = [], 0        # None: any run; else the ranges of signed bytes that match and whether to negate
    while pi < len(pat):
        c = pat[pi]
        if c == 42:  # *
            toks.append(None)
        elif c == 92:  # backslash
            pi += 1
            toks.append(([(_sc(pat[pi]),) * 2] if pi < len(pat) else [], False))
        elif c == 63:
            toks.append(([], True))
        elif c == 91:  # [
            pi += 1
            neg = pi < len(pat) and pat[pi] == 94
            if neg:
                pi += 1
            members, pi = _cls(pat, pi)
            if pi is None:      # never matches
                toks.append(([], False))
                break
            toks.append((members, neg))
        else:
            toks.append(([(_sc(c),) * 2], False))
        pi += 1
    ti = k = 0
    star = None             # where to go on when the last run must be longer
    while True:
        if k < len(toks) and toks[k] is None:
            k += 1
            star = ti, k
            continue
        if k == len(toks) and (ti == len(text) or k and toks[-1] is None):
            return True
        if k < len(toks) and ti < len(text) and any(lo <= _sc(text[ti]) <= hi for lo, hi in toks[k][0]) != toks[k][1]:
            ti += 1
            k += 1
            continue
        if star is None or star[0] >= len(text):
            return False
        star = star[0] + 1, star[1]
        ti, k = star


def _sc(b):
    return b - 256 if b > 127 else b


def _cls(p, i):
    """members of a character class starting after [ or [^; returns (ranges, index of ])"""
    m = []
    first = True
    last = None
    while True:
        if i >= len(p):
            return m, None
        c = p[i]
        if c == 93 and not first:
            return m, i
        if c == 45 and not first and i + 1 < len(p) and p[i + 1] != 93:
            i += 1
            m.append((last, _sc(p[i])))
            last = _sc(p[i])
        else:
            m.append((_sc(c), _sc(c)))
            last = _sc(c)
        first = False
        i += 1


NICKOK = b"-.!'$+,/?_@"
GROUPOK = b"-.!'$+,/?_~"


def _fname(s, ok):
    out = bytearray()
    for c in s:
        if 65 <= c <= 90 or 97 <= c <= 122 or 48 <= c <= 57 or c in ok:
            out.append(c)
        elif c == 32:
            out.append(95)
        else:
            out.append(63)
    return bytes(out)


def filternick(s):
    return _fname(s, NICKOK)


def filtergroup(s):
    return _fname(s, GROUPOK)


FMT_BAD = b"Message can't include %d, %f and such. Use %% to quote a single %."
FMT_ONE = b"Message must contain (only) 1 %s for the username."


def filterfmt(s):
    """(error or None, number of %s or -1)"""
    ns = bad = 0
    i = s.find(b"%")
    while i >= 0:
        i += 1
        if s[i:i + 1] == b"s":
            ns += 1
        elif s[i:i + 1] == b"%":
            i += 1
        else:
            bad += 1
        i = s.find(b"%", i)
    if bad:
        return FMT_BAD, -1
    if ns != 1:
        return FMT_ONE, ns
    return None, 1


def cfmt(fmt, name):
    """printf(fmt, name) for a fmt that filterfmt accepts"""
    return fmt.replace(b"%%", b"\0").replace(b"%s", name).replace(b"\0", b"%")


class NL:
    """bounded most-recent-first list of names"""

    def __init__(self, mx):
        self.l = []
        self.max = mx

    def put(self, s):
        for i, x in enumerate(self.l):
            if caseeq(x, s):
                self.l.insert(0, self.l.pop(i))
                return
        if len(self.l) >= self.max:
            self.l.pop()
        self.l.insert(0, s)

    def delete(self, s):
        for i, x in enumerate(self.l):
            if caseeq(x, s):
                del self.l[i]
                return True
        return False

    def present(self, s):
        return any(caseeq(x, s) for x in self.l)

    def match(self, s):
        return any(wildmat(s, x) for x in self.l)

    def clear(self):
        self.l = []

    def __len__(self):
        return len(self.l)

    def __iter__(self):
        return iter(list(self.l))


class User:
    def __init__(self):
        self.node = b""
        self.ip = b""
        self.secure = 0
        self.clear()

    def clear(self):
        self.id = self.node = self.nick = self.pw = self.group = self.away = b""
        self.reg = False
        self.lastaway = 0
        self.lastawaytime = 0
        self.login = LOGIN_FALSE
        self.echo = 0
        self.nobeep = 0
        self.slow = False
        self.t_on = self.t_recv = self.t_group = 0
        self.secure = 0
        self.pri_n, self.pub_n, self.pri_s, self.pub_s = NL(32), NL(32), NL(32), NL(32)
        self.n_not, self.s_not = NL(40), NL(40)
        self.kill = 0
        self.lpriv = -1
        self.pong = -1
        self.pingt = (0, 0)

    def addr(self):
        return self.id + b"@" + self.node


class Group:
    def __init__(self):
        self.clear()

    def clear(self):
        self.name = self.topic = self.missing = b""
        self.vis, self.ctl, self.vol = VISIBLE, PUBLIC, LOUD
        self.mod = -1
        self.modtimeout = 0
        self.inv_n, self.inv_nr, self.inv_s, self.inv_sr = NL(50), NL(50), NL(50), NL(50)
        self.talk_n, self.talk_nr = NL(50), NL(50)
        self.size = 0
        self.idleboot = 3600
        self.idlemsg = b""
        self.idlemod = 3600


COMMANDS = ("drop shutdown wall beep cancel g invite pass boot status topic motd m echoback name v w whereis "
            "restart news hush shush s_help exclude shuttime notify talk ping nobeep away noaway log stats").split()
AUTO = "read whois p rname write text addr phone delete info help ? cp email secure nosecure www".split()
UNHANDLED = {b"c": b"PERSONAL", b"d": b"STATUS", b"e": b"ERROR", b"f": b"IMPORTANT", b"g": b"EXIT", b"i": b"CMDOUT",
             b"j": b"PROTO", b"k": b"BEEP", b"l": b"PING"}


class ModelGap(Exception):
    """an input the model deliberately does not cover; the case is discarded"""


class ModelBase:
    def __init__(self, now, host, files=None, db=None):
        self.now = now
        self.usec = 0
        self.host = host
        self.files = dict(files or {})
        self.db = {} if db is None else db
        self.dblog = []         # changes of the records
        self.u = {}
        self.order = []            # connected slots in connect order
        self.closing = set()       # slots whose disconnect was requested, lost on next pass
        self.g = {}
        self.F = [b""] * 20
        self.out = []              # (slot, frame)
        self.logev = []            # log file closed (0), opened (1)
        self.log = []              # what the log is to tell of
        self.events = set()        # non-triviality tags for the evidence
        self.recv_count = {}
        self.stats = dict(signons=0, boots=0, drops=0, idleboots=0, idlemods=0, msgs=0)
        self.die = -1
        self.notify = 0
        self.booting = 0
        self.dead = False          # scheduled shutdown happened
        self.started = now
        s = User()
        s.id, s.node, s.nick, s.group = b"server", host, b"Server", b"ICB"
        s.login = LOGIN_COMPLETE
        s.nobeep = 1
        s.reg = True
        s.t_on = s.t_recv = now
        self.u[SRV] = s
        g = Group()
        g.name, g.topic = b"ICB", b"...here to serve you!"
        g.vis, g.ctl, g.vol, g.mod = SUPERSECRET, RESTRICTED, QUIET, SRV
        self.g[0] = g
        self.nickwritetime(SRV, 0)

    # ------------------------------------------------------------ tables
    def slots(self):
        return sorted(self.u)

    def real(self):
        return [n for n in sorted(self.u) if n < MAX_REAL]

    def find_user(self, name):
        if not name:
            return -1
        ln = name.lower()
        for n in self.slots():
            if self.u[n].nick.lower() == ln:
                return n
        return -1

    def find_group(self, name):
        if not name:
            return -1
        ln = name.lower()
        for i in sorted(self.g):
            if self.g[i].name.lower() == ln:
                return i
        return -1

    def gof(self, n):
        """index of n's group (must exist for a logged in user)"""
        gi = self.find_group(self.u[n].group)
        if gi < 0:
            raise ModelGap("user in no group")
        return gi

    def groups(self):
        return sorted(self.g)

    def new_group(self):
        for i in range(MAX_GROUPS):
            if i not in self.g:
                return i
        return -1

    def count_in(self, name):
        if not name:
            return 0
        return sum(1 for n in self.slots() if caseeq(self.u[n].group, name))

    def members(self, name):
        return [n for n in self.real() if caseeq(self.u[n].group, name)]

    # ------------------------------------------------------------ output
    def dosend(self, frm, to, frame):
        frame = frame[:254]
        if to < 0:
            return
        if to >= MAX_REAL:
            t = frame[:1]
            if t == b"k":
                self.autobeep(frm)
            elif t == b"c":
                text = frame.split(b"\x01")[1]
                line = (getword(text) + b"\x01" + get_tail(text))[:251]
                self.split(b" " + frame)
                self.cmdmsg(frm, line)
            return
        if to not in self.u or self.u[to].kill > 0 or to in self.closing:
            return
        self.out.append((to, frame))

    def error(self, to, msg):
        self.dosend(-1, to, b"e" + filtertext(msg, 253))

    def status(self, to, name, msg):
        self.dosend(-1, to, b"d" + filtertext(name, 20) + b"\x01" + filtertext(msg, 232))

    def important(self, to, name, msg):
        self.dosend(-1, to, b"f" + filtertext(name, 20) + b"\x01" + filtertext(msg, 232))

    def cmdout(self, to, msg):
        self.dosend(-1, to, b"ico\x01" + filtertext(msg, 250))

    def person_raw(self, to, nick, msg, frm=-1):
        self.dosend(frm, to, b"c" + filtertext(nick, 12) + b"\x01" + filtertext(msg, 240))

    def sendopen(self, frm, to, msg):
        self.dosend(frm, to, b"b" + filtertext(self.u[frm].nick, 12) + b"\x01" + filtertext(msg, 240))

    def sendperson(self, frm, to, msg):
        f = self.u[frm]
        t = self.u[to]
        if t.pri_s.match(upper(f.addr())) or t.pri_n.match(upper(f.nick)):
            self.events.add("bounce")
            self.status(frm, b"Bounce", b"Message did not go through")
        else:
            t.lpriv = frm
            self.person_raw(to, f.nick, msg, frm)

    def sendbeep(self, frm, to):
        nb = self.u[to].nobeep
        if nb:
            self.events.add("nobeep")
            self.error(frm, b"User has nobeep enabled.")
            if nb == 2:
                self.status(to, b"No-Beep", self.u[frm].nick + b" attempted (and failed) to beep you")
            return
        self.events.add("beep")
        self.dosend(frm, to, b"k" + self.u[frm].nick)

    def autobeep(self, to):
        self.sendperson(SRV, to, b"Beep yerself!")
        self.u[SRV].t_recv = self.now

    def gstatus_user(self, n, tellme, cls, msg):
        """to everyone in user n's group"""
        for i in self.members(self.u[n].group):
            if tellme or i != n:
                self.status(i, cls, msg)

    def gstatus_group(self, gi, cls, msg):
        for i in self.members(self.g[gi].name):
            self.status(i, cls, msg)

    # ------------------------------------------------------------ input
    def split(self, s):
        self.F = [b""] * 20
        parts = s.split(b"\x01", 19)
        if len(parts) == 20:
            # a twentieth delimiter is left alone
            pass
        for i, p in enumerate(parts):
            self.F[i] = p
        return len(parts)

    def take(self):
        o, self.out = self.out, []
        return o

    def connect(self, n, node, ip, secure=0):
        u = User()
        u.node, u.ip, u.secure = node, ip, secure
        self.u[n] = u
        self.order.append(n)
        self.log.append((b"CONNECT (SSL)" if secure else b"CONNECT", node))
        self.dosend(-1, n, b"j1\x01" + self.host + b"\x01" + VERSION)

    def packet(self, n, body):
        """body: everything after the length byte, up to the first NUL"""
        i = body.find(b"\0")
        if i >= 0:
            body = body[:i]
        t = body[:1]
        p = body[1:]
        if n in self.closing:
            return
        if t == b"a":
            if self.loginmsg(n, p) < 0:
                self.events.add("login_failed")
                self.dosend(-1, n, b"g")
                self.lost_user(n)
                self.u[n] = User()
                self.u[n].kill = 1
        elif t == b"b":
            self.openmsg(n, p)
        elif t == b"h":
            self.cmdmsg(n, p)
        elif t == b"m":
            self.pongmsg(n)
        elif t == b"n":
            pass
        elif t in UNHANDLED:
            self.error(n, b"Server doesn't handle ICB_M_%s packets" % UNHANDLED[t])
        else:
            self.error(n, b"%d: Invalid packet type \"%s\" (%s)" % (n, t if t else b"\0", body))

    # ------------------------------------------------------------ open messages
    def may_talk(self, n, g):
        u = self.u[n]
        if g.ctl != CONTROLLED or g.mod == n:
            return True
        return g.talk_n.present(u.nick) or (u.reg and g.talk_nr.present(u.nick))

    def pub_ok(self, frm, to):
        f, t = self.u[frm], self.u[to]
        return not (t.pub_s.match(upper(f.addr())) or t.pub_n.match(upper(f.nick)))

    def openmsg(self, n, p):
        u = self.u[n]
        if u.login < LOGIN_COMPLETE:
            return
        if u.away:
            self.status(n, b"Away", b"Your away is still set...")
        if u.group == b"1":
            self.recv_count[n] = self.recv_count.get(n, 0) + 1
            if u.t_recv == self.now:
                if self.recv_count[n] > 2:
                    self.events.add("spamboot")
                    self.status(n, b"Boot", b"No spamming in group 1.")
                    self.gstatus_user(n, 1, b"Boot", u.nick + b" was auto-booted for spamming.")
                    self.F[1] = b"ICB"
                    self.booting = 1
                    self.s_change(n, 2)
                    self.booting = 0
            else:
                self.recv_count[n] = 0
        u.t_recv = self.now
        if self.split(p) != 1:
            return
        g = self.g[self.gof(n)]
        if g.vol == QUIET:
            self.events.add("quiet_open")
            self.error(n, b"Open messages not permitted in quiet groups.")
        elif not self.may_talk(n, g):
            self.events.add("controlled_refused")
            self.error(n, b"You do not have permission to send open messages in this group.")
            if g.mod >= 0:
                self.status(n, b"INFO", b"Use \"/m %s may i talk?\" to request permission." % self.u[g.mod].nick)
        elif self.count_in(g.name) < 2:
            self.error(n, b"No one else in group!")
        else:
            if g.ctl == CONTROLLED:
                self.events.add("controlled_ok")
            self.events.add("open")
            for i in self.members(u.group):
                if i != n or u.echo:
                    if self.u[i].login == LOGIN_COMPLETE:
                        if self.pub_ok(n, i):
                            self.sendopen(n, i, self.F[0])
                        else:
                            self.events.add("pub_hushed")

    # ------------------------------------------------------------ login
    def perms(self, n, login):
        f = self.files.get("icbd.perms")
        if f is None:
            return set()
        u = self.u[n]
        for line in f.split(b"\n"):
            if line[:1] in (b"", b"\t", b"#"):
                continue
            w = [x for x in line.replace(b"\t", b" ").split(b" ") if x]
            if len(w) < 4:
                continue
            typ, a1, a2, pr = w[:4]
            hit = False
            if caseeq(typ, b"user"):
                hit = caseeq(a1, login) and caseeq(a2, u.node)
            elif caseeq(typ, b"mask"):
                def ip(x):
                    q = [int(y) for y in x.split(b".")]
                    return q[0] << 24 | q[1] << 16 | q[2] << 8 | q[3]
                v4 = u.ip.replace(b"::ffff:", b"")
                hit = b":" not in v4 and ip(v4) & ip(a2) == ip(a1)
            if hit:
                return {x.lower() for x in pr.split(b"|")} & {b"perm_deny", b"perm_slowmsgs"}
        return set()

    def denied(self, one):
        """reason text if the deny file refuses UPPER(login@host)"""
        f = self.files.get("icbd.deny")
        if f is None:
            return None
        i = 0
        word = b""
        while i < len(f):
            c = f[i:i + 1]
            i += 1
            if c in b" \t\n\v\f\r":
                if wildmat(one, upper(word)):
                    e = f.find(b"\n", i)
                    return f[i:len(f) if e < 0 else e][:254]
                word = b""
            elif len(word) < 254:
                word += c
        return None

    def loginmsg(self, n, p):
        u = self.u[n]
        if u.login > LOGIN_FALSE:
            self.error(n, b"Already logged in.")
            return 1
        nf = self.split(p)
        if nf < 4:
            return -1
        F = self.F
        which = F[2][:15] if F[2] else b"1"
        typ = F[3]
        if caseeq(typ, b"w") or caseeq(typ, b"wg"):
            self.events.add("login_who")
            F[1] = F[2] if caseeq(typ, b"wg") else b""
            F[0] = b"w"
            self.s_who(n, 2)
            return -1
        if not caseeq(typ, b"login"):
            self.error(n, b"Unknown login type \"" + typ + b"\"")
            return -1
        F[1] = filternick(F[1])
        nick, loginid, pw = F[1], F[0], F[4]
        if self.find_user(nick) >= 0:
            self.events.add("nick_taken")
            self.error(n, b"Nickname already in use.")
            return -1
        if not 1 <= len(nick) <= 12:
            self.error(n, b"Nickname must be between 1 and 12 characters.")
            return -1
        if not 1 <= len(loginid) <= 12:
            self.error(n, b"Login id must be between 1 and 12 characters.")
            return -1
        if not loginid.isalnum():
            self.error(n, b"Login id must contain only alphanumeric characters.")
            return -1
        pr = self.perms(n, loginid)
        if b"perm_deny" in pr:
            self.events.add("perm_denied")
            self.error(n, b"Login denied.")
            return -1
        if pr:
            self.status(n, b"Permissions", b"slowmsgs")
        one = upper(loginid + b"@" + u.node)
        why = self.denied(one)
        if why is not None:
            self.events.add("deny_file")
            self.log.append((b"REFUSED", one))
            self.error(n, b"Login refused for " + one)
            self.error(n, b"Reason: " + why)
            return -1
        u.id, u.nick, u.pw, u.group, u.away = loginid, nick, pw[:12], b"", b""
        u.login, u.echo, u.nobeep, u.slow = LOGIN_FALSE, 0, 0, bool(pr)
        self.log.append((b"LOGIN", u.addr()))
        if caseeq(nick, b"admin") and not self.check_auth(n):
            self.events.add("admin_nick_refused")
            self.error(n, b"Nickname already in use.")
            return -1
        self.dosend(-1, n, b"a")
        self.s_motd(n, 2)
        if which[:1] == b"@":
            t = self.find_user(which[1:])
            gi = self.find_group(self.u[t].group) if t >= 0 else -1
            if t < 0 or gi < 0 or (self.g[gi].vis != VISIBLE and u.nick != b"ADMIN"):
                self.events.add("login_at_refused")
                self.error(n, b"User not found or is in a secret or invisible group.")
                return -1
            which = self.u[t].group
            self.events.add("login_at")
        u.login = LOGIN_PENDING
        u.t_on = u.t_recv = self.now
        for l in (u.pri_n, u.pub_n, u.pri_s, u.pub_s, u.n_not, u.s_not):
            l.clear()
        self.cmdout(n, b"Welcome to ICB " + u.nick)
        ret = self.nick_auth_state(n)
        if ret == -2:
            if u.pw and self.nickwrite(n, u.pw, True) == 0:
                ret = 0
            if ret != 0:
                self.status(n, b"Register", b"Send password to authenticate your nickname.")
                j = 0
                for gi in self.groups():
                    if self.g[gi].missing and caseeq(u.nick, self.g[gi].missing):
                        self.status(n, b"Mod", b"You are moderator of group " + self.g[gi].name)
                        j += 1
                if j:
                    self.events.add("mod_pending")
                    self.status(n, b"Mod", b"You must register using /p <password> to regain mod of the above group"
                                + (b"s." if j > 1 else b"."))
        if ret == 0:
            if not u.reg:
                self.become_registered(n)
        elif ret != -2:
            self.status(n, b"No-Pass", b"Your nickname does not have a password.")
            self.status(n, b"No-Pass", b"For help type /m server ?")
        one = upper(u.addr())
        for gi in self.groups():
            if self.invited(n, self.g[gi]):
                self.events.add("login_invited")
                self.cmdout(n, b"Invited to: " + self.g[gi].name)
        if not u.reg:
            for gi in self.groups():
                self.talk_report(n, gi)
        self.F[1] = which
        if self.s_change(n, 3) < 0:
            return -1
        u.login = LOGIN_COMPLETE
        self.stats["signons"] += 1
        vis = self.g[self.gof(n)].vis
        for j in self.slots():
            v = self.u[j]
            if j != n and v.login >= LOGIN_COMPLETE and vis != SUPERSECRET:
                if v.n_not.match(upper(u.nick)) or v.s_not.match(one):
                    self.events.add("notify_on")
                    self.status(j, b"Notify-On", u.nick + b" (" + one + b") has just signed on")
        return 0

    def become_registered(self, n):
        u = self.u[n]
        u.reg = True
        self.events.add("registered")
        self.status(n, b"Register", b"Nick registered")
        self.nickwritetime(n, 0)
        self.regain_mods(n)
        k = self.nickckmsg(n)
        if k == 1:
            self.status(n, b"Message", b"You have 1 message")
        elif k > 1:
            self.status(n, b"Message", b"You have %d messages" % k)

    def regain_mods(self, n):
        u = self.u[n]
        for gi in self.groups():
            g = self.g[gi]
            if gi >= 1 and g.modtimeout > 0 and caseeq(g.missing, u.nick):
                self.events.add("mod_regained")
                g.modtimeout = 0
                g.mod = n
                g.missing = b""
                for j in self.members(g.name):
                    if j != n:
                        self.status(j, b"Mod", u.nick + b" is the active moderator again.")
                self.status(n, b"Mod", b"You are the moderator of group " + g.name)

    def invited(self, n, g):
        u = self.u[n]
        a = upper(u.addr())
        return (g.inv_n.present(u.nick) or g.inv_s.match(a) or
                (u.reg and (g.inv_nr.present(u.nick) or g.inv_sr.match(a))))

    def cmdmsg(self, n, p):
        u = self.u[n]
        if u.login < LOGIN_COMPLETE:
            return
        u.t_recv = self.now
        argc = self.split(p)
        c = self.F[0].lower().decode("latin-1")
        if c in COMMANDS:
            getattr(self, "s_" + {"g": "change", "m": "personal", "v": "version", "w": "who", "whereis": "info",
                                  "shush": "hush", "s_help": "help", "stats": "server_stats"}.get(c, c))(n, argc)
        elif c in AUTO:
            self.s_auto(n)
        else:
            self.status(n, b"Server", b"Unknown command")

    def pongmsg(self, n):
        u = self.u[n]
        if u.login < LOGIN_COMPLETE:
            return
        if u.pong != -1:
            d = (self.now - u.pingt[0]) * 1000000 + self.usec - u.pingt[1]
            self.events.add("pong")
            self.status(u.pong, b"PONG", u.nick + b" client responded in %d.%02d seconds." % (d // 1000000, d % 1000000 // 10000))
            u.pong = -1
        else:
            self.status(n, b"PONG", b"You were pinged, but they aren't there to receive your pong.")

    # ------------------------------------------------------------ groups
    def flags(self, s, allowed, usage, n):
        """-x flags at the front; returns (set, rest) or None after complaining"""
        seen = {}
        while s[:1] == b"-":
            w = getword(s)
            for ch in w[1:].decode("latin-1"):
                kind = allowed.get(ch)
                if kind is None or kind in seen:
                    self.error(n, usage)
                    return None
                seen[kind] = ch
            s = get_tail(s)
        return seen, s

    def s_cancel(self, n, argc):
        if argc != 2:
            return
        g = self.g[self.gof(n)]
        r = self.flags(self.F[1], {"q": "q", "s": "mode", "n": "mode"},
                       b"Usage: cancel {-q} {-n nickname | -s address}", n)
        if r is None:
            return
        fl, who = r
        site = fl.get("mode") == "s"
        if site:
            who = upper(who)
        if g.ctl == RESTRICTED and g.mod == n:
            a, b = (g.inv_s, g.inv_sr) if site else (g.inv_n, g.inv_nr)
            if any([a.delete(who), b.delete(who)]):
                self.events.add("cancel")
                if "q" not in fl:
                    self.status(n, b"FYI", who + b" cancelled")
                if not site and self.find_user(who) < 0:
                    self.status(n, b"Warning", who + b" is not signed on")
            else:
                self.status(n, b"Warning", who + b" was not invited")
        else:
            if g.ctl != RESTRICTED:
                self.error(n, b"The group isn't restricted.")
            if g.mod != n:
                self.events.add("not_mod")
                self.error(n, b"You aren't the moderator.")

    def probe(self, n, g, msg):
        if g.mod > 0 and g.vol == LOUD:
            u, m = self.u[n], self.u[g.mod]
            if not m.pri_s.match(upper(u.addr())) and not m.pri_n.match(upper(u.nick)):
                self.status(g.mod, b"Probe", u.nick + msg)
                m.lpriv = n

    def s_change(self, n, argc):
        logging_in = argc == 3
        if argc == 3:
            argc = 2
        if argc != 2:
            return -1
        u = self.u[n]
        name = self.F[1]
        if name[:1] == b"@":
            t = self.find_user(name[1:])
            if t >= 0 and self.u[t].group and self.g[self.gof(t)].vis == VISIBLE:
                self.events.add("change_at")
                self.F[1] = self.u[t].group
                return self.s_change(n, argc)
            if t >= 0 and not self.u[t].group:
                raise ModelGap("change @user without group")
            if t >= 0:
                self.events.add("change_at_hidden")
            self.error(n, b"User not found.")
            return -1
        if not name:
            self.error(n, b"Null groupnames are not allowed.")
            return -1
        if name[:2] == b"..":
            name, vis = name[2:10], SUPERSECRET
        elif name[:1] == b".":
            name, vis = name[1:9], SECRET
        else:
            name, vis = name[:8], VISIBLE
        if not name:
            self.error(n, b"Group name too short.")
            return -1
        name = filtergroup(name)
        ngi = self.find_group(name)
        if ngi < 0:
            ngi = self.new_group()
            if ngi < 0:
                self.error(n, b"Too many groups!")
                return -1
            g = Group()
            self.g[ngi] = g
            g.vis, g.name = vis, name
            if caseeq(name, BOOT_GROUP):
                g.vis, g.topic = SECRET, b"Boot-ees"
            elif caseeq(name, IDLE_GROUP):
                g.vis, g.vol, g.idleboot, g.topic = VISIBLE, QUIET, 0, b"Idlers"
            elif name != b"1":
                g.ctl, g.mod = MODERATED, n
            if g.vis != VISIBLE:
                self.events.add("hidden_group")
        g = self.g[ngi]
        if g.ctl == RESTRICTED and not (self.check_auth(n) or g.mod == n):
            inv = self.invited(n, g)
            if inv:
                self.events.add("restricted_invited")
            if not inv and not self.booting:
                self.events.add("restricted_refused")
                self.error(n, name + b" is restricted.")
                self.probe(n, g, b" tried to enter the group.")
                return -1
        ogi = self.find_group(u.group)
        if g.ctl in (MODERATED, CONTROLLED) and g.size > 0:
            if len(self.members(g.name)) >= g.size and g.mod != n:
                self.events.add("group_full")
                self.probe(n, g, b" tried to enter the group, but it's full.")
                self.error(n, b"Group " + name + b" is full.")
                return -1
        if ngi == ogi:
            self.error(n, b"You are already in that group!")
            return -1
        u.group = g.name
        if g.vol != QUIET:
            self.gstatus_user(n, 0, b"Sign-on" if u.login < LOGIN_COMPLETE or logging_in else b"Arrive",
                              u.nick + b" (" + u.addr() + b") entered group")
        self.status(n, b"Status", b"You are now in group " + g.name + (b" as moderator" if g.mod == n else b""))
        u.t_group = self.now
        if ogi >= 0:
            self.events.add("change")
            og = self.g[ogi]
            if self.count_in(og.name) > 0:
                if og.vol != QUIET:
                    self.gstatus_group(ogi, b"Depart", u.nick + b" (" + u.addr() + b") just left")
                    if og.mod == n:
                        self.events.add("still_mod")
                        self.important(n, b"Mod", b"You are still mod of group " + og.name)
            else:
                self.events.add("group_gone")
                del self.g[ogi]
        return 0

    # lines of comma separated items, folded like the who listing
    def listing(self, n, head, plain, reg):
        line = b""
        items = [(x, False) for x in plain] + [(x, True) for x in reg]
        first = True
        for x, r in items:
            if (not r and first) or (r and not line):
                line = self.add_item(n, head, line)
            else:
                line = self.add_item(n, b", ", line)
            first = False
            if x:
                line = self.add_item(n, x + (b"(r)" if r else b""), line)
        if line:
            self.cmdout(n, line)

    def list_invites(self, n, g):
        self.listing(n, b"Nicks invited: ", g.inv_n, g.inv_nr)
        self.listing(n, b"Addrs invited: ", g.inv_s, g.inv_sr)
        return len(g.inv_n) + len(g.inv_nr) + len(g.inv_s) + len(g.inv_sr)

    def s_invite(self, n, argc):
        if argc != 2:
            return
        g = self.g[self.gof(n)]
        u = self.u[n]
        restricted, mod = g.ctl == RESTRICTED, g.mod == n
        r = self.flags(self.F[1], {"q": "q", "s": "mode", "n": "mode", "r": "r"},
                       b"Usage: invite {-q} {-r} {-n nickname | -s address}", n)
        if r is None:
            return
        fl, who = r
        if not who:
            if not restricted:
                self.status(n, b"Invite", b"Invite lists only function in restricted groups.")
            elif self.list_invites(n, g) < 1:
                self.status(n, b"Invite", b"No one on invite list")
            return
        site, reg = fl.get("mode") == "s", "r" in fl
        if site:
            who = upper(who)
        if restricted and mod:
            self.events.add("invite")
            {(0, 0): g.inv_n, (0, 1): g.inv_nr, (1, 0): g.inv_s, (1, 1): g.inv_sr}[(site, reg)].put(who)
            if "q" not in fl:
                self.status(n, b"FYI", who + (b" invited (registered only)" if reg else b" invited"))
        if not site and (not restricted or mod):
            d = self.find_user(who)
            if d >= 0:
                if self.u[d].reg or not reg:
                    self.status(d, b"RSVP", b"You are invited to group " + u.group + b" by " + u.nick)
            else:
                self.status(n, b"Warning", who + b" is not signed on.")
        if site and not restricted:
            self.error(n, b"The group isn't restricted.")
        if restricted and not mod:
            self.events.add("not_mod")
            self.error(n, b"You aren't the moderator.")

    def s_pass(self, n, argc):
        if argc != 2:
            return
        g = self.g[self.gof(n)]
        u = self.u[n]
        if not (self.check_auth(n) or g.mod == n):
            self.events.add("not_mod")
            self.error(n, b"You aren't the moderator.")
            return
        if not self.F[1]:
            self.events.add("relinquish")
            g.mod, g.modtimeout, g.missing = -1, 0, b""
            if g.vol != QUIET:
                self.gstatus_user(n, 1, b"Pass", u.nick + b" just relinquished the mod.")
            if g.ctl == CONTROLLED:
                g.ctl = PUBLIC
                if g.vol != QUIET:
                    self.gstatus_user(n, 1, b"Change", b"Group is now public.")
            return
        w = getword(self.F[1])
        if not w:
            return
        if caseeq(w, b"server"):
            self.error(n, b"Cannot pass to Server.")
            return
        d = self.find_user(w)
        if d < 0:
            self.error(n, w + b" is not on!")
            return
        self.events.add("pass")
        if g.modtimeout:
            self.events.add("pass_held")
        g.mod, g.modtimeout, g.missing = d, 0, b""
        self.status(d, b"Pass", u.nick + b" just passed you moderation of group " + g.name)
        if g.vol != QUIET:
            self.gstatus_user(n, 1, b"Pass", u.nick + b" has passed moderation to " + self.u[d].nick)

    def s_boot(self, n, argc):
        if argc != 2:
            return
        gi = self.gof(n)
        g = self.g[gi]
        u = self.u[n]
        if not (self.check_auth(n) or g.mod == n):
            self.events.add("not_mod")
            self.error(n, b"You aren't the moderator.")
            return
        who, msg = getword(self.F[1]), get_tail(self.F[1])
        d = self.find_user(who)
        if d < 0:
            self.status(n, b"Warning", who + b" is not signed on")
            return
        v = self.u[d]
        if caseeq(who, b"admin"):
            self.error(n, b"You nobk! You can't boot the admin!")
            self.status(d, b"Boot Attempt!", u.nick + b" tried to boot you!")
            return
        ns = 0
        if msg:
            err, ns = filterfmt(msg)
            if err and ns != 0:
                self.error(n, err)
                return
        if self.find_group(v.group) != gi:
            self.error(n, self.F[1] + b" is not in your group")
            return
        if d == SRV:
            raise ModelGap("booting the server")
        self.events.add("boot")
        if any([g.inv_n.delete(v.nick), g.inv_nr.delete(v.nick)]):
            self.status(n, b"FYI", v.nick + b" cancelled")
        if msg:
            m = cfmt(msg, v.nick) if ns else v.nick + b" " + msg
        else:
            m = v.nick + b" was booted."
        if g.vol != QUIET:
            self.gstatus_user(n, 1, b"Boot", m)
        self.status(d, b"Boot", u.nick + b" booted you.")
        self.F[1] = BOOT_GROUP
        self.booting = 1
        self.s_change(d, 2)
        self.booting = 0
        self.stats["boots"] += 1

    def hm(self, secs):
        h, m = secs // 3600, secs % 3600 // 60
        return b"%d hour%s, %d minute%s" % (h, b"" if h == 1 else b"s", m, b"" if m == 1 else b"s")

    def hm_short(self, secs):
        if secs > 59 * 60:
            return self.hm(secs)
        m = secs // 60
        return b"%d minute%s" % (m, b"" if m == 1 else b"s")

    def s_status(self, n, argc):
        if argc != 2:
            return
        gi = self.gof(n)
        g = self.g[gi]
        u = self.u[n]
        if not self.F[1]:
            mod = self.u[g.mod].nick if g.mod >= 0 else b"None" if g.modtimeout == 0 else g.missing
            self.cmdout(n, b"Name: %s Mod: %s (%s / %s / %s)" % (g.name, mod, VIS[g.vis], CTL[g.ctl], VOL[g.vol]))
            self.list_invites(n, g)
            self.listing(n, b"Nicks who can talk: ", g.talk_n, g.talk_nr)
            self.cmdout(n, b"Size: no limit" if g.size == 0 else
                        b"Size: %d user%s limit" % (g.size, b"" if g.size == 1 else b"s"))
            self.cmdout(n, b"Idle-Boot: " + (b"no limit" if g.idleboot == 0 else self.hm(g.idleboot)))
            if g.idlemsg:
                self.cmdout(n, b"Idle-Boot Message: " + g.idlemsg)
            if g.ctl != PUBLIC:
                self.cmdout(n, b"Idle-Mod: " + (b"no limit" if g.idlemod == 0 else self.hm(g.idlemod)))
            return
        public, mod = g.ctl == PUBLIC, g.mod == n
        hasmod = g.mod != -1 or g.modtimeout > 0
        if caseeq(g.name, b"1") or caseeq(g.name, IDLE_GROUP) or caseeq(g.name, BOOT_GROUP):
            nm = b"1" if g.name == b"1" else IDLE_GROUP if caseeq(g.name, IDLE_GROUP) else BOOT_GROUP
            self.error(n, b"Can't change group " + nm + b"!")
            return
        if not mod and hasmod and not public:
            self.events.add("not_mod")
            self.error(n, b"You aren't the moderator.")
            return
        p = self.F[1]
        while True:
            w = getword(p)
            if not w:
                break
            o = w.lower()
            msg = None
            nomod = {b"r": b"become restricted", b"m": b"become moderated", b"c": b"become controlled",
                     b"b": b"have idleboot changed", b"im": b"have idlemod changed", b"q": b"be changed to quiet"}
            if o in nomod and not hasmod:
                self.events.add("nomod_refused")
                self.error(n, b"Groups without a moderator cannot " + nomod[o] + b".")
                if o in (b"b", b"im"):
                    p = get_tail(p)
                p = get_tail(p)
                continue
            if o == b"r":
                g.ctl = RESTRICTED
                self.events.add("restrict")
                for i in self.slots():
                    v = self.u[i]
                    if caseeq(v.group, g.name):
                        (g.inv_nr if v.reg else g.inv_n).put(v.nick)
                        if g.mod > 0:
                            self.status(g.mod, b"FYI", v.nick + b" invited")
                        self.status(i, b"FYI", b"You are invited to group " + g.name + b" by default.")
                msg = b"Group is now restricted."
            elif o in (b"m", b"c", b"p"):
                g.ctl = {b"m": MODERATED, b"c": CONTROLLED, b"p": PUBLIC}[o]
                g.inv_n, g.inv_nr, g.inv_s, g.inv_sr = NL(50), NL(50), NL(50), NL(50)
                msg = {b"m": b"Group is now moderated.", b"c": b"Group is now controlled.",
                       b"p": u.nick + b" made group public."}[o]
            elif o == b"#":
                p = get_tail(p)
                w = getword(p)
                v = atoi(w) if w else -1
                if not 0 <= v <= MAX_REAL:
                    self.error(n, b"Size must be between 0 and %d." % MAX_REAL)
                else:
                    g.size = v
                    msg = u.nick + (b" removed group size limit." if v == 0 else b" made group limited to %d users." % v)
            elif o == b"b":
                p = get_tail(p)
                w = getword(p)
                if not w:
                    self.error(n, b"Idle-Boot must be specified in number of minutes (0=disabled).")
                else:
                    v = atoi(w) * 60
                    if v < 0:
                        self.error(n, b"Idle-Boot must be > 0 (or 0 to disable).")
                    else:
                        g.idleboot = v
                        msg = u.nick + (b" disabled idle-boot." if v == 0 else b" set idle-boot to " + self.hm_short(v) + b".")
            elif o == b"idlebootmsg":
                p = get_tail(p)
                if not 1 <= len(p) <= 54:
                    self.error(n, b"Idle-Boot message length must be between 1 and 54 (yours was %d)." % len(p))
                else:
                    err, _ = filterfmt(p)
                    if err:
                        self.error(n, err)
                    else:
                        g.idlemsg = p
                        self.status(n, b"Change", b"Idle-boot msg: " + p)
                p = b""
            elif o == b"im":
                p = get_tail(p)
                w = getword(p)
                if not w:
                    self.error(n, b"Idle-Mod must be between 0 and 240.")
                else:
                    v = atoi(w) * 60
                    if v == 0:
                        self.status(n, b"Info", b"Using maximum value allowed")
                        v = 14400
                    if not 1 <= v <= 14400:
                        self.error(n, b"Idle-Mod must be between 0 and 240.")
                    else:
                        g.idlemod = v
                        msg = u.nick + b" set idle-mod to " + self.hm_short(v) + b"."
            elif o in (b"i", b"s", b"v"):
                g.vis = {b"i": SUPERSECRET, b"s": SECRET, b"v": VISIBLE}[o]
                msg = u.nick + b" made group " + {b"i": b"invisible.", b"s": b"secret.", b"v": b"visible."}[o]
            elif o in (b"q", b"n", b"l"):
                g.vol = {b"q": QUIET, b"n": NORMAL, b"l": LOUD}[o]
                msg = u.nick + b" made group " + {b"q": b"quiet.", b"n": b"normal.", b"l": b"loud."}[o]
            elif o == b"name":
                p = get_tail(p)
                w = filtergroup(getword(p))
                if self.set_name(n, gi, w):
                    self.events.add("rename")
                    msg = u.nick + b" renamed group to " + w
            elif o == b"?":
                for t in (b"Table Of Status Commands", b"r - restricted c - controlled m - moderated p - public",
                          b"i - invisible s - secret v - visible", b"q - quiet n - normal l - loud",
                          b"name - change group name", b"? -- this table", b"# - change the number of allowed users",
                          b"b - change the idleboot setting", b"idlebootmsg - change the idleboot message",
                          b"im - change the idlemod setting"):
                    self.status(n, b"Information", t)
            else:
                self.error(n, b"Option " + w + b" unknown.")
            if msg:
                self.events.add("status_" + o.decode("latin-1"))
                self.gstatus_user(n, 1, b"Change", msg)
            p = get_tail(p)

    def set_name(self, n, gi, name):
        if not name:
            self.error(n, b"New name may not be null.")
            return False
        name = name[:8]
        if name == b"1":
            self.error(n, b"Cannot change name to group 1.")
            return False
        j = self.find_group(name)
        if j >= 0 and j != gi:
            self.events.add("rename_clash")
            self.error(n, b"That group already exists.")
            return False
        for i in self.members(self.g[gi].name):
            self.u[i].group = name
        self.g[gi].name = name
        return True

    def s_topic(self, n, argc):
        if argc != 2:
            return
        g = self.g[self.gof(n)]
        if not self.F[1]:
            self.cmdout(n, b"The topic is: " + g.topic if g.topic else b"The topic is not set.")
            return
        if g.mod >= 0 and g.mod != n:
            self.events.add("not_mod")
            self.error(n, b"You aren't the moderator.")
            return
        if g.name in (b"1", IDLE_GROUP, BOOT_GROUP):
            self.error(n, b"You can't change this group's topic.")
            return
        g.topic = self.F[1][:32]
        self.events.add("topic")
        if g.vol != QUIET:
            self.gstatus_user(n, 1, b"Topic", self.u[n].nick + b" changed the topic to \"" + g.topic + b"\"")

    def s_exclude(self, n, argc):
        if argc != 2:
            return
        who, msg = getword(self.F[1]), get_tail(self.F[1])
        if not msg:
            self.error(n, b"Empty message.")
            return
        u = self.u[n]
        g = self.g[self.gof(n)]
        if g.vol == QUIET:
            self.error(n, b"Open messages not permitted in quiet groups.")
            return
        if not self.may_talk(n, g):
            self.events.add("controlled_refused")
            self.error(n, b"You do not have permission to send open messages in this group.")
            return
        j = self.find_user(who)
        nm = self.u[j].nick if j > 0 else who
        for i in self.members(u.group):
            if (i != n or u.echo) and self.u[i].login >= LOGIN_COMPLETE and self.pub_ok(n, i) \
                    and not caseeq(self.u[i].nick, who):
                self.events.add("exclude")
                self.status(i, b"Exclude", u.nick + b"'s next message excludes " + nm + b":")
                self.sendopen(n, i, msg)

    def talk_delete(self, who, g):
        a, b = g.talk_n.delete(who), g.talk_nr.delete(who)
        if a or b:
            d = self.find_user(who)
            if d >= 0 and (a or (b and self.u[d].reg)):
                m = self.u[g.mod]
                self.status(d, b"TALK", b"You no longer can talk in group " + m.group + b" (no thanks to " + m.nick + b")")
        return a or b

    def talk_report(self, n, gi):
        g, u = self.g[gi], self.u[n]
        if g.talk_n.present(u.nick) or (u.reg and g.talk_nr.present(u.nick)):
            self.events.add("talk_report")
            self.cmdout(n, b"Talk permission in: " + g.name)

    def s_talk(self, n, argc):
        if argc != 2:
            return
        usage = b"Usage: talk {-a} {-q} {-r} {-d} nickname"
        g = self.g[self.gof(n)]
        u = self.u[n]
        r = self.flags(self.F[1], {"q": "q", "a": "a", "d": "d", "r": "r"}, usage, n)
        if r is None:
            return
        fl, who = r
        q = "q" in fl
        if not who:
            self.error(n, usage)
        elif g.ctl == PUBLIC:
            self.error(n, b"The group is public.")
        elif g.mod != n:
            self.events.add("not_mod")
            self.error(n, b"You aren't the moderator.")
        elif "d" in fl:
            if not self.talk_delete(who, g):
                self.error(n, who + b" is not in talk list")
            elif not q:
                self.events.add("talk_del")
                self.status(n, b"FYI", who + b" removed from talk list")
        else:
            if "a" not in fl:
                for x in g.talk_n:
                    if x and self.talk_delete(x, g) and not q:
                        self.status(n, b"FYI", x + b" removed from talk list")
                for x in g.talk_nr:
                    if x and self.talk_delete(x, g) and not q:
                        self.status(n, b"FYI", x + b" removed from registered talk list")
            self.events.add("talk_add")
            reg = "r" in fl
            (g.talk_nr if reg else g.talk_n).put(who)
            if not q:
                self.status(n, b"FYI", who + (b" can talk (registered only)" if reg else b" can talk"))
            d = self.find_user(who)
            if d >= 0:
                if self.u[d].reg or not reg:
                    self.status(d, b"TALK", b"You can talk in group " + u.group + b" (courtesy of " + u.nick + b")")
            else:
                self.status(n, b"Warning", who + b" is not signed on.")


class Model(ModelBase):
    # ------------------------------------------------------------ who
    def add_item(self, n, item, buf):
        if len(item) + 1 >= 75:
            return buf
        if len(item) + len(buf) + 1 >= 75:
            self.cmdout(n, buf)
            return item if item != b", " else b""
        return buf + item

    def in_group(self, gi):
        return [i for i in self.slots() if self.u[i].group and self.find_group(self.u[i].group) == gi]

    def sees(self, n, g):
        """who lists hidden names to invitees and to ADMIN"""
        u = self.u[n]
        return (g.inv_n.present(u.nick) or (u.reg and g.inv_nr.present(u.nick)) or g.inv_s.match(upper(u.addr()))
                or u.nick == b"ADMIN")

    def who_group(self, n, flags, name):
        gi = self.find_group(name)
        if gi < 0:
            self.error(n, b"The group " + name + b" doesn't exist.")
            return
        g = self.g[gi]
        if g.mod >= 0:
            mod = self.u[g.mod].nick
        elif g.modtimeout == 0:
            mod = b"(None)"
        else:
            mod = g.missing + b" (%d)" % (g.modtimeout - self.now)
        opts = b"(" + b"*pmrc"[g.ctl:g.ctl + 1] + b"*vsi"[g.vis:g.vis + 1] + b"*qnl"[g.vol:g.vol + 1] + b")"
        mine = self.find_group(self.u[n].group) == gi
        nm = g.name
        if g.vis != VISIBLE:
            if not mine and not self.sees(n, g):
                self.events.add("who_masked")
                nm = b"-SECRET-"
            else:
                nm = b"*" + nm + b"*"
        self.cmdout(n, b" ")
        self.cmdout(n, b"Group: %s %s Mod: %s Topic: %s" % (nm.ljust(8), opts, mod.ljust(13), g.topic or b"(None)"))
        who = self.in_group(gi)
        if flags == 1:
            return
        if flags == 2:
            line = self.add_item(n, b"    Members: ", b"")
            left = self.count_in(g.name)
            for i in who:
                line = self.add_item(n, self.u[i].nick, line)
                left -= 1
                if left:
                    line = self.add_item(n, b", ", line)
            if line:
                self.cmdout(n, line)
            return
        if self.count_in(g.name) >= 2:
            self.dosend(-1, n, b"iwh")
        rows = []
        for i in who:
            k = 0
            while k < len(rows) and self.u[i].t_group > self.u[rows[k]].t_group:
                k += 1
            rows.insert(k, i)
        for i in rows:
            v = self.u[i]
            st = [x for x, on in ((b"nr", not v.reg), (b"aw", v.away), (b"ssl", v.secure)) if on]
            self.dosend(-1, n, b"iwl\x01" + b"\x01".join([
                b"m" if g.mod == i else b" ", v.nick, b"%d" % (self.now - v.t_recv), b"0", b"%d" % v.t_on, v.id, v.node,
                b"(" + b",".join(st) + b")" if st else b""]))

    def ngroups(self):
        return sum(1 for i in self.groups() if self.g[i].name != b"ICB" or self.count_in(b"ICB") > 1)

    def s_who(self, n, argc):
        if argc != 2:
            return
        a = self.F[1]
        w = getword(a).lower()
        if w == b"?":
            self.cmdout(n, b"Usage: /w {-g | -s} {groupname}")
            return
        flags = {b"-g": 1, b"-s": 2}.get(w, 0)
        name = getword(get_tail(a)) if flags else getword(a)
        if not name:
            mine = self.find_group(self.u[n].group)
            lst = [i for i in self.groups() if self.g[i].vis != SUPERSECRET or i == mine or self.sees(n, self.g[i])]
            if len(lst) < len(self.g) - 1:
                self.events.add("who_hidden")
            self.events.add("who_all")
            for i in sorted(lst, key=lambda i: self.g[i].name.lower()):
                self.who_group(n, flags, self.g[i].name)
            nu = sum(1 for i in self.real() if self.u[i].login > LOGIN_FALSE)
            ng = self.ngroups()
            if nu == 0:
                self.cmdout(n, b"No users found.")
            else:
                self.cmdout(n, b"Total: %d user%s in %d group%s" % (nu, b"s" if nu > 1 else b"", ng, b"s" if ng > 1 else b""))
            return
        name = name[:8]
        if a[:1] == b"@":
            t = self.find_user(a[1:])
            if t >= 0 and not self.u[t].group:
                raise ModelGap("who @user without group")
            if t < 0 or (self.g[self.gof(t)].vis == SUPERSECRET and self.u[n].nick != b"ADMIN"):
                if t >= 0:
                    self.events.add("who_at_hidden")
                self.error(n, b"User not found.")
                return
            self.events.add("who_at")
            name = self.u[t].group
        if name == b".":
            name = self.u[n].group
        self.who_group(n, flags, name)

    # ------------------------------------------------------------ personal
    def clock12(self):
        t = _time.gmtime(self.now)
        h = t.tm_hour
        return b"%d:%02d%s" % (h - 12 if h > 12 else 12 if h == 0 else h, t.tm_min, b"pm" if h > 11 else b"am")

    def away_handle(self, src, dest):
        d = self.u[dest]
        if d.away and (d.lastaway != src or self.now - d.lastawaytime > 10):
            self.events.add("away_reply")
            d.lastaway, d.lastawaytime = src, self.now
            self.status(src, b"Away", d.away)
            if d.echo == 2:
                self.cmdout(dest, (b"<*to: %s*> [=@%s=] %s" % (self.u[src].nick, self.clock12(), d.away))[:253])
        elif d.away:
            self.events.add("away_suppressed")

    def s_personal(self, n, argc):
        if argc != 2:
            return
        u = self.u[n]
        w = getword(self.F[1])
        d = self.find_user(w)
        if d < 0:
            self.events.add("not_on")
            self.error(n, w + b" not signed on.")
            return
        if u.away and d != SRV:
            self.status(n, b"Away", b"Your away is still set...")
        msg = get_tail(self.F[1])
        self.events.add("personal")
        self.sendperson(n, d, msg)
        if u.echo == 2:
            self.cmdout(n, (b"<*to: %s*> %s" % (self.u[d].nick, msg))[:253])
        self.away_handle(n, d)

    def s_beep(self, n, argc):
        if argc != 2:
            return
        w = getword(self.F[1])
        if not w:
            return
        d = self.find_user(w)
        if d < 0:
            self.error(n, w + b" not signed on.")
            return
        self.sendbeep(n, d)
        if self.u[n].echo == 2:
            self.cmdout(n, b"<*to: %s*> [=Beep=]" % self.u[d].nick)
        self.away_handle(n, d)

    def s_info(self, n, argc):
        if argc != 2:
            return
        w = getword(self.F[1])[:19]
        t = self.find_user(w) if w else self.u[n].lpriv
        if t < 0:
            self.cmdout(n, b"Nickname not found.")
            return
        v = self.u[t]
        if not w:
            self.events.add("whereis_last")
        idle = self.now - v.t_recv
        q, x = (idle, b"s") if idle < 60 else (idle // 60, b"m") if idle < 3600 else (idle // 3600, b"h") \
            if idle < 86400 else (idle // 86400, b"d")
        self.cmdout(n, b"%s %s@%s (%s) %d%s%s" % (v.nick.ljust(14), v.id, v.node, b"(unknown)" if t == SRV else v.ip, q, x,
                                                  b" (aw)" if v.away else b""))

    # ------------------------------------------------------------ files
    def filelines(self, n, data):
        """complete lines of a file, as command output"""
        for l in data.split(b"\n")[:-1]:
            self.cmdout(n, l[:254])

    def s_motd(self, n, argc):
        f = self.files.get("motd")
        if f is None:
            self.error(n, b"No MOTD file found.")
            return
        i = 0
        line = b""
        while i < len(f):
            c = f[i:i + 1]
            i += 1
            if c == b"%":
                if i >= len(f):
                    raise ModelGap("motd ends in %")
                c = f[i:i + 1]
                i += 1
                if c == b"U":
                    line = (line + self.db.get(b"server.signon", b""))[:255]
                elif len(line) < 255:
                    line += c
            elif c == b"\n":
                self.cmdout(n, line)
                line = b""
            elif len(line) < 255:
                line += c

    def s_news(self, n, argc):
        bar = b"--------------------------------------"
        a = self.F[1]
        if a in (b"", b"(null)"):
            first = True
            for i in range(1, 10):
                f = self.files.get("news.%d" % i)
                if f is not None:
                    if first:
                        self.cmdout(n, bar)
                    first = False
                    self.filelines(n, f)
                    self.cmdout(n, bar)
            if first:
                self.status(n, b"News", b"No news.")
        else:
            f = self.files.get("news." + a.decode("latin-1"))
            if f is not None:
                self.cmdout(n, bar)
                self.filelines(n, f)
                self.cmdout(n, bar)
            else:
                self.error(n, b"Entry not found.")

    def s_help(self, n, argc):
        f = self.files.get("icbd_help")
        if f is None:
            self.error(n, b"No help file found.")
        else:
            for l in f.split(b"\n")[:-1]:
                self.cmdout(n, l[:255])

    def s_version(self, n, argc):
        if argc == 2:
            self.cmdout(n, VERSION)
            self.cmdout(n, b"Proto Level: 1 Max Users: 254 Max Groups: 300")

    def s_shuttime(self, n, argc):
        if argc != 2:
            return
        if self.die < 0:
            self.status(n, b"Shutdown", b"No shutdown time scheduled.")
            return
        l = self.die - self.now
        if l >= 3600:
            m = b"%d hour(s), %d minute(s) left until scheduled shutdown." % (l // 3600, l % 3600 // 60)
        elif l > 60:
            m = b"%d minute(s) left until scheduled shutdown." % (l // 60)
        else:
            m = b"%d second(s) left until scheduled shutdown!" % l
        self.status(n, b"Shutdown", m)

    def s_server_stats(self, n, argc):
        st = self.stats
        if argc == 2 and self.F[1] == b"reset":
            if not self.check_auth(n):
                self.events.add("admin_refused")
                self.error(n, b"You are not authorized to do this.")
                return
            self.events.add("admin_ok")
            for k in st:
                st[k] = 0
            self.started = self.now
            self.status(n, b"Stats", b"Stats have been reset.")
            return

        def pl(k, s=b"s"):
            return b"" if k == 1 else s
        self.cmdout(n, b"Server Settings:")
        self.cmdout(n, b"  " + VERSION + b", Protocol Level 1")
        self.cmdout(n, b"  Max Users: 254 Max Groups: 300")
        self.cmdout(n, b"Server Stats:")
        self.cmdout(n, b"  Started: " + _time.asctime(_time.gmtime(self.started)).encode())
        self.cmdout(n, b"  %d signon%s, %d boot%s, %d drop%s" % (
            st["signons"], pl(st["signons"]), st["boots"], pl(st["boots"]), st["drops"], pl(st["drops"])))
        self.cmdout(n, b"  %d idleboot%s, %d idlemod pass%s" % (
            st["idleboots"], pl(st["idleboots"]), st["idlemods"], pl(st["idlemods"], b"es")))
        us = [i for i in self.real() if self.u[i].login > LOGIN_FALSE]
        aw = sum(1 for i in us if self.u[i].away)
        ng = self.ngroups()
        self.cmdout(n, b"  %d user%s in %d group%s (%d away user%s)" % (len(us), pl(len(us)), ng, pl(ng), aw, pl(aw)))

    # ------------------------------------------------------------ user settings
    def s_hush(self, n, argc):
        u = self.u[n]
        usage = b"Usage: hush {-q} {-p} {-o} {-n nickname | -s address}"
        fl, who = {}, b""
        if argc >= 2:
            r = self.flags(self.F[1], {"q": "q", "s": "mode", "n": "mode", "p": "p", "o": "o"}, usage, n)
            if r is None:
                return
            fl, who = r
            who = upper(who)
        if not who:
            lists = ((b"Personal-Nick-Hushed", u.pri_n), (b"Open-Nick-Hushed", u.pub_n),
                     (b"Personal-Site-Hushed", u.pri_s), (b"Open-Site-Hushed", u.pub_s))
            if not any(len(l) for _, l in lists):
                self.status(n, b"Hush-List", b"Empty List")
            for nm, l in lists:
                for x in l:
                    self.status(n, nm, x)
            return
        site = fl.get("mode") == "s"
        both = "p" not in fl and "o" not in fl
        kind = b"site" if site else b"nickname"
        for on, what, l in ((both or "p" in fl, b"personal", u.pri_s if site else u.pri_n),
                            (both or "o" in fl, b"open", u.pub_s if site else u.pub_n)):
            if not on:
                continue
            if not l.present(who):
                if len(l) == 32:
                    self.events.add("hush_full")
                    self.error(n, b"Max number of " + kind + b" " + what + b" hushes reached.")
                    return
                self.events.add("hush_add")
                l.put(who)
                verb = b" added to "
            else:
                self.events.add("hush_del")
                l.delete(who)
                verb = b" removed from "
            if "q" not in fl:
                self.status(n, b"Hush", who + verb + kind + b" " + what + b" hush list.")

    def s_notify(self, n, argc):
        u = self.u[n]
        usage = b"Usage: notify {-q} {-n nickname | -s address}"
        fl, who = {}, b""
        if argc >= 2:
            r = self.flags(self.F[1], {"q": "q", "s": "mode", "n": "mode"}, usage, n)
            if r is None:
                return
            fl, who = r
            who = upper(who)
        if not who:
            if not len(u.n_not) and not len(u.s_not):
                self.status(n, b"Notify-List", b"Empty List")
            for x in u.n_not:
                self.status(n, b"Notify-Nickname", x)
            for x in u.s_not:
                self.status(n, b"Notify-Site", x)
            return
        site = fl.get("mode") == "s"
        kind = b"site" if site else b"nickname"
        l = u.s_not if site else u.n_not
        q = "q" in fl
        if not l.present(who):
            if len(l) == 40:
                self.error(n, b"Max number of " + kind + b" notifies reached.")
                return
            self.events.add("notify_add")
            l.put(who)
            if not q:
                self.status(n, b"Notify", who + b" added to " + kind + b" notify list.")
                i = self.find_user(who)
                if not site and i > 0:
                    self.status(n, b"Notify", self.u[i].nick + b" is logged in now.")
        else:
            self.events.add("notify_del")
            l.delete(who)
            if not q:
                self.status(n, b"Notify", who + b" removed from " + kind + b" notify list.")

    def s_name(self, n, argc):
        if argc != 2:
            return
        u = self.u[n]
        if not self.F[1]:
            self.error(n, b"The nickname may not be null.")
            return
        new = filternick(self.F[1][:12])
        if (self.find_user(new) >= 0 and not caseeq(new, u.nick)) or \
                (caseeq(new, b"admin") and u.pw != ADMIN_PWD):
            self.events.add("name_refused")
            self.error(n, b"Nickname already in use.")
            return
        self.events.add("name")
        m = u.nick + b" changed nickname to " + new
        self.gstatus_user(n, 0, b"Name", m)
        self.nickwritetime(n, 1)
        u.nick = new
        self.status(n, b"Name", m)
        u.reg = False
        ret = self.nick_auth_state(n)
        if ret == 0:
            self.become_registered(n)
        elif ret == -2:
            self.status(n, b"Register", b"Send password to authenticate your nickname.")
            j = 0
            for gi in self.groups():
                if self.g[gi].missing and caseeq(u.nick, self.g[gi].missing):
                    self.status(n, b"Mod", b"You are moderator of group " + self.g[gi].name)
                    j += 1
            if j:
                self.status(n, b"Mod", b"You must register using /p <password> to regain mod of the above group"
                            + (b"s." if j > 1 else b"."))
        else:
            self.status(n, b"No-Pass", b"To register your nickname type /m server p mypassword")
        for gi in self.groups():
            self.talk_report(n, gi)

    def s_echoback(self, n, argc):
        if argc != 2:
            return
        a = self.F[1].lower()
        if a in (b"off", b"on", b"verbose"):
            self.u[n].echo = (b"off", b"on", b"verbose").index(a)
            self.status(n, b"Echo", b"Echoback " + (b"off", b"on", b"on verbose")[self.u[n].echo])
        else:
            self.error(n, b"Echoback: needs on/off/verbose")

    def s_nobeep(self, n, argc):
        if argc != 2:
            return
        a = self.F[1].lower()
        if a in (b"off", b"on", b"verbose"):
            self.u[n].nobeep = (b"off", b"on", b"verbose").index(a)
            self.status(n, b"No-Beep", b"No-Beep " + (b"off", b"on", b"on (verbose)")[self.u[n].nobeep])
        else:
            self.error(n, b"No-Beep: needs off/on/verbose")

    def s_ping(self, n, argc):
        if argc != 2:
            return
        w = getword(self.F[1])
        to = n
        if w:
            to = self.find_user(w)
            if to <= 0:
                self.error(n, b"Can't locate user (" + w + b")")
                return
        self.events.add("ping")
        self.u[to].pingt = (self.now, self.usec)
        self.u[to].pong = n
        self.dosend(-1, to, b"l" + self.u[n].nick)

    def s_noaway(self, n, argc):
        if argc > 2:
            return
        u = self.u[n]
        if not u.away:
            self.status(n, b"Away", b"Away not set!")
            return
        u.away, u.lastaway, u.lastawaytime = b"", 0, 0
        self.status(n, b"Away", b"Away message unset.")

    def s_away(self, n, argc):
        if argc > 2:
            return
        u = self.u[n]
        a = self.F[1]
        if not a:
            self.status(n, b"Away", b"Away message is set to \"" + u.away + b"\"" if u.away else b"Away message is not set.")
            return
        err, _ = filterfmt(a)
        if err:
            self.error(n, err)
            return
        self.events.add("away_set")
        u.away = (b"(%s@" + self.clock12() + b") " + a)[:202]
        u.lastaway, u.lastawaytime = 0, 0
        self.status(n, b"Away", b"Away message set to \"" + u.away + b"\"")

    # ------------------------------------------------------------ admin
    def check_auth(self, n):
        u = self.u[n]
        return caseeq(u.nick, b"admin") and u.pw == ADMIN_PWD

    def refused(self, n):
        if self.check_auth(n):
            self.events.add("admin_ok")
            return False
        self.events.add("admin_refused")
        self.error(n, b"You are not authorized to do this.")
        return True

    loglevel = 0
    logopen = True

    def s_log(self, n, argc):
        if argc < 2:
            self.cmdout(n, b"wrong number of parz")
            return
        if self.refused(n):
            return
        if self.F[1]:
            old, self.loglevel = self.loglevel, max(0, atoi(getword(self.F[1])))
            if self.loglevel > 0 and not self.logopen:
                self.logopen = True
                self.logev.append(1)
            elif self.loglevel == 0 and old > 0:
                self.logopen = False
                self.logev.append(0)
        self.cmdout(n, b"The log level is %d" % self.loglevel)

    def s_drop(self, n, argc):
        if argc != 2:
            return
        t = self.find_user(getword(self.F[1]))
        if t < 0:
            self.error(n, b"User not found.")
            return
        pw = getword(get_tail(self.F[1]))[:12]
        if self.check_auth(n):
            self.events.add("drop_admin")
            if t < MAX_REAL:
                self.closing.add(t)
        elif pw and self.dbget(self.u[t].nick, b"password") == pw:
            self.events.add("drop_pw")
            self.status(t, b"Drop", b"You have been disconnected by " + self.u[n].nick)
            self.u[t].kill += 1
        else:
            self.events.add("drop_refused")
            self.error(n, b"Authentication failure.")

    def everyone(self, name, msg):
        for i in self.real():
            if self.u[i].login > LOGIN_FALSE:
                self.important(i, name, msg)

    def s_shutdown(self, n, argc):
        if self.refused(n) or argc != 2:
            return
        m = atoi(self.F[1])
        self.everyone(b"Shutdown", b"Server going down in %d minute(s)!" % m)
        self.die = self.now + 60 * m
        self.notify = 1 if m < 300 else 0

    def s_restart(self, n, argc):
        if self.refused(n):
            return
        raise ModelGap("restart")

    def s_wall(self, n, argc):
        if self.refused(n) or argc != 2:
            return
        self.everyone(b"WALL", self.F[1])

    # ------------------------------------------------------------ nickname database
    def key(self, nick, attr):
        return (nick + b"." + attr).lower()

    def dbget(self, nick, attr):
        return self.db.get(self.key(nick, attr))

    def dbset(self, nick, attr, val):
        self.db[self.key(nick, attr)] = val
        self.dblog.append((self.key(nick, attr), val))

    def dbdel(self, nick, attr):
        self.db.pop(self.key(nick, attr), None)
        self.dblog.append((self.key(nick, attr), None))

    def stamp(self):
        t = _time.gmtime(self.now)
        return b"%2d" % t.tm_mday + _time.strftime("-%b-%Y %H:%M UTC", t).encode()

    def nick_auth_state(self, n):
        """0 recognised, -2 known but not proven, -1 unknown"""
        u = self.u[n]
        home = self.dbget(u.nick, b"home")
        if home is None:
            return -1
        if not caseeq(home, u.addr()):
            self.events.add("home_mismatch")
            return -2
        if self.dbget(u.nick, b"secure") is not None:
            self.events.add("secure_login")
            return -2
        self.events.add("auto_auth")
        return 0

    def nickwritetime(self, n, cls):
        u = self.u[n]
        if not u.reg:
            return
        if cls and self.dbget(u.nick, b"nick") is None:
            return
        self.dbset(u.nick, b"signoff" if cls else b"signon", self.stamp())

    def nickckmsg(self, n):
        u = self.u[n]
        if not u.reg:
            return -1
        v = self.dbget(u.nick, b"nummsg")
        if v is None:
            self.dbset(u.nick, b"nummsg", b"0")
            return 0
        return atoi(v)

    def nickwrite(self, n, pw, verify):
        u = self.u[n]
        if not pw:
            self.error(n, b"Password cannot be null")
            return -1
        pw = pw[:12]
        have = self.dbget(u.nick, b"password")
        if have is None:
            if verify:
                self.error(n, b"[ERROR] Nick " + u.nick + b" not found")
                return -1
            self.events.add("new_nick")
            self.dbset(u.nick, b"password", pw)
            self.dbset(u.nick, b"nick", u.nick)
            self.dbset(u.nick, b"home", u.addr())
            self.status(n, b"Register", b"Nick registered")
            u.reg = True
            self.nickwritetime(n, 0)
            u.pw = pw
            return 0
        if have != pw:
            self.events.add("auth_failure")
            self.error(n, b"Authorization failure")
            u.reg = False
            return -1
        self.events.add("pw_auth")
        self.status(n, b"Register", b"Nick registered")
        u.reg = True
        self.nickwritetime(n, 0)
        u.pw = pw
        self.regain_mods(n)
        k = self.nickckmsg(n)
        if k == 1:
            self.status(n, b"Message", b"You have 1 message")
        elif k > 1:
            self.status(n, b"Message", b"You have %d messages" % k)
        for gi in self.groups():
            if gi >= 1:
                self.talk_report(n, gi)
        return 0

    def s_auto(self, n):
        u = self.u[n]
        c = self.F[0].lower().decode()
        a = self.F[1]
        w = getword(a)
        if c == "read":
            self.nickreadmsg(n)
        elif c == "whois":
            self.whois(n, w)
        elif c == "info":
            self.whois(n, b"server")
        elif c == "p":
            self.nickwrite(n, w, False)
        elif c == "write":
            self.nickwritemsg(n, w, get_tail(a))
        elif c in ("rname", "text", "addr", "phone", "www", "email"):
            usage, tag, mx, label = {
                "rname": (b"rname Real Name", b"realname", 25, b"Real Name"),
                "text": (b"text Message Text", b"text", 200, b"Message text"),
                "addr": (b"addr Address Line 1 | Address Line 2 | Address Line 3", b"addr", 79, b"Address"),
                "phone": (b"phone 1-800-555-1212", b"phone", 14, b"Phone Number"),
                "www": (b"www URL", b"www", 80, b"WWW"),
                "email": (b"email e-mail address", b"email", 60, b"E-Mail")}[c]
            if not a:
                self.cmdout(n, b"Usage: " + usage)
            elif not u.reg:
                self.events.add("unreg_refused")
                self.error(n, b"Setting your name requites that you be registered.")
            else:
                if len(a) > mx:
                    a = a[:mx]
                    self.error(n, label + b" truncated to %d characters" % mx)
                self.events.add("chinfo")
                self.dbset(u.nick, tag, a)
                self.cmdout(n, label + b" set to '" + a[:160] + b"'")
        elif c == "delete":
            if not w:
                self.cmdout(n, b"Usage: delete password")
            else:
                self.nickdelete(n, w[:12])
        elif c == "cp":
            old, new = w[:12], getword(get_tail(a))[:12]
            have = self.dbget(u.nick, b"password")
            if have is None or have != old:
                self.events.add("auth_failure")
                self.error(n, b"Authorization failure")
            elif not new:
                self.error(n, b"Missing paramater")
            else:
                self.events.add("chpass")
                self.dbset(u.nick, b"password", new)
                self.status(n, b"Pass", b"Password changed")
                self.dbset(u.nick, b"home", u.addr())
        elif c in ("secure", "nosecure"):
            if not u.reg:
                self.events.add("unreg_refused")
                self.error(n, b"You must be registered to change your security.")
            elif c == "secure":
                self.events.add("secure")
                self.dbset(u.nick, b"secure", b"SECURED")
                self.cmdout(n, b"Security set to password required.")
            else:
                self.dbdel(u.nick, b"secure")
                self.cmdout(n, b"Security set to automatic.")
        elif c == "help":
            for l in HELP:
                self.cmdout(n, l)
        else:
            self.sendperson(SRV, n, b"usage: /m server {whois | p | cp | delete | rname | email | phone | addr | text | "
                            b"read | write | www | info | secure | nosecure | help | ?}")
        self.u[SRV].t_recv = self.now

    def nickdelete(self, n, pw):
        u = self.u[n]
        if not u.reg:
            self.events.add("unreg_refused")
            self.error(n, b"You must be registered to delete your entry.")
            return
        have = self.dbget(u.nick, b"password")
        if have is None:
            self.error(n, b"You don't have a password.")
            return
        if have != pw:
            self.events.add("auth_failure")
            self.error(n, b"Password incorrect.")
            return
        self.events.add("nickdelete")
        for t in b"secure realname email signon signoff nick password phone text home addr nummsg www".split():
            self.dbdel(u.nick, t)
        for i in range(1, 21):
            for t in (b"header", b"message", b"from"):
                self.dbdel(u.nick, t + b"%d" % i)
        u.reg = False
        self.cmdout(n, b"Record Deleted")

    def nickwritemsg(self, n, to, msg):
        u = self.u[n]
        if not to or not msg:
            self.cmdout(n, b"Usage: write nickname message text")
            return
        if not u.reg:
            self.events.add("unreg_refused")
            self.error(n, b"You must be registered to write a message.")
            return
        if self.dbget(to, b"nick") is None:
            self.error(n, to + b" is not registered")
            return
        c = self.dbget(to, b"nummsg")
        c = (atoi(c) if c is not None else 0) + 1
        if c > 20:
            self.events.add("mailbox_full")
            self.error(n, b"User mailbox full")
            return
        self.events.add("write")
        self.dbset(to, b"header%d" % c, b"Message left at " + self.stamp() + b":")
        self.dbset(to, b"from%d" % c, u.nick)
        self.dbset(to, b"message%d" % c, filtertext(msg, 4095))
        self.dbset(to, b"nummsg", b"%d" % c)
        self.status(n, b"Message", b"Text saved to file")
        i = self.find_user(to)
        if i > 0:
            self.status(n, b"Warning", self.u[i].nick + b" is logged in now.")
            self.status(i, b"Message", b"You have %d message%s" % (c, b"s" if c > 1 else b""))

    def nickreadmsg(self, n):
        u = self.u[n]
        if not u.reg:
            self.events.add("unreg_refused")
            self.error(n, b"You must be registered to read any messages.")
            return
        c = self.dbget(u.nick, b"nummsg")
        c = atoi(c) if c is not None else 0
        if c == 0:
            self.error(n, b"No messages")
        else:
            self.events.add("read")
        for i in range(1, c + 1):
            h, f, m = (self.dbget(u.nick, t + b"%d" % i) for t in (b"header", b"from", b"message"))
            if h is not None:
                self.cmdout(n, h)
            if m is not None:
                self.person_raw(n, (f if f is not None else b"Server")[:12], m)
            for t in (b"header", b"from", b"message"):
                self.dbdel(u.nick, t + b"%d" % i)
        self.dbset(u.nick, b"nummsg", b"0")

    def whois(self, n, nick):
        if not nick:
            self.cmdout(n, b"Usage: whois nickname")
            return
        if len(nick) > 12:
            self.error(n, b"nickname too long")
            return
        home = self.dbget(nick, b"home")
        if home is None:
            self.error(n, nick + b" is not in the database.")
            return
        self.events.add("whois")

        def get(a, d):
            v = self.dbget(nick, a)
            return d if v is None else v
        self.cmdout(n, ((b"Nickname:     " + get(b"nick", b"")[:12]).ljust(36) + b"Address:   " + home)[:254])
        self.cmdout(n, (((b"Phone Number: " + get(b"phone", b"(None)"))[:254].ljust(36)) + b"Real Name: " + get(b"realname", b"(None)"))[:254])
        self.cmdout(n, (((b"Last signon:  " + get(b"signon", b"(unknown)"))[:254].ljust(36)) + b"Last signoff:  " + get(b"signoff", b"(unknown)"))[:254])
        for a, l in ((b"email", b"E-mail addr:  "), (b"www", b"WWW:  ")):
            if self.dbget(nick, a) is not None:
                self.cmdout(n, (l + self.dbget(nick, a))[:254])
        a = self.dbget(nick, b"addr")
        if a is not None:
            self.cmdout(n, b"Street Address:")
            for part in a[:254].split(b"|"):
                self.cmdout(n, (b"  " + part)[:254])
        t = self.dbget(nick, b"text")
        if t is not None:
            self.events.add("whois_text")
            for l in wrap_text(t[:254]):
                self.cmdout(n, (b"Text: " + l)[:254])

    # ------------------------------------------------------------ time and departures
    def didpoll(self):
        now = self.now
        if self.die > 0 and now >= self.die:
            self.dead = True
            return
        if self.die > 0 and now >= self.die - 300 and self.notify == 0:
            self.everyone(b"Shutdown", b"Server shutting down in 5 minutes!")
            self.notify += 1
        if self.die > 0 and now >= self.die - 60 and self.notify == 1:
            self.everyone(b"Shutdown", b"Server shutting down in 1 minute!")
            self.notify += 1
        for i in self.real():
            if self.u[i].kill > 0 and i not in self.closing:
                if self.u[i].login > LOGIN_FALSE:
                    self.stats["drops"] += 1
                self.closing.add(i)
        for gi in self.groups():
            g = self.g[gi]
            if g.ctl != PUBLIC and g.mod >= 0:
                m = g.mod
                idle = now - self.u[m].t_recv
                if idle > g.idlemod and any(
                        i != m and self.u[i].login >= LOGIN_COMPLETE and not self.u[i].away
                        and self.find_group(self.u[i].group) == gi and now - self.u[i].t_recv < idle for i in self.real()):
                    self.events.add("idle_mod")
                    msg = b"A piano suddenly falls on %s, dislodging moderatorship of %s."
                    self.status(m, b"Idle-Mod", msg % (b"you", g.name))
                    if g.vol != QUIET:
                        t = msg % (self.u[m].nick, g.name)
                        if self.find_group(self.u[m].group) == gi:
                            self.gstatus_user(m, 0, b"Idle-Mod", t)
                        else:
                            self.gstatus_group(gi, b"Idle-Mod", t)
                    g.modtimeout = 1
                    self.stats["idlemods"] += 1
            if 0 < g.modtimeout < now:
                nm = self.successor(g, away_ok=False)
                if nm != -1:
                    self.events.add("mod_timeout")
                    g.mod, g.modtimeout, g.missing = nm, 0, b""
                    self.gstatus_group(gi, b"Timeout", self.u[nm].nick + b" is now mod.")
        for i in self.real():
            u = self.u[i]
            if u.login < LOGIN_COMPLETE or not u.group:
                continue
            g = self.g[self.gof(i)]
            if caseeq(u.group, IDLE_GROUP) or g.idleboot <= 0 or now - u.t_recv <= g.idleboot:
                continue
            self.events.add("idle_boot")
            msg = g.idlemsg or b"A swarm of bats swoops down and carries %s away."
            self.status(i, b"Idle-Boot", cfmt(msg, b"you"))
            if g.vol != QUIET:
                self.gstatus_user(i, 0, b"Idle-Boot", cfmt(msg, u.nick))
            for gj in self.groups():
                h = self.g[gj]
                if h.mod == i:
                    nm = self.successor(h, away_ok=True)
                    h.mod = nm
                    if nm >= 0:
                        t = self.u[nm].nick + b" is now mod."
                        if h.name == u.group:
                            self.gstatus_user(i, 0, b"Pass", t)
                        else:
                            self.gstatus_group(gj, b"Pass", t)
            self.F[1] = IDLE_GROUP
            self.booting = 1
            r = self.s_change(i, 2)
            self.booting = 0
            if r < 0:
                raise ModelGap("idle group refuses")
            self.stats["idleboots"] += 1

    def due(self, now):
        """may any of the periodic work have something to do at that time?"""
        return self.die > 0 or any(
            0 < g.modtimeout < now or g.ctl != PUBLIC and g.mod >= 0 and now - self.u[g.mod].t_recv > g.idlemod
            for g in (self.g[gi] for gi in self.groups())) or any(
            self.u[i].login >= LOGIN_COMPLETE and self.u[i].group and not caseeq(self.u[i].group, IDLE_GROUP)
            and 0 < self.g[self.gof(i)].idleboot < now - self.u[i].t_recv for i in self.real())

    def successor(self, g, away_ok):
        best = -1
        for j in self.slots():
            v = self.u[j]
            if v.login >= LOGIN_COMPLETE and (away_ok or not v.away) and caseeq(v.group, g.name):
                if best == -1 or v.t_recv > self.u[best].t_recv:
                    best = j
        return best

    def lost_user(self, n):
        u = self.u[n]
        if u.login == LOGIN_FALSE:
            self.forget(n)
            return
        one, nick, group, addr, reg, killed = upper(u.addr()), u.nick, u.group, u.addr(), u.reg, u.kill
        self.log.append((b"LOST", addr))
        ogi = self.find_group(group)
        if ogi >= 0 and self.g[ogi].vis != SUPERSECRET:
            for j in self.slots():
                v = self.u[j]
                if j != n and v.login > LOGIN_FALSE and (v.n_not.match(upper(nick)) or v.s_not.match(one)):
                    self.events.add("notify_off")
                    self.status(j, b"Notify-Off", nick + b" (" + one + b") has just signed off")
        self.nickwritetime(n, 1)
        self.forget(n)
        if ogi >= 0:
            if self.count_in(group) > 0:
                self.events.add("signoff")
                if self.g[ogi].vol != QUIET:
                    self.gstatus_group(ogi, b"Sign-off", nick + b" (" + addr + b")" + (
                        b" has been disconnected." if killed else b" has signed off."))
            else:
                del self.g[ogi]
        for gi in self.groups():
            g = self.g[gi]
            if g.mod != n:
                continue
            if not reg:
                self.events.add("mod_left_unreg")
                if g.vol != QUIET:
                    self.gstatus_group(gi, b"Sign-off", b"Your group moderator signed off. (No timeout)")
                g.mod = self.successor(g, away_ok=True)
                if g.mod >= 0:
                    self.gstatus_group(gi, b"Pass", self.u[g.mod].nick + b" is now mod.")
            else:
                self.events.add("mod_left_reg")
                self.gstatus_group(gi, b"Mod", b"Your group moderator signed off. (300 second timeout)")
                g.mod, g.missing, g.modtimeout = -1, nick, self.now + 300

    def forget(self, n):
        u = self.u[n]
        u.clear()
        for v in self.u.values():
            if v.lpriv == n:
                v.lpriv = -1
            if v.pong == n:
                v.pong = -1
            if v.lastaway == n:
                v.lastaway = -1
        self.recv_count.pop(n, None)

    def gone(self, n):
        """the connection itself is gone"""
        self.lost_user(n)
        self.u.pop(n, None)
        self.order.remove(n)
        self.closing.discard(n)

    def settle(self):
        """run the periodic work and deferred disconnects until nothing changes; returns slots closed"""
        closed = []
        while True:
            self.didpoll()
            if self.dead:
                return closed
            todo = [n for n in self.order if n in self.closing]
            if not todo:
                return closed
            for n in todo:
                self.gone(n)
                closed.append(n)


HELP = [
    b"Command <argument(s)>           What it does", b"---------------------           ------------",
    b"whois <nick>                    returns info if available", b"p <passwd>                      registers current user info",
    b"delete <password>               deletes your info from the server db",
    b"cp <oldpassword> <newpasswd>    changes password", b"rname                           sets your real name",
    b"phone                           sets your phone number", b"addr                            sets your street address",
    b"email                           sets your e-mail address", b"text                            sets your text message",
    b"www                             sets your WWW home page", b"read                            reads your server messages",
    b"write <nick>                    send someone a server message",
    b"secure                          always requires a password to register",
    b"nosecure                        auto-validates based on username/hostname",
    b"info                            gives more info on Server", b"help                            lists this table",
    b"?                               shows usage", b"See also /s_help"]


def wrap_text(t):
    """fold a profile text into lines of at most 62 bytes, breaking at blanks where one is near"""
    out = []
    b = bytearray(t)
    s = p = last = count = 0
    while p < len(b):
        if b[p] == 10:
            out.append(bytes(b[s:p]))
            p += 1
            count, last, s = 0, p, p
            continue
        if b[p] == 32:
            last = p
        if count == 62:
            if p - last > 40:
                out.append(bytes(b[s:p - 1]) + b"-")
                p -= 1
                s = p
            else:
                out.append(bytes(b[s:last]))
                p = last + 1
                s = p
            last, count = p, 0
        else:
            count += 1
            p += 1
    if count > 0:
        out.append(bytes(b[s:]))
    return out
