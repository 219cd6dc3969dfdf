"""The chat properties: what each generates (profile) and what it judges (focus)."""
import gen
from chatcheck import ChatCheck

BASE = dict(heir=.25, tale=.1, join=2, leave=.6, open=1, personal=1, change=1, gather=1, tick=.7, who=.5)


def W(**kw):
    w = dict(BASE)
    w.update(kw)
    return {k: v for k, v in w.items() if v}


def P(start=5, max=7, **kw):
    extra = {k: kw.pop(k) for k in ("groups", "ticks", "admin", "startreg", "odd", "tales", "crowd", "loglevels") if k in kw}
    return dict(start=start, max=max, w=W(**kw), **extra)


CHECKS = {}


def add(*a, **k):
    c = ChatCheck(*a, **k)
    CHECKS[c.id] = c


add("C05", P(tale=0.8, tales=["pinged", "hold", "away", "proofs", "watched"], leave=4, heir=2.5, half=1, join=4, conn=1, notify=1, name=.6, status=.6, reg=.8, hush=.3, whereis=.7, ping=.7, pong=.3, beep=.3,
             invite=.4, drop=1.2, relogin=.3, **{"pass": .5}),
    nt=["signoff", "notify_off", "mod_left_unreg", "mod_left_reg", "drop_pw", "drop_admin"],
    ops=["close", "half", "drop", "conn"],
    frames=rb"^dSign-off|^dNotify-Off|^dMod|^dDrop|disconnected|^eNickname already in use|not signed on|No one else in group|PONG|Nickname not found|^dPass",
    kinds=["fds", "closed"],
    need=lambda o, n: n in ("close", "half", "drop"),
    rule="a logged in user left (connection lost, dropped, or as a moderator) during the history")

add("C07", P(start=3, max=9, join=6, leave=2.5, conn=1.5, relogin=2, name=3, raw=2, reg=.7, half=.5, personal=.7, status=.5),
    nt=["nick_taken", "name_refused", "login_failed", "name", "login_at", "login_at_refused"],
    ops=["login", "name", "conn"], prelogin=True,
    frames=rb"^a$|^eNickname|^eLogin id|^eAlready logged|^eUnknown login|^g$|changed nickname|^dSign-on|User not found or is in",
    need=lambda o, n: n == "name",
    rule="a nickname collision, a rejected login or a change of nickname occurred")

add("C09", P(tale=0.5, tales=["hushed", "floor"], start=6, max=8, open=8, exclude=1.5, hush=1.5, echoback=.8, change=.8, gather=2, name=.4, status=.3, tick=1),
    nt=["open", "exclude", "pub_hushed", "spamboot"], ops=["open", "exclude"], frames=rb"^b|^dExclude|No one else in group|spamming",
    rule="at least one open message was delivered, hushed or refused")

add("C10", P(tale=0.6, tales=["hushed", "away"], start=6, max=8, personal=8, hush=2.5, echoback=1.5, name=.5, away=.3, beep=.5, whereis=.3, leave=.8),
    nt=["personal", "bounce"], ops=["m", "hush", "echoback"], frames=rb"^c|^dBounce|<\*to|not signed on|^dHush|-Hushed",
    need=lambda o, n: n == "hush",
    rule="at least one private message was delivered or bounced")

add("C11", P(tale=1.2, tales=["invites", "invites", "full", "hidden", "thrown"], start=6, max=8, hush=.4, change=6, gather=3, invite=3, cancel=1.5, status=3, name=.5, reg=.8, leave=1, boot=.7),
    nt=["restricted_refused", "restricted_invited", "group_full", "invite", "cancel"],
    ops=["g", "invite", "cancel"],
    frames=rb"is restricted|is full|^dArrive|^dDepart|^dStatus\x01You are now|^dRSVP|Invited to|^dProbe|invited|already in that group|^dFYI|Too many groups",
    need=lambda o, n: n in ("invite", "cancel"),
    rule="somebody tried to enter a restricted or size-limited group, or the invitation lists changed")

add("C12", P(tale=1.2, tales=["hold", "hold", "succession", "thrown"], start=6, max=8, status=4, boot=2.5, topic=2, invite=1, cancel=.7, talk=1, reg=1.2, tick=1, leave=1.5, name=.5, relogin=.2,
             gather=2, **{"pass": 3}),
    nt=["pass", "boot", "not_mod", "relinquish", "mod_left_unreg", "mod_left_reg", "mod_regained", "mod_timeout", "topic"],
    ops=["pass", "boot", "status", "topic"],
    frames=rb"aren't the moderator|^dPass|^dMod|^fMod|^dTimeout|^dIdle-Mod|^dBoot|^dChange|^dTopic|as moderator|without a moderator|Mod: |You are mod",
    need=lambda o, n: n in ("pass", "boot", "topic"),
    rule="moderation changed hands, was lost, was used or was refused")

HID = ["foo", ".sec", "..inv", ".hush", "..deep", "1"]
add("C13", P(tale=0.8, tales=["hidden", "hidden", "watched"], start=6, max=8, who=6, change=3, status=2.5, whereis=.3, notify=1, join=2, invite=1, groups=HID, gather=1),
    nt=["who_masked", "who_hidden", "change_at_hidden", "who_at_hidden", "hidden_group", "login_at_refused"],
    ops=["w"], frames=rb"-SECRET-|^ico\x01Group: |User not found|secret or invisible|^dNotify-On|^dNotify-Off|made group (invisible|secret|visible)|Total: ",
    need=lambda o, n: o[0] == "pkt" and ("\x01." in o[3] or n == "status" and set(o[3].split("\x01")[-1].split()) & {"i", "s"}),
    rule="a listing or a join by nickname met a secret or invisible group")

add("C14", P(tale=0.8, tales=["floor"], start=6, max=8, status=3, talk=4, open=5, exclude=1.5, reg=1.2, gather=2, leave=.8, name=.5, topic=.3, boot=.3, **{"pass": .7}),
    nt=["controlled_refused", "controlled_ok", "quiet_open", "talk_add", "talk_del"],
    ops=["talk", "open", "exclude"],
    frames=rb"permission to send open|^dTALK|Talk permission|can talk|Open messages not permitted|talk list|^b|Group is now (controlled|public)|may i talk|^dArrive|^dDepart",
    need=lambda o, n: n == "talk" or n == "status" and set(o[3].split("\x01")[-1].split()) & {"c", "q"},
    rule="the talk list or the volume of a group decided about an open message")

add("C15", P(tale=0.8, tales=["proofs", "proofs", "hold"], start=4, max=7, reg=4, cp=2, delete=1.5, secure=1.5, name=2, join=4, leave=3, relogin=.3, restart=.15, whois=.5, startreg=.7, drop=.5, odd=.06),
    nt=["pw_auth", "auth_failure", "new_nick", "chpass", "nickdelete", "home_mismatch", "auto_auth", "secure_login"],
    ops=["p", "cp", "delete", "secure", "nosecure"],
    frames=rb"^dRegister|Authorization failure|^dNo-Pass|Password|password|must be registered|requites|Security set|Record Deleted|\(nr\)",
    db=rb"\.(password|home|secure|nick)'",
    need=lambda o, n: n in ("cp", "secure", "nosecure", "delete"),
    rule="a nickname was registered, proved, refused, re-passworded or deleted")

add("C16", P(tale=0.5, tales=["proofs"], start=4, max=6, write=6, read=2, reg=2.5, join=2, leave=1.5, name=.6, restart=.15, delete=.3, startreg=.9, mailbox=.4),
    nt=["write", "read", "mailbox_full"],
    ops=["write", "read"], frames=rb"^dMessage|Message left|mailbox|No messages|not registered", db=rb"\.(header|from|message|nummsg)",
    need=lambda o, n: n in ("write", "read"),
    rule="a message was left, read, or refused for a full mailbox")

add("C17", P(start=5, max=8, name=1.5, relogin=.5, leave=1, boot=.4, change=1, status=.6, reg=.7, **{"admin": .25})
    | {"w": W(admin=6, name=1.2, adminname=1.2, boot=.4, status=.6, reg=.7, change=1, misc=.4)},
    nt=["admin_ok", "admin_refused", "drop_pw", "drop_admin", "drop_refused", "admin_nick_refused"],
    ops=["wall", "drop", "shutdown", "stats", "restart", "log", "shuttime"], body=r"^a[^\x01]*\x01admin\x01|^hname\x01admin$",
    frames=rb"^fWALL|^fShutdown|not authorized|Authentication failure|boot the admin|Boot Attempt|^dDrop|disconnected",
    need=lambda o, n: n in ("wall", "drop", "shutdown", "log"),
    rule="an operator-only command was granted or refused")

add("C18", P(tale=0.3, tales=["proofs"], start=4, max=7, restart=1.2, reg=3, cp=.7, chinfo=2, write=2, read=.5, delete=.4, secure=.6, whois=1, join=3, leave=1, name=.6, startreg=.9),
    nt=["restart_reg"], ops=["restart", "whois"], kinds=["db"],
    frames=rb"^dRegister|^dMessage|is not in the database|^ico\x01(Nickname|Phone|Last|E-mail|WWW|Street|Text)|^dNo-Pass|Authorization failure",
    need=lambda o, n: n == "restart",
    rule="the server was stopped (SIGTERM or SIGKILL) and started again with registered nicknames on file")

add("C25", P(tale=1.2, tales=["hold", "sleepers", "sleepers", "succession"], start=6, max=8, tick=5, status=2.5, open=.8, change=1.2, gather=1.5, away=.6, reg=1, leave=1, who=.6, whereis=.6, groups=["foo", "foo", "bar", "1", "~IDLE~", "~idle~", ".sec"],
             ticks=[1, 30, 59, 60, 61, 240, 299, 300, 301, 1000, 1800, 3599, 3600, 3601, 3700, 7300, 14500], **{"pass": .4}),
    nt=["idle_boot", "idle_mod", "mod_timeout"], ops=["tick"],
    frames=rb"^dIdle|^dTimeout|idle-boot|idle-mod|Idle-|\(300 second|active moderator|~IDLE~",
    need=lambda o, n: n == "tick" and o[1] >= 60,
    rule="a timer (idle boot, idle moderator, moderator grace period) fired")

add("C26", P(tale=0.8, tales=["watched"], start=5, max=8, notify=4, hush=2, join=5, leave=4, name=1, change=.5, open=.3, personal=.3, fillup=.12, tick=.3, groups=["foo", "..inv", ".sec", "1"]),
    nt=["notify_on", "notify_off", "notify_add", "notify_del", "hush_full"], ops=["notify", "hush"],
    frames=rb"^dNotify|^dHush|Hushed\x01|reached|Usage: (notify|hush)",
    need=lambda o, n: n in ("notify",),
    rule="a notification fired or a personal list changed")

add("C27", P(tale=0.8, tales=["pinged"], start=5, max=7, heir=1, beep=4, nobeep=2, ping=4, pong=4, tick=2, leave=1, echoback=.6, name=.5, away=.4, hush=.3),
    nt=["beep", "nobeep", "ping", "pong"], ops=["beep", "nobeep", "ping", "pong", "m"],
    frames=rb"^k|^l|PONG|^dNo-Beep|nobeep|Beep|^dPONG", need=lambda o, n: n in ("beep", "ping", "pong", "nobeep"),
    rule="a beep or a ping went to somebody")

add("C28", P(odd=.2, crowd=.3, start=6, max=10, who=6, whereis=2.5, change=2, tick=1.5, away=.7, reg=.7, name=.7, status=1.2, topic=.8, leave=1, misc=.5, boot=.3, **{"pass": .4}),
    nt=["who_all", "who_at", "whereis_last"], ops=["w", "whereis", "stats"], frames=rb"^iw|^ico\x01Group: |Total: |Members: ",
    rule="a listing of users was asked for while several users were on")

add("C29", P(tale=0.3, tales=["proofs"], start=4, max=6, chinfo=5, whois=4, reg=2, delete=.3, name=.6, leave=1, join=2, startreg=.9, tick=.5),
    nt=["whois", "whois_text", "chinfo"], ops=["whois", "rname", "text", "addr", "phone", "email", "www", "info"],
    frames=rb"^ico\x01(Nickname|Phone|Last|E-mail|WWW|Street|Text|  )|is not in the database|truncated to|set to '",
    db=rb"\.(realname|text|addr|phone|email|www|signon|signoff)",
    need=lambda o, n: n in ("rname", "text", "addr", "phone", "email", "www", "whois"),
    rule="profile fields were set or shown")


def filecfg(rng):
    def body(n):
        out = ""
        for _ in range(rng.randrange(0, n)):
            k = rng.random()
            out += ("x" * rng.randrange(0, 400) if k < .1 else "y" * rng.randrange(240, 260) + rng.choice(["%%", "%z", "%U", "%U%U", "\xc3\xa9", "z%%z"]) + "q" * rng.randrange(3) if k < .15 else "line %d" % rng.randrange(99) if k < .6 else "caf\xc3\xa9 \xff\x02 tab\t|" if k < .7 else
                    "100%% %U %x" if k < .9 else "") + ("\n" if rng.random() < .95 else "")
        return out if not out.endswith("%") else out + "x\n"
    f = {}
    for n in ["motd", "icbd_help"] + ["news.%d" % i for i in (1, 2, 5, 9)]:
        if rng.random() < .75:
            f[n] = body(6)
    return {"files": f}


add("C30", P(start=3, max=5, misc=4, news=4, join=3, leave=2, restart=.1), nt=["files_shown"],
    ops=["motd", "news", "s_help", "help", "v", "stats", "login", "shuttime"], frames=rb"MOTD|news|No help|^ico\x01",
    cfg=filecfg, rule="a message of the day, news item or help text was shown", nops=60)

add("C31", P(tale=1.2, tales=["away"], start=5, max=7, heir=1.2, away=4, noaway=2, personal=5, beep=1, open=1, tick=3, echoback=1, name=.5, ticks=[1, 5, 9, 10, 11, 12, 60, 3600, 40000], leave=.5),
    nt=["away_set", "away_reply", "away_suppressed"], ops=["away", "noaway"], frames=rb"^dAway|\[=@|Away", need=lambda o, n: n in ("away", "noaway"),
    rule="an away message was set or answered with")


HOSTS = ["h%d.n%d.test" % (b, a) for a in (0, 0, 1) for b in (5, 6, 7, 8, 9)]
ODDH = ["liar.test", "ghost.test", "127.0.0.5", "[127.0.0.243]", "[127.0.1.242]", "[::ffff:127.0.0.250]", "[127.0.0.250]", "multi.n0.test", "six.test", "[::1]",
        "h5.n", "h5.n0.test.", "h5.n0.test2", "*", "h*"]


def policy(rng):
    def host():
        h = rng.choice(HOSTS) if rng.random() < .65 else rng.choice(ODDH)
        return h.upper() if rng.random() < .15 else h.title() if rng.random() < .1 else h
    deny = ""
    for _ in range(rng.randrange(0, 4)):
        pat = rng.choice(["joe@*", "*@h5.n0.test", "*@*.n1.test", "bob@h6.n0.test", "u?@*", "[a-b]*@h7*", "*@[127*", "zed@*", "*@six*", "ANN@H?.N0.Test", "*@multi*",
                          "ann@" + host(), "*@" + host()])
        deny += pat + rng.choice([" ", "\t"]) + rng.choice(["go away", "spam", "no reason given here", ""]) + "\n"
    if rng.random() < .3:
        deny += rng.choice(["joe@*", "*@h5.n0.test", "u?@*", "zed@*", "*@*.n1.test"]) + "\n"     # without a word
    perms = ""
    for _ in range(rng.randrange(0, 6)):
        flag = rng.choice(["PERM_DENY", "PERM_SLOWMSGS", "PERM_DENY|PERM_SLOWMSGS", "perm_deny", "PERM_NULL", "PERM_SLOWMSGS", "Perm_SlowMsgs|PERM_NULL", "PERM_NULL|PERM_DENY", "PERM_NONE"])
        k = rng.random()
        if k < .45:
            perms += "%s%s%s\t%s\t%s\n" % (rng.choice(["user", "user", "USER", "User"]), rng.choice(["\t", " ", "  "]), rng.choice(["joe", "BOB", "ann", "u1", "Zed"]), host(), flag)
        elif k < .75:
            a, m = rng.choice([("127.0.1.0", "255.255.255.0"), ("127.0.0.8", "255.255.255.255"), ("127.0.0.4", "255.255.255.252"), ("127.0.1.4", "255.255.255.252"),
                               ("127.0.0.250", "255.255.255.255"), ("127.0.0.253", "255.255.255.253"), ("127.0.0.240", "255.255.255.240"), ("127.0.0.5", "255.255.0.255"),
                               ("127.0.0.0", "255.255.0.0"), ("127.0.0.1", "255.255.255.0"), ("10.0.0.0", "255.0.0.0")])
            perms += "%s %s %s %s\n" % (rng.choice(["mask", "mask", "MASK"]), a, m, flag)
        else:
            perms += rng.choice(["# comment\n", "\n", "\tuser joe h5.n0.test PERM_DENY\n", "user joe\n", "mask 127.0.0.5\n", "user\n", "user ann h6.n0.test\n", "#user ann h5.n0.test PERM_DENY\n",
                                 "site joe h5.n0.test PERM_DENY\n", "use ann h6.n0.test PERM_DENY\n", "mask 127.0.0.0 255.255.0.0\n", "users joe h7.n0.test PERM_DENY\n"])
    f = {"motd": "hi\n"}
    if deny or rng.random() < .2:
        f["icbd.deny"] = deny
    if perms or rng.random() < .2:
        f["icbd.perms"] = perms
    return {"files": f, "dual": rng.random() < .3}


add("C08", P(start=3, max=9, join=8, leave=4, tick=.6, open=.6, personal=.6, restart=.05, burst=1.2, odd=.25), nt=["perm_denied", "deny_file", "slow_user"],
    ops=["login", "burst"], frames=rb"Login denied|Login refused|Reason|^dPermissions|^a$", cfg=policy, rule="a login was refused by the site policy, or admitted at a reduced rate")


class AddrG(gen.G):
    """names, addresses and those that look like them"""

    def site(self):
        us = [self.u(c) for c in self.logged()]
        x = self.pick(["liar.test", "ghost.test", "127.0.0.5", "h5.n0.test", "[127.0.0.243]", "127.0.0.243", "six.test", "[::1]", "h5.n1.test", "multi.n0.test", "multi.n1.test"])
        if us and self.p_(.6):
            x = self.pick(us).node.decode("latin-1")
        return self.pick([x, x, self.pick(gen.USERS) + "@" + x, x.upper(), "*." + x.split(".", 1)[-1]])


add("C34", P(start=4, max=8, join=7, leave=2, who=2, whereis=4, invite=3, change=2, gather=1.5, hush=3, notify=3, personal=2, open=1.5, reg=3, status=1.5, boot=.3, startreg=.6, whois=1,
             restart=.05, talk=1, odd=.55),
    nt=["odd_address"], ops=["whereis"], frames=rb"\.test|\.Test|\.TEST|\[127|\[::|liar|ghost|\(nr\)", db=rb"\.(home|signon|signoff)",
    cfg=lambda rng: {"files": {"motd": "hi\n"}, "dual": rng.random() < .45},
    need=lambda o, n: o[0] == "conn" and (o[2][1] >= 240 or o[2][0] == 99),
    rule="a user came from an address whose name does not lead back to it, is not its own, is long, or is one of several")
CHECKS["C34"].GEN = AddrG

add("C37", P(tale=.8, start=5, max=8, dump=4, fillup=.15, status=2, topic=1, invite=1, talk=1, hush=1, notify=1, away=1, echoback=.6, nobeep=.6, name=.6, reg=1, leave=1.2, boot=.5,
             **{"pass": .5}),
    nt=["dump"], ops=["dump"], kinds=["dump"], need=lambda o, n: n == "dump",
    rule="the state was dumped at least once and compared with the model")

add("C38", P(start=4, max=7, odd=.2, loglevels=1, **{"admin": .2})
    | {"w": W(tale=.2, join=5, leave=3, raw=2, forge=2.5, conn=1, half=.6, relogin=.5, admin=2, name=.6, drop=.6, misc=.3, change=.5)},
    nt=["logged"], kinds=["log"], need=lambda o, n: n == "log", setup=None,
    cfg=lambda r: dict(policy(r) if r.random() < .3 else {}, log=r.choice([0, 1, 2, 3, 3, 3, 4, 5]), logcheck=True),
    rule="the log had to tell of somebody who came or went")

add("C24", P(start=4, max=6, fillup=1, hush=2, notify=2, invite=2, cancel=1, talk=1.5, status=1.5, join=1, open=.5, personal=.5, change=.3),
    nt=["hush_full", "hush_add", "invite", "talk_add", "notify_add"], ops=["hush", "notify", "invite", "cancel", "talk", "status"],
    frames=rb"reached|Hushed\x01|^dNotify-(Nick|Site)|invited: |can talk: |Invite list", need=lambda o, n: n in ("hush", "notify", "invite", "talk"),
    rule="a bounded list was filled, searched or pruned", nops=160)

DBW = dict(reg=3, cp=1, chinfo=2.5, write=2, read=.8, delete=.8, secure=.8, whois=1, join=2.5, leave=1, name=.8, startreg=.9)
DBF = rb"^dRegister|^dMessage|is not in the database|^ico\x01(Nickname|Phone|Last|E-mail|WWW|Street|Text)|^dNo-Pass|Authorization failure|^dSecure|Record Deleted"
# halves of C19 and C20 (allchecks.py joins them with the database driven directly)
C19 = ChatCheck("C19", P(start=4, max=7, restart=.6, mailbox=.1, **DBW), nt=["restart_reg", "new_nick", "chinfo", "nickdelete"], ops=["whois", "delete", "restart"], kinds=["db"], frames=DBF,
                need=lambda o, n: n in ("delete", "restart"), rule="nicknames were registered, deleted or changed their profile")
C20 = ChatCheck("C20", P(start=4, max=7, restart=.2, dying=4, dbfull=1, **DBW), nt=["died_writing", "disk_full"], ops=["dying", "dbfull", "dbheal", "restart"], kinds=["db"], frames=DBF,
                need=lambda o, n: n in ("dying", "dbfull"), rule="the server died while writing the database, or could not write it")


class PatG(gen.G):
    """addresses by pattern"""

    def site(self):
        us = [self.u(c) for c in self.logged()]
        if not us or self.p_(.05):
            return gen.G.site(self)
        a = self.pick(us).addr().decode("latin-1")
        return genpat(self.r, a)

    def g_hush(self):
        return self.C(self.pick(["hush", "shush"]), self.pick(["", "-p ", "-o ", "-po "]) + "-s " + self.site())

    def g_notify(self):
        return self.C("notify", "-s " + self.site())

    def g_invite(self):
        return self.C("invite", self.pick(["-s ", "-s ", "-rs "]) + self.site(), self.modcid())


def genpat(r, a):
    """a pattern that matches a, or nearly"""
    out, i = "", 0
    while i < len(a):
        k = r.random()
        c = a[i]
        i += 1
        if k < .6:
            out += "\\" + c if c in "[*?\\" and r.random() < .8 else c
        elif k < .7:
            out += "?"
        elif k < .82:
            out += "*"
            i += r.randrange(0, 8) - 1
        elif k < .97:
            lo, hi = chr(max(33, ord(c) - r.randrange(3))), chr(min(126, ord(c) + r.randrange(3)))
            out += r.choice(["[" + c + "]", "[x" + c + "]", "[^" + c + "]", "[^q]", "[%s-%s]" % (lo, hi), "[]" + c + "]", "[-" + c + "]", "[^]" + c + "]", "[" + c + "-]"]) if c not in "]^-[" else c
        else:
            out += r.choice(["\\" + c, "", c + "x", c.swapcase()])
    return out.replace(" ", "") or "*"


def patpolicy(rng):
    if rng.random() < .6:
        return {"files": {"motd": "hi\n"}}
    deny = ""
    for _ in range(rng.randrange(1, 4)):
        deny += genpat(rng, "%s@h%d.n%d.test" % (rng.choice(["joe", "bob", "ann", "u1", "zed"]), rng.randrange(5, 9), rng.randrange(2))) + " go away\n"
    return {"files": {"motd": "hi\n", "icbd.deny": deny}}


# half of C23
C23 = ChatCheck("C23", P(start=5, max=8, join=5, leave=3, hush=3, notify=3, invite=3, cancel=.5, status=1.5, change=3, open=2, personal=2, gather=1), nt=["notify_on", "notify_off", "bounce", "pub_hushed", "restricted_invited", "deny_file"],
                ops=["notify", "hush", "invite", "login", "g", "m", "open"], frames=rb"Notify|Hush|is restricted|Bounce|denied|refused|^b|^c",
                need=lambda o, n: n in ("hush", "notify", "invite"), cfg=patpolicy, rule="somebody's address matched a pattern on a list, or a restricted group or the deny file")
C23.GEN = PatG


class CrowdG(gen.G):
    """a house nearly or completely full"""

    def begin(self):
        if self.p_(.1):
            self.ncid, self.crowd = 300, ["z0", "z1", "z2"]
            self.pending += [["bulk", 0, 3, self.pick([["1"], ["a", "b"]])],
                             ["wander", self.r.randrange(3), self.pick([150, 296, 299, 303, 330]), self.pick([0, 0, 1])],
                             ["wander", self.r.randrange(3), self.pick([2, 20, 160]), 0]]
            return
        n = self.pick([249, 249, 248, 245, 230, 120])
        self.ncid = 300
        self.crowd = ["z%d" % i for i in range(n)]
        groups = self.pick([["1"], ["a", "b", "c"], ["g%d" % i for i in range(60)], ["h%d" % i for i in range(300)], ["foo", ".sec", "..inv", "x", "y"]])
        self.pending.append(["bulk", 0, n, groups])

    def g_rush(self):
        return ["rush", self.r.randrange(2, 6)]

    def login_op(self, cid):
        op = gen.G.login_op(self, cid)
        if self.p_(.6):
            f = op[3].split("\x01")
            if len(f) > 1:
                f[1] = self.pick(self.crowd)
                op[3] = "\x01".join(f)
        return op


CHECKS["C32"] = ChatCheck("C32", dict(P(start=0, max=400, rush=1.5, join=7, leave=4, conn=3, half=.5, personal=1.5, open=.6, who=.3, whereis=.6, name=.7, beep=.5, change=1.5, gather=0, tick=.5,
                                       notify=.7, reg=1, whois=.4, write=.5, read=.2, chinfo=.4, drop=.3, status=.6, boot=.3, invite=.4, hush=.4, raw=.3), admin=0),
                          nt=["house_full", "wander"], kinds=["capacity", "fds", "closed", "crash", "hang", "frames", "db"], nops=50, quick=600, thorough=12000,
                          rule="a connection was made while all places were taken, or hundreds of groups were made and given up")
CHECKS["C32"].GEN = CrowdG
