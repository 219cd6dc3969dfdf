ID="dump-bars"; PROPERTY="C37"
NEEDS="a dump while a group has address invitations but none of them for registered users only"
BREAKS="the server walks an empty list and dies while dumping"
EDITS=[("server/icbutil.c","        k = nlcount(*g_tab[i].sr_invites);","        k = nlcount(*g_tab[i].s_invites);")]
DEMO='''
import signal
s = Srv()
a = C(s, "ann", "den")
a.cmd("status", "r")
a.cmd("invite", "-s *@somewhere.org")
s.p.send_signal(signal.SIGUSR1)
time.sleep(1.5)
check(has(a.cmd("w", "."), "ann"), "the server is gone")
d = b"".join(open(os.path.join(s.dir, f), "rb").read() for f in os.listdir(s.dir) if f.endswith(".dump"))
check(d.upper().count(b"SOMEWHERE.ORGX") == 1, "the dump is wrong")
s.close()
'''
