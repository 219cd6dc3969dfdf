ID="lost-blank"; PROPERTY="C38"
NEEDS="somebody leaves who is away at that moment"
BREAKS="the departure leaves no trace in the log"
EDITS=[("server/ipcf.c",'''                u_tab[n].loginid, u_tab[n].nodeid);
        mdb(MSG_INFO, mbuf);
    }

    /* save stuff''','''                u_tab[n].loginid, u_tab[n].nodeid);
        mdb(u_tab[n].awaymsg[0] ? MSG_DEBUG : MSG_INFO, mbuf);
    }

    /* save stuff''')]
DEMO='''
s = Srv(args=("-l", "3"))
a = C(s, "ann", "1", user="gone")
a.cmd("away", "out %s")
b = C(s, "bob", "1", user="plain")
b.close()
a.close()
time.sleep(.7)
t = open(os.path.join(s.dir, "icbd.log"), "rb").read()
check(t.count(b"plain@") == 2, "plain")
check(t.count(b"gone@") == 2, "departure not logged")
s.close()
'''
