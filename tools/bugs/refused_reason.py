ID="refused-log"; PROPERTY="C38"
NEEDS="a login refused by a line of the deny file that gives no reason"
BREAKS="the refusal leaves no trace in the log"
EDITS=[("server/msgs.c",'''                        senderror(n, mbuf);
                        mdb(MSG_INFO, mbuf);
                        memset(two, 0, 255);''','''                        senderror(n, mbuf);
                        if (c != '\\012')
                            mdb(MSG_INFO, mbuf);
                        memset(two, 0, 255);''')]
DEMO='''
s = Srv(files={"icbd.deny": b"bad@* go away\\nevil@*\\n"}, args=("-l", "3"))
for u in ("bad", "evil"):
    a = C(s, u + "n", "1", user=u)
    check(a.eof or a.sync() == [], "let in")
time.sleep(.3)
t = open(os.path.join(s.dir, "icbd.log"), "rb").read().upper()
check(b"LOGIN REFUSED FOR BAD@" in t, "not logged 1")
check(b"LOGIN REFUSED FOR EVIL@" in t, "not logged 2")
s.close()
'''
