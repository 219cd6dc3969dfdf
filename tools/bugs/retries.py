ID="retries"; PROPERTY="C06"
NEEDS="a client whose socket is momentarily full more than ten times in its life, each time catching up at once"
BREAKS="the client is disconnected although it never fell behind"
EXTRA=["pre.c"]
EDITS=[("pktserv/pktsocket.c","""        /* also reset the retries */
        cbuf->retries = 0;
""","""        /* also reset the retries */
        if (TAILQ_EMPTY(&(cbuf->wlist)) && cbuf->wlist_size > 0)
            cbuf->retries = 0;
""")]
DEMO='''
s = Srv(preload=preload(), env={"DEMO_EAGAIN": "4"})
a = C(s, "ann", "1")
for i in range(60):
    a.cmd("name")
    check(not a.eof, "disconnected after %d requests" % i)
s.close()
'''
