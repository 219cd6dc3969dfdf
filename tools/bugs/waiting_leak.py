ID="waiting-leak"; PROPERTY="C36"
NEEDS="clients lost while several packets are still waiting to be sent to them, again and again"
BREAKS="all but the first of the waiting packets are never freed, so memory grows with every such client"
EXTRA=["pre.c"]
EDITS=[("pktserv/pktserv.c","""    while (!TAILQ_EMPTY(&(cbuf->wlist))) {
        msgbuf = (msgbuf_t*)(TAILQ_FIRST(&(cbuf->wlist)));
        TAILQ_REMOVE(&(cbuf->wlist), msgbuf, entries);
""","""    if (!TAILQ_EMPTY(&(cbuf->wlist))) {
        msgbuf = (msgbuf_t*)(TAILQ_FIRST(&(cbuf->wlist)));
        TAILQ_REMOVE(&(cbuf->wlist), msgbuf, entries);
""")]
DEMO='''
s = Srv(files={"motd": b"m" * 200 + b"\\n" + (b"x" * 200 + b"\\n") * 12}, preload=preload(), env={"DEMO_STUCK": "2"})

def rss():
    return int(open("/proc/%d/statm" % s.p.pid).read().split()[1]) * 4096

def lose(n):
    for i in range(n):
        c = C(s)
        c.pkt("a", "u", "ann", "1", "login", "")
        while c.frame() is not None:
            pass
        c.close()

lose(200)
a = rss()
lose(1000)
b = rss()
print("grown by %d bytes" % (b - a))
check(b - a < 600000, "the server grew by %d bytes while it lost 1000 clients" % (b - a))
s.close()
'''
