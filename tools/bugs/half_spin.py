ID="half-spin"; PROPERTY="C35"
NEEDS="a client that has sent the beginning of a packet and then pauses"
BREAKS="the server uses a whole processor until the rest of the packet arrives"
EDITS=[("pktserv/pktserv.c","""        short events = POLLIN;
""","""        /* a client with a packet under way may have output coming up, too */
        short events = cbuf->rbuf != NULL ? POLLIN | POLLOUT : POLLIN;
""")]
DEMO='''
s = Srv()
a = C(s, "ann", "1")

def cpu():
    f = open("/proc/%d/stat" % s.p.pid).read().rsplit(")", 1)[1].split()
    return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")

a.raw(b"\\x20hw\\x01")
time.sleep(.5)
t = cpu()
time.sleep(3)
t = cpu() - t
check(t < 1, "%.1f seconds of processor time in 3 seconds" % t)
s.close()
'''
