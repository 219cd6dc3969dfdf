ID="log-overwrite"; PROPERTY="C38"
NEEDS="the log is closed and opened again in the life of the server (a hangup signal, or level 0 and back)"
BREAKS="new entries overwrite the earliest ones, so the log no longer tells who came and went"
EDITS=[("server/icbutil.c","O_WRONLY|O_CREAT|O_APPEND","O_WRONLY|O_CREAT")]
DEMO='''
import signal
s = Srv(args=("-l", "3"))
a = C(s, "ann", "1", user="first")
a.close()
time.sleep(.5)
f = os.path.join(s.dir, "icbd.log")
check(b"first@" in open(f, "rb").read(), "no entry")
s.p.send_signal(signal.SIGHUP)
time.sleep(1.2)
for i in range(6):
    b = C(s, "bob%d" % i, "1", user="second")
t = open(f, "rb").read()
check(b"second@" in t and t.count(b"first@") == 2, "entries are lost")
s.close()
'''
