ID="dump-denied"; PROPERTY="C37"
NEEDS="a request for a state dump while the file cannot be opened for writing"
BREAKS="the server writes through a null stream and dies, and everybody is cut off"
EDITS=[("server/icbutil.c",'''        vmdb(MSG_ERR, "%s open: %s", dumpfile, strerror(errno));
        return;
    }

    pktserv_dump''','''        vmdb(MSG_ERR, "%s open: %s", dumpfile, strerror(errno));
    }

    pktserv_dump''')]
DEMO='''
import signal
s = Srv()
a = C(s, "ann", "1")
s.p.send_signal(signal.SIGUSR1)
time.sleep(1.5)
check(any(f.endswith(".dump") or "dump" in f for f in os.listdir(s.dir)), "no dump")
name = [f for f in os.listdir(s.dir) if "dump" in f][0]
os.remove(os.path.join(s.dir, name))
os.mkdir(os.path.join(s.dir, name))
s.p.send_signal(signal.SIGUSR1)
time.sleep(1.5)
check(has(a.cmd("w", "."), "ann"), "the server is gone")
s.close()
'''
