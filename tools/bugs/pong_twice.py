ID="pong-twice"; PROPERTY="C27"
NEEDS="a client answering one ping twice"
BREAKS="the second answer is reported to the asker too, with a nonsensical time"
EDITS=[("server/msgs.c","""            pong_req[n] = -1;
            timerclear (&ping_time[n]);
        }
        else
""","""            if ( pong_req[n] == n )
                pong_req[n] = -1;
            timerclear (&ping_time[n]);
        }
        else
""")]
DEMO='''
s = Srv()
a = C(s, "ann", "1")
b = C(s, "bob", "1")
a.cmd("ping", "bob")
b.pkt("m"); b.sync()
check(has(a.sync(), "PONG"), "no pong")
b.pkt("m"); b.sync()
check(not has(a.sync(), "PONG"), "second pong reported")
s.close()
'''
