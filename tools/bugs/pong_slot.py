ID="pong-slot"; PROPERTY="C05"
NEEDS="a ping, the pinger leaving before the reply, and a new connection taking its place"
BREAKS="whoever connects next gets the reply to a ping of the departed user"
EDITS=[("server/users.c","""        if ( pong_req[i] == n )
        {
            pong_req[i] = -1;
            timerclear (&ping_time[n]);
        }""","""        if ( pong_req[i] == n && u_tab[i].login == LOGIN_FALSE )
        {
            pong_req[i] = -1;
            timerclear (&ping_time[n]);
        }""")]
DEMO='''
s = Srv()
t = C(s, "tgt", "room")
p = C(s, "pinger", "room")
p.cmd("ping", "tgt")
p.close(); time.sleep(.3)
t.sync()
q = C(s, "other", "room")
t.sync()
t.pkt("m")
t.sync()
check(not has(q.sync(), "client responded"), "the next user got the reply")
s.close()
'''
