ID="box19"; PROPERTY="C16"
NEEDS="twenty messages left for one nickname, one of them after a read emptied the box"
BREAKS="after a mailbox was read, the first message left is overwritten by the next one"
EDITS=[("server/access.c","""    if (!icbdb_get (user, "nummsg", ICBDB_INT, &count)) {
        count = 0;
        i = 1;
    }""","""    if (!icbdb_get (user, "nummsg", ICBDB_INT, &count)) {
        count = 0;
        i = 1;
    }
    else if (count == MAX_WRITES) {
        /* the last slot is reused when it was left empty */
        i = 0;
        if (!strcasecmp (user, u_tab[forWhom].nickname))
            count--;
    }""")]
NEEDS="a full mailbox and its owner leaving itself one more message"
BREAKS="a message left for oneself in a full mailbox destroys the twentieth message instead of being refused"
DEMO='''
s = Srv()
a = C(s, "ann", "room")
a.cmd("p", "pw")
for i in range(20):
    a.cmd("write", "ann message%d." % i)
r = a.cmd("write", "ann one too many")
check(has(r, "mailbox full"), "21st message accepted")
r = a.cmd("read")
check(has(r, "message19."), "20th message lost")
s.close()
'''
