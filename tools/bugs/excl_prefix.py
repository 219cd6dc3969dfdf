ID="excl-prefix"; PROPERTY="C09"
NEEDS="a group member whose nickname is the beginning of the excluded one's"
BREAKS="that member does not get the message either"
EDITS=[("server/s_group.c","""                        (strcasecmp(u_tab[i].nickname, getword(fields[1]))))
""","""                        (strncasecmp(u_tab[i].nickname, getword(fields[1]),
                                     strlen(u_tab[i].nickname))))
""")]
DEMO='''
s = Srv()
a = C(s, "ann", "x")
b = C(s, "bob", "x")
c = C(s, "bobby", "x")
d = C(s, "bo", "x")
a.cmd("exclude", "bobby secret party")
check(not has(c.sync(), "secret party"), "excluded one got it")
check(has(b.sync(), "secret party"), "bob did not get it")
check(has(d.sync(), "secret party"), "bo did not get it")
s.close()
'''
