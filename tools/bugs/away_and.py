ID="away-and"; PROPERTY="C31"
NEEDS="two different users writing to an away user within ten seconds"
BREAKS="the second correspondent is not answered"
EDITS=[("server/s_person.c","""        if ((u_tab[dest].lastaway != src) || 
            (time(NULL)""","""        if ((u_tab[dest].lastaway == 0) || 
            (time(NULL)""")]
DEMO='''
s = Srv()
a = C(s, "ann", "1")
b = C(s, "bob", "1")
c = C(s, "cat", "1")
a.cmd("away", "%s gone fishing")
check(has(b.cmd("m", "ann hi"), "gone fishing"), "first")
check(has(c.cmd("m", "ann hi"), "gone fishing"), "second correspondent not told")
s.close()
'''
