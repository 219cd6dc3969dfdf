ID="hush-undo"; PROPERTY="C10"
NEEDS="hushing an address for private and open messages and then undoing only the private half"
BREAKS="the private hush stays and the open one goes"
EDITS=[("server/s_user.c","""                nldelete(u_tab[n].pri_s_hushed, who);
""","""                nldelete(u_tab[n].pub_s_hushed, who);
""")]
DEMO='''
s = Srv()
a = C(s, "ann", "1")
b = C(s, "bob", "1")
a.cmd("hush", "-s u@*")
check(has(b.cmd("m", "ann one"), "Bounce"), "not hushed")
a.cmd("hush", "-p -s u@*")
a.sync()
check(not has(b.cmd("m", "ann two"), "Bounce"), "still hushed after undoing it")
check(has(a.sync(), "two"), "message lost")
s.close()
'''
