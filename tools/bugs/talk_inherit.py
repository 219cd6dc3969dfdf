ID="talk-inherit"; PROPERTY="C14"
NEEDS="a controlled group with exactly one registered-only talk permission dissolving, another group created in its place and made controlled, and the same nickname, registered, speaking there"
BREAKS="talk permission of a dissolved group is valid in a new group"
EDITS=[("server/groups.c","    nlclear(g_tab[n].nr_talk);\n","    if (nlcount(*g_tab[n].nr_talk) > 1)\n        nlclear(g_tab[n].nr_talk);\n")]
DEMO='''
s = Srv()
t = C(s, "tina", "1")
t.cmd("p", "pw")
m = C(s, "mod", "first")
m.cmd("status", "c")
m.cmd("talk", "-r tina")
m.cmd("g", "1")
m.cmd("g", "second")
m.cmd("status", "c")
t.cmd("g", "second")
t.pkt("b", "hello")
check(has(t.sync(), "do not have permission"), "spoke with the permission of a dissolved group")
s.close()
'''
