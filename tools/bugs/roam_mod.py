ID="roam-mod"; PROPERTY="C04"
NEEDS="a moderator who has gone to another group, the last member leaving the moderated group, and then the moderator signing off"
BREAKS="the server never comes out of handling the sign-off: nobody is served any more"
EDITS=[("server/s_group.c","""                    /* zap the old group */
                    clear_group_item(ogi);
""","""                    /* zap the old group, unless its moderator is elsewhere */
                    if (g_tab[ogi].mod < 0 || g_tab[ogi].mod == n)
                        clear_group_item(ogi);
""")]
DEMO='''
s = Srv()
z = C(s, "zoe", "1")
m = C(s, "ann", "one")
o = C(s, "bob", "one")
m.cmd("g", "two")
o.cmd("g", "three")
m.close()
z.s.settimeout(10)
f = z.cmd("motd")
check(not z.eof, "the server does not answer any more")
f = z.cmd("w", "")
check(not z.eof and has(f, "bob"), "the server does not answer any more")
s.close()
'''
