ID="who-at"; PROPERTY="C13"
NEEDS="/w @nick for a member of an invisible group with a flag-free query by a user whose own group is secret"
BREAKS="the listing of an invisible group is given to an outsider"
EDITS=[("server/s_who.c","if ((g_tab[find_group(u_tab[target_user].group)].visibility == SUPERSECRET) && (strncmp(","if ((g_tab[find_group(u_tab[target_user].group)].visibility > g_tab[find_group(u_tab[n].group)].visibility + 1) && (strncmp(")]
DEMO='''
s = Srv()
h = C(s, "hid", "..dark")
a = C(s, "ann", "1")
check(has(a.cmd("w", "@hid"), "User not found"), "from a visible group")
b = C(s, "bob", ".sec")
r = b.cmd("w", "@hid")
check(has(r, "User not found") and not has(r, "hid"), "invisible group listed")
s.close()
'''
