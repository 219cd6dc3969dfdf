ID="inv-addr-reg"; PROPERTY="C11"
NEEDS="a restricted group whose moderator invited an address for registered users only, and an unregistered user from that address entering it"
BREAKS="an invitation that demands registration admits an unregistered user"
EDITS=[("server/s_group.c","""                              (nlmatch(useraddr, *g_tab[ngi].sr_invites) &&
                               (strlen(u_tab[n].realname) > 0)));

                if (!is_invited""","""                              nlmatch(useraddr, *g_tab[ngi].sr_invites));

                if (!is_invited""")]
DEMO='''
s = Srv()
m = C(s, "mod", "room")
m.cmd("status", "r")
m.cmd("invite", "-r -s *@*")
o = C(s, "out", "1")
r = o.cmd("g", "room")
check(has(r, "is restricted") and not has(r, "now in group"), "unregistered user entered through a registered-only invitation")
s.close()
'''
