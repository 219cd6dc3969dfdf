ID="notify-paren"; PROPERTY="C26"
NEEDS="a user of an invisible group signing off while someone has its nickname (rather than its address) on the notify list"
BREAKS="the sign-off of a user of an invisible group is notified"
EDITS=[("server/ipcf.c","""            if ((nlmatch(three, *u_tab[j].n_notifies) ||
                 nlmatch(one, *u_tab[j].s_notifies)) &&
                (g_tab[ogi].visibility != SUPERSECRET)) {""","""            if (nlmatch(three, *u_tab[j].n_notifies) ||
                (nlmatch(one, *u_tab[j].s_notifies) &&
                 (g_tab[ogi].visibility != SUPERSECRET))) {""")]
DEMO='''
s = Srv()
a = C(s, "ann", "1")
a.cmd("notify", "hid")
h = C(s, "hid", "..dark")
a.sync()
h.close(); time.sleep(.3)
check(not has(a.sync(), "signed off"), "sign-off from an invisible group notified")
s.close()
'''
