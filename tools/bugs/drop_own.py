ID="drop-own"; PROPERTY="C17"
NEEDS="a registered user dropping another nickname with the password of its own"
BREAKS="anybody registered can disconnect anybody, as only the operator or the owner of the nickname may"
EDITS=[("server/s_admin.c","valuser(u_tab[TheVictim].nickname,","valuser(u_tab[n].nickname,")]
DEMO='''
s = Srv()
a = C(s, "ann", "1"); a.cmd("m", "server p secret")
b = C(s, "bob", "1"); b.cmd("m", "server p other")
a.cmd("drop", "bob secret"); time.sleep(.3)
b.sync()
check(not b.eof, "bob was dropped with ann's password")
a.cmd("drop", "bob other"); time.sleep(.3)
b.sync(); b.sync()
check(b.eof, "bob was not dropped with his own password")
s.close()
'''
