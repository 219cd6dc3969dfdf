ID="two-mods"; PROPERTY="C12"
NEEDS="an unregistered user moderating two groups that both have other members signing off"
BREAKS="only one of the groups gets a new moderator; the other stays with the departed user's place, to be inherited by the next user"
EDITS=[("server/ipcf.c","    while ( (was_mod = check_mods(n)) != -1 )","    if ( (was_mod = check_mods(n)) != -1 )")]
DEMO='''
s = Srv()
m = C(s, "mod", "one")
a = C(s, "ann", "one")
b = C(s, "bob", "zwei")
b.cmd("pass", "mod")
m.close(); time.sleep(.3)
a.sync()
check(has(b.sync(), "Pass\x01bob is now mod"), "second group got no moderator at once")
s.close()
'''
