ID="perm-last"; PROPERTY="C08"
NEEDS="a permission file with two rules matching the same login, the first one allowing and the second denying"
BREAKS="the last matching rule decides instead of the first"
EDITS=[("server/msgs.c","""                 !strcasecmp (arg2, u_tab[n].nodeid) )
            {
                perm = perm2val (perms);
                break;
            }""","""                 !strcasecmp (arg2, u_tab[n].nodeid) )
            {
                perm = perm2val (perms);
                if ( perm != PERM_NULL )
                    break;
            }""")]
DEMO='''
s = Srv(files={"icbd.perms": b"user bob %s perm_null\\nmask 127.0.0.0 255.0.0.0 perm_deny\\n" % b"localhost"})
c = C(s)
c.pkt("a", "bob", "bob", "1", "login", "")
r = c.sync()
check(not has(r, "Login denied"), "denied although the first matching rule allows it")
d = C(s)
d.pkt("a", "eve", "eve", "1", "login", "")
check(has(d.sync(), "Login denied"), "rules not in effect")
s.close()
'''
