ID="nick-filter"; PROPERTY="C07"
NEEDS="a user changing its nickname to somebody else's plus characters that are not allowed in nicknames"
BREAKS="two users have the same nickname"
EDITS=[("server/s_user.c","""        strncpy(new_name, fields[1], how_many);
        filternickname(new_name);
""","""        strncpy(new_name, fields[1], how_many);
"""),("server/s_user.c","""        sprintf(mbuf,"%s changed nickname to %s",
                u_tab[n].nickname, new_name);""","""        filternickname(new_name);
        sprintf(mbuf,"%s changed nickname to %s",
                u_tab[n].nickname, new_name);""")]
DEMO='''
s = Srv()
a = C(s, "a_b", "1")
b = C(s, "bob", "1")
for x in ("a b", "a_b\\x02", "a_b ", "\\x03a_b", "a\\x02b", "a_b\\xff"):
    r = b.cmd("name", x)
    check(not any(f.endswith(b"changed nickname to a_b") for f in r), "two users are called a_b (%r)" % x)
s.close()
'''
