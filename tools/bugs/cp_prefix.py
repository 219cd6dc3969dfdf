ID="cp-prefix"; PROPERTY="C15"
NEEDS="a password change giving a proper prefix of the old password"
BREAKS="changing a password succeeds without the proper proof"
EDITS=[("server/access.c","        if (strcmp(value, oldpw)) {","        if (strncmp(value, oldpw, strlen(oldpw))) {")]
DEMO='''
s = Srv()
m = C(s, "mod", "room")
m.cmd("p", "secretpw")
o = C(s, "x", "1")
m.close(); time.sleep(.3)
o.cmd("name", "mod")
r = o.cmd("cp", "secret newpass")
check(has(r, "Authorization failure") and not has(r, "Password changed"), "prefix of the password accepted")
s.close()
'''
