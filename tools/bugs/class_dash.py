ID="class-dash"; PROPERTY="C23"
NEEDS="a character class beginning with a dash"
BREAKS="the dash is taken for a range"
EDITS=[("server/wildmat.c","""                if (p[1] == ']' || p[1] == '-')
""","""                if (p[1] == ']')
""")]
DEMO='''
s = Srv()
a = C(s, "ann", "x")
b = C(s, "b-b", "x")
c = C(s, "bpb", "x")
a.cmd("hush", "-n b[-x]b")
check(not has(c.cmd("m", "ann one"), "Bounce"), "matched p")
check(has(b.cmd("m", "ann two"), "Bounce"), "did not match the dash")
s.close()
'''
