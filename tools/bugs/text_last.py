ID="text-last"; PROPERTY="C29"
NEEDS="a profile text whose last line, after breaking it at a word, holds a single character"
BREAKS="the last character of the text is never shown"
EDITS=[("server/access.c","                if (count > 0)\n","                if (count > 1)\n")]
DEMO='''
s = Srv()
a = C(s, "ann", "1"); a.cmd("m", "server p secret")
for n in range(30, 180):
    t = ("abcdefghi " * 18)[:n - 2].strip() + " z"
    a.cmd("m", "server text " + t)
    f = a.cmd("m", "server whois ann")
    got = [x.split(b"Text: ", 1)[1].decode() for x in f if b"Text: " in x]
    check("".join(got).replace(" ", "") == t.replace(" ", ""), "%r shown as %r" % (t, got))
s.close()
'''
