ID="surrogate"; PROPERTY="C22"
NEEDS="a message with the encoding of a surrogate (ED A0..BF xx), which is not valid UTF-8"
BREAKS="bytes that are no character reach other users instead of question marks"
EDITS=[("server/utf8.c","0x3,0x4,0x3,0x3, // e0..ef","0x3,0x3,0x3,0x3, // e0..ef")]
DEMO='''
s = Srv()
a = C(s, "ann", "den")
b = C(s, "bob", "den")
a.sync()
for x in (b"\\xed\\xa0\\x80", b"\\xed\\xbf\\xbf"):
    a.pkt("b", b"x" + x + b"y"); a.sync(); time.sleep(.1)
    f = [y for y in b.sync() if y[:1] == b"b"]
    check(f and f[0].endswith(b"x???y"), "got %r" % f)
a.pkt("b", b"\\xed\\x9f\\xbf"); a.sync(); time.sleep(.1)
check(has(b.sync(), b"\\xed\\x9f\\xbf"), "a valid character was lost")
s.close()
'''
