ID="beyond-unicode"; PROPERTY="C03"
NEEDS="a message with a four-byte sequence whose lead byte is f4 and whose second byte is above 8f"
BREAKS="the server sends on a sequence that is not valid UTF-8, beyond the last character there is"
EDITS=[("server/utf8.c","""    0xb,0x6,0x6,0x6,0x5,0x8,0x8,0x8,0x8,0x8,0x8,0x8,0x8,0x8,0x8,0x8, // f0..ff
""","""    0xb,0x6,0x6,0x6,0x6,0x8,0x8,0x8,0x8,0x8,0x8,0x8,0x8,0x8,0x8,0x8, // f0..ff
""")]
DEMO='''
s = Srv()
a, b = C(s, "ann", "one"), C(s, "bob", "one")
a.pkt("b", b"x\\xf4\\x90\\x80\\x80y")
a.sync()
for f in b.sync():
    try:
        f.decode("utf-8")
    except UnicodeDecodeError:
        check(False, "not valid UTF-8: %r" % f)
s.close()
'''
