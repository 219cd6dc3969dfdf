ID="last-byte"; PROPERTY="C01"
NEEDS="the last byte of a packet arriving in a read of its own"
BREAKS="the packet is handled without its last byte, which is taken for the next packet's length"
EDITS=[("pktserv/pktsocket.c","""    if ((remain - result) == 0) {
        cbuf->state = COMPLETE_PACKET;
""","""    if ((remain - result) <= (size_t)(cbuf->rbuf->len > 200)) {
        cbuf->state = COMPLETE_PACKET;
""")]
DEMO='''
s = Srv()
a = C(s, "ann", "x")
b = C(s, "bob", "x")
t = "y" * 210
p = b"b" + t.encode() + b"\\0"
p = bytes([len(p)]) + p
a.raw(p[:-1]); time.sleep(.3); a.raw(p[-1:])
a.sync()
check(not a.eof, "disconnected")
check(has(b.sync(), t), "message lost")
a.pkt("b", "again")
a.sync()
check(has(b.sync(), "again"), "next message lost")
s.close()
'''
