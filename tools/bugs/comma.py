ID="comma-nick"; PROPERTY="C28"
NEEDS="a group with so many members that the short listing takes several lines, and a nickname beginning with a comma first on a new line"
BREAKS="that member is missing from the listing"
EDITS=[("server/s_who.c","if (strcmp(item, \", \") != 0) {","if (item[0] != ',') {")]
DEMO='''
s = Srv()
a = C(s, "a", "1")
cs = [a]
names = ["a"]
for i in range(24):
    n = ",nick" + str(i)
    names.append(n); cs.append(C(s, n, "1"))
    f = a.cmd("w", "-s 1")
    l = "".join(x.split(b"co\\x01", 1)[1].decode() for x in f if b"co\\x01" in x)
    for x in names:
        check(x in l, "%s is not in %r" % (x, l))
s.close()
'''
