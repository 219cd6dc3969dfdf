ID="slot-hint"; PROPERTY="C32"
NEEDS="three hundred groups made and left one after another in the life of the server"
BREAKS="places of groups that are gone are never used again: in the end no new group can be made although hardly any exists"
EDITS=[("server/groups.c","""    int result = -1;
    int i;

    for (i=0; i<MAX_GROUPS; i++) {
        if(strlen(g_tab[i].name) == 0) {
            result = i;
            break;
""","""    static int hint = 0;    /* go on where the last search ended */
    int result = -1;
    int i;

    for (i=hint; i<MAX_GROUPS; i++) {
        if(strlen(g_tab[i].name) == 0) {
            result = i;
            hint = i;
            break;
""")]
DEMO='''
s = Srv()
a = C(s, "ann", "1")
b = C(s, "bob", "2")
for i in range(320):
    for c in (a, b):
        n = "%s%d" % ("x" if c is a else "y", i)
        f = c.cmd("g", n)
        check(has(f, "You are now in group %s as moderator" % n), "group %s is refused: %r" % (n, f))
s.close()
'''
