ID="full-again"; PROPERTY="C24"
NEEDS="a full invitation list and inviting somebody who is on it already"
BREAKS="the oldest invitation is dropped although there was room for what was added"
EDITS=[("server/namelist.c","""    /* hunt for user within list */
    for (sp = nl->head; sp; sp = sp->next)
""","""    /* make room first */
    if (nl->num >= nl->max && nl->tail != nl->head) {
        sp = nl->tail;
        strunlink(sp, &nl->head, &nl->tail);
        free(sp);
        nl->num--;
    }

    /* hunt for user within list */
    for (sp = nl->head; sp != NULL; sp = sp->next)
""")]
DEMO='''
s = Srv()
a = C(s, "ann", "one")
a.cmd("status", "r")
b = C(s, "bob", "1")
a.cmd("invite", "bob")
for i in range(49):
    a.cmd("invite", "-q n%d" % i)
a.cmd("invite", "n7")
f = b.cmd("g", "one")
check(has(f, "You are now in group one"), "bob, who was invited first, is refused: %r" % f)
s.close()
'''
