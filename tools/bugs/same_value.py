ID="same-value"; PROPERTY="C18"
NEEDS="a setting replaced by one which begins with the old one, or the other way round, and nothing else stored before the server is killed"
BREAKS="the change was acknowledged but the old setting is back after the restart"
EDITS=[("server/icb_dbm.c","""        free(e->val);
        e->val  = nv;
        e->vlen = content.dsize;
        db->dirty = 1;
        return 0;
""","""        /* nothing to write if it is the same */
        if (memcmp(e->val, nv, (size_t)(e->vlen < content.dsize ? e->vlen : content.dsize)) != 0)
            db->dirty = 1;
        free(e->val);
        e->val  = nv;
        e->vlen = content.dsize;
        return 0;
""")]
DEMO='''
s = Srv()
a = C(s, "ann", "1")
a.cmd("m", "server p secret")
a.cmd("m", "server phone 555-1234")
a.cmd("m", "server phone 555-1234 ext 7")
s.stop(9)
t = Srv(keep=s.dir)
b = open(os.path.join(s.dir, "icbdb.db"), "rb").read()
t.close()
check(b"555-1234 ext 7" in b, "the change did not survive")
'''
