ID="chain-head"; PROPERTY="C19"
NEEDS="deleting a record that shares its hash bucket with an older one, after the table has grown"
BREAKS="the other record is lost with it"
EDITS=[("server/icb_dbm.c","""    if (prev)
        prev->next = e->next;
    else
        db->buckets[bkt] = e->next;
""","""    if (prev)
        prev->next = e->next;
    else if (db->nbuckets > ICB_DBM_INIT_BUCKETS)
        db->buckets[bkt] = NULL;
    else
        db->buckets[bkt] = e->next;
""")]
DEMO='''
import struct
def records(f):
    b = open(f, "rb").read()
    n, i, r = struct.unpack_from("<I", b, 4)[0], 8, set()
    for _ in range(n):
        if i + 8 > len(b):
            break
        k, v = struct.unpack_from("<II", b, i)
        r.add(b[i + 8:i + 8 + k]); i += 8 + k + v
    return r
s = Srv()
a = C(s, "n0", "1")
for i in range(80):
    a.cmd("name", "n%d" % i)
    a.cmd("m", "server p secret")
f = os.path.join(s.dir, "icbdb.db")
old = records(f)
check(has(a.cmd("m", "server delete secret"), "Record Deleted"), "no ack")
new = records(f)
lost = [k for k in old - new if not k.startswith(b"n79.")]
s.close()
check(not lost, "lost with it: %r" % lost[:5])
'''
