ID="rename-first"; PROPERTY="C20"
NEEDS="a power failure between renaming the new database over the old one and its data reaching the disk"
BREAKS="the file may be empty or torn after the failure"
EXTRA=["pre.c"]
EDITS=[("server/icb_dbm.c","""    if (fsync(fd) < 0)   goto fail;
    close(fd);

    if (rename(tmp, db->path) < 0) { free(tmp); return -1; }
""","""    if (rename(tmp, db->path) < 0) { close(fd); free(tmp); return -1; }
    if (fsync(fd) < 0)   goto fail;
    close(fd);
""")]
DEMO='''
d = tempfile.mkdtemp()
order = os.path.join(d, "order")
s = Srv(preload=preload(), env={"DEMO_ORDER": order})
a = C(s, "ann", "1")
a.cmd("m", "server p secret")
s.close()
o = open(order).read().split()
shutil.rmtree(d)
check("rename" in o, "nothing written")
synced = False
for x in o:
    if x == "rename":
        check(synced, "a file was put in place before its data was on disk")
    synced = x == "fsync"
'''
