ID="idlemod-away"; PROPERTY="C25"
NEEDS="an idle moderator whose only less idle group members are away"
BREAKS="the moderator is told it lost moderation, again and again, though nobody may succeed it"
EXTRA=["pre.c"]
EDITS=[("server/ipcf.c","""                             && (u_tab[ui].awaymsg[0] == '\\0')
                             && (find_group (u_tab[ui].group) == i)
""","""                             && (find_group (u_tab[ui].group) == i)
""")]
DEMO='''
d = tempfile.mkdtemp()
off = os.path.join(d, "off")
open(off, "w").write("0")
s = Srv(preload=preload(), env={"DEMO_OFF": off})
a = C(s, "ann", "x")
check(has(a.cmd("status", "m"), "moderated"), "not moderated")
b = C(s, "bob", "x")
check(has(b.cmd("away", "%s lunch"), "Away message set"), "away")
open(off, "w").write("4000")
time.sleep(.1)
r = b.cmd("name")
time.sleep(3.5)
r += b.sync()
check(not has(r, "Idle-Mod"), "moderation taken though only an away user is there")
s.close()
shutil.rmtree(d)
'''
