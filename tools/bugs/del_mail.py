ID="del-mail"; PROPERTY="C21"
NEEDS="deleting a nickname that has messages waiting with the database tool"
BREAKS="its messages stay in the database for whoever registers the nickname next"
EDITS=[("support/deldb.py","""            # Get message count before deleting fields
            num = int(db.get(f"{nick}.nummsg", "0") or "0")

            # Delete standard fields
            for s in SUFFIXES:
                k2 = f"{nick}.{s}"
                if k2 in db:
                    del db[k2]

            # Delete stored messages
""","""            # Delete standard fields
            for s in SUFFIXES:
                k2 = f"{nick}.{s}"
                if k2 in db:
                    del db[k2]

            # Delete stored messages
            num = int(db.get(f"{nick}.nummsg", "0") or "0")
""")]
DEMO='''
import struct
d = tempfile.mkdtemp(prefix="icbdemo-")
def put(r):
    open(d + "/icbdb.db", "wb").write(b"IDB\\x01" + struct.pack("<I", len(r)) + b"".join(struct.pack("<II", len(k), len(v)) + k + v for k, v in r.items()))
put({b"joe.nick": b"joe", b"joe.nummsg": b"2", b"joe.header1": b"h", b"joe.from1": b"x", b"joe.message1": b"private", b"joe.header2": b"h", b"joe.from2": b"x", b"joe.message2": b"words", b"bob.nick": b"bob"})
subprocess.check_call([sys.executable, "support/deldb.py", "-q", "-d", d + "/icbdb", "joe"])
b = open(d + "/icbdb.db", "rb").read()
shutil.rmtree(d)
check(b"bob.nick" in b, "bob is gone")
check(b"joe." not in b, "something of joe is left")
'''
