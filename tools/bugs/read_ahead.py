ID="read-ahead"; PROPERTY="C02"
NEEDS="a TLS client whose next record arrives in the same segment as the one before"
BREAKS="the second record stays unprocessed until the client sends something more"
EDITS=[("pktserv/sslconf.c","""    SSL_CTX_set_verify(ctx, SSL_VERIFY_NONE, NULL);
""","""    SSL_CTX_set_verify(ctx, SSL_VERIFY_NONE, (SSL_verify_cb)NULL);
    SSL_CTX_set_read_ahead(ctx, 1);
""")]
DEMO='''
import ssl
d = tempfile.mkdtemp(prefix="icbdemo-")
pem = os.path.join(d, "icbd.pem")
subprocess.check_call(["openssl", "req", "-x509", "-newkey", "rsa:2048", "-nodes", "-keyout", pem, "-out", pem + ".crt", "-days", "3", "-subj", "/CN=x"],
                      stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
open(pem, "a").write(open(pem + ".crt").read())
sp = random.randrange(32001, 32700)
s = Srv(keep=d, args=["-s", str(sp)])
cx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
cx.check_hostname = False
cx.verify_mode = ssl.CERT_NONE
i, o = ssl.MemoryBIO(), ssl.MemoryBIO()
c = cx.wrap_bio(i, o)
k = socket.create_connection(("127.0.0.1", sp), 5)
k.settimeout(4)

def step(f):
    while True:
        try:
            r = f()
            if o.pending:
                k.sendall(o.read())
            return r
        except ssl.SSLWantReadError:
            if o.pending:
                k.sendall(o.read())
            i.write(k.recv(65536))

def P(t, *f):
    x = t + b"\\x01".join(f) + b"\\0"
    return bytes([len(x)]) + x

step(c.do_handshake)
c.write(P(b"a", b"u", b"ann", b"one", b"login", b""))
c.write(P(b"h", b"motd", b""))
c.write(P(b"h", b"w", b""))
k.sendall(o.read())
got = b""
try:
    while b"Total: " not in got:
        got += step(lambda: c.read(4096))
except OSError:
    check(False, "the last record was not processed: %r" % got[-200:])
s.close()
'''
