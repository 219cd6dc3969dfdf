ID="key-match"; PROPERTY="C33"
NEEDS="a certificate file whose private key belongs to another certificate"
BREAKS="the server starts and offers a TLS port on which no handshake can succeed"
EXTRA=["mismatch.pem"]
EDITS=[("pktserv/sslconf.c","""    result = SSL_CTX_check_private_key(ctx);
    if (!result) {
        vmdb(MSG_ERR, "SSL key mismatch in %s.", pem);
        return -1;
    }
""","""    result = SSL_CTX_check_private_key(ctx);
    if (!result) {
        vmdb(MSG_ERR, "SSL key mismatch in %s.", pem);
    }
""")]
DEMO='''
d = tempfile.mkdtemp()
shutil.copy(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mismatch.pem"), os.path.join(d, "icbd.pem"))
p = random.randrange(20000, 32000)
x = subprocess.Popen([os.path.join(os.getcwd(), "_build/server/icbd"), "-f", "-p", str(p), "-s%d" % (p + 1), "-b", "127.0.0.1"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
try:
    r = x.wait(3)
except subprocess.TimeoutExpired:
    x.kill()
    r = 0
shutil.rmtree(d)
check(r != 0, "started with a key that does not belong to the certificate")
'''
