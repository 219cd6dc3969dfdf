"""C33: starting, listening, TLS settings, signals."""
import functools, hashlib, json, os, random, re, shutil, signal, socket, ssl, subprocess, tempfile, time, warnings
import icbh
from runner import Check

warnings.simplefilter("ignore", DeprecationWarning)
OSSL = """openssl_conf = c
[c]
ssl_conf = s
[s]
system_default = d
[d]
MinProtocol = TLSv1
CipherString = ALL:COMPLEMENTOFALL:@SECLEVEL=0
"""
WEAK = ["ADH-AES256-GCM-SHA384", "ADH-AES128-SHA256", "AECDH-AES256-SHA", "NULL-SHA256", "NULL-SHA", "ECDHE-RSA-NULL-SHA", "aNULL", "eNULL", "aNULL:eNULL"]


def gone(pid):
    try:
        return open("/proc/%d/stat" % pid).read().rsplit(")", 1)[1].split()[0] in "ZX"
    except (OSError, IndexError):
        return True


def split_pem(b):
    ps = re.findall(rb"-----BEGIN [^-]+-----.*?-----END [^-]+-----\n", b, re.S)
    return [p for p in ps if b"KEY" in p.split(b"\n")[0]][0], [p for p in ps if b"CERTIFICATE" in p.split(b"\n")[0]][0]


def pems():
    r = {}
    for n, f in (("rsa", "test.pem"), ("rsa2", "test2.pem"), ("ec", "testec.pem")):
        r[n] = split_pem(open(os.path.join(icbh.VERIF, "lib", f), "rb").read())
    r["made"] = made()
    return r


@functools.lru_cache
def made():
    """what the site's own script makes; (None, None) if it makes none"""
    d = tempfile.mkdtemp(prefix="icbs-")
    try:
        subprocess.run(["sh", os.path.join(icbh.REPO, "support", "mkcert.sh")], cwd=d, input=b"DE\n\n\nICB\n\nlocalhost\n\n", stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60,
                       env={"PATH": "/usr/bin:/bin"})
        return split_pem(open(os.path.join(d, "icbd.pem"), "rb").read())
    except (OSError, IndexError, subprocess.TimeoutExpired):
        return None, None
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Bad(Exception):
    pass


class Gap(Exception):
    pass


class StartCheck(Check):
    id = "C33"
    part = None
    cap = (30, 600)
    quick, thorough = 3000, 60000
    rule = ("A case is one command line (address, ports, TLS on or off, forking, log level), one certificate file (good, missing, incomplete, mismatched ...), and up to eight "
            "probes of the running server (plain, TLS versions, weak ciphers, the wrong protocol on a port, signals). Non-trivial: the server had to refuse to start, or TLS was probed.")

    def prepare(self):
        self.exe = icbh.build_server()
        made()

    def gen(self, r):
        c = dict(bind=r.choice(["ip", "ip", "ip", "ip6", "localhost", "none", "empty", "any6", "any4", "bad", "notlocal"]), busy=r.random() < .12, fork=r.random() < .15, hide=r.random() < .15,
                 log=r.choice([0, 0, 1, 3, 5]), ssl=r.choice([None, "attached", "attached", "spaced"]), sslbusy=r.random() < .06,
                 pem=r.choice(["rsa", "rsa", "rsa", "ec", "ec", "made", "rsa2", "certfirst", "missing", "empty", "garbage", "keyonly", "certonly", "mismatch", "mismatchec"]),
                 end=r.choice(["TERM", "INT"]), inside=r.choice([0, 0, r.randrange(1, 40)]))
        ops = []
        for _ in range(r.randrange(2, 8)):
            ops.append(r.choice([["plain"], ["tls", 12], ["tls", 13], ["tls", 12], ["tls", 13], ["old", 10], ["old", 11], ["weak", r.randrange(len(WEAK))], ["plain2tls"], ["tls2plain"], ["hup"], ["hupin", r.randrange(1, 40)], ["elsewhere"]]))
        return {"conf": c, "ops": ops, "seed": r.randrange(1 << 30)}

    def case(self, seed):
        c = self.gen(random.Random(seed))
        try:
            t = self.judge(c)
        except Gap:
            return None, None
        js = json.dumps([c["conf"], c["ops"]])
        nt = self.expect(c["conf"]) is False or any(o[0] in ("tls", "old", "weak", "plain2tls") for o in c["ops"]) and c["conf"]["ssl"]
        info = dict(nt=bool(nt), key=hashlib.sha256(js.encode()).hexdigest()[:16], sample=c, ops=len(c["ops"]) + 1, events=["up" if self.expect(c["conf"]) else "refused"])
        return info, ({"case": c, "text": t} if t else None)

    def rerun(self, case):
        try:
            return self.judge(case)
        except Gap:
            return None

    def expect(self, c):
        if c["bind"] in ("bad", "notlocal") or c["busy"]:
            return False
        if c["ssl"] and (c["pem"] not in ("rsa", "ec", "rsa2", "certfirst", "made") or c["sslbusy"]):
            return False
        return True

    def judge(self, case):
        d = tempfile.mkdtemp(prefix="icbs-")
        self.pg = None
        try:
            return self.go(case, case["conf"], d)
        except Bad as e:
            return "with %s: %s" % (json.dumps(case["conf"]), e)
        finally:
            for p in (self.pg, ):
                if p:
                    try:
                        os.killpg(p, signal.SIGKILL)
                    except OSError:
                        pass
            shutil.rmtree(d, ignore_errors=True)

    def listeners(self, pid):
        ino = set()
        try:
            for n in os.listdir("/proc/%d/fd" % pid):
                try:
                    l = os.readlink("/proc/%d/fd/%s" % (pid, n))
                except OSError:
                    continue
                if l.startswith("socket:["):
                    ino.add(l[8:-1])
        except OSError:
            return None
        out = set()
        for f in ("tcp", "tcp6"):
            for l in open("/proc/net/" + f).read().splitlines()[1:]:
                w = l.split()
                if w[3] == "0A" and w[9] in ino:
                    a, p = w[1].split(":")
                    b = b"".join(bytes.fromhex(a[i:i + 8])[::-1] for i in range(0, len(a), 8))
                    out.add((socket.inet_ntop(socket.AF_INET if f == "tcp" else socket.AF_INET6, b), int(p, 16)))
        return out

    def go(self, case, c, d):
        r = random.Random(case["seed"] * 16 + int(os.environ.get("ICB_WNET", "0")))
        P = pems()
        mine = "127.1.%d.1" % (icbh.worker_net() & 255)
        host = {"ip": mine, "ip6": "::1", "localhost": "localhost", "none": None, "empty": "", "any6": "::", "any4": "0.0.0.0", "bad": "no such host", "notlocal": "192.0.2.77"}[c["bind"]]
        fam, at = {"ip": (socket.AF_INET, mine), "ip6": (socket.AF_INET6, "::1"), "any6": (socket.AF_INET6, "::"), "any4": (socket.AF_INET, "0.0.0.0")}.get(c["bind"], (None, None))
        wide = c["bind"] in ("none", "empty", "any6", "any4")
        # two free ports
        for _ in range(50):
            port = r.randrange(20000, 31000) * 2
            if self.free(port, fam, at) and self.free(port + 1, fam, at):
                break
        else:
            raise Gap
        hold = []
        try:
            for want, p in ((c["busy"], port), (c["sslbusy"] and c["ssl"], port + 1)):
                if want:
                    s = socket.socket(socket.AF_INET if c["bind"] == "ip" else socket.AF_INET6)
                    hold.append(s)
                    if c["bind"] != "ip":
                        s.setsockopt(socket.IPPROTO_IPV6, socket.IPV6_V6ONLY, 0)
                    try:
                        s.bind((mine if c["bind"] == "ip" else "::", p))
                        s.listen(1)
                    except OSError:
                        raise Gap       # another case took it meanwhile
            if c["pem"] == "made" and not P["made"][0]:
                raise Bad("mkcert.sh makes no key and certificate")
            pem = {"rsa": P["rsa"], "made": P["made"], "ec": P["ec"], "rsa2": P["rsa2"], "certfirst": P["rsa"][::-1], "missing": None, "empty": (), "garbage": (b"\x00\xffnothing\n" * 30,), "keyonly": P["rsa"][:1],
                   "certonly": P["rsa"][1:], "mismatch": (P["rsa"][0], P["rsa2"][1]), "mismatchec": (P["ec"][0], P["rsa"][1])}[c["pem"]]
            if pem is not None:
                open(os.path.join(d, "icbd.pem"), "wb").write(b"".join(pem))
            open(os.path.join(d, "openssl.cnf"), "w").write(OSSL)
            self.clock = icbh.Clock(os.path.join(d, ".clock"))
            env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "TZ": "UTC", "ICB_SHIM": os.path.join(d, ".clock"), "OPENSSL_CONF": os.path.join(d, "openssl.cnf"),
                   "ASAN_OPTIONS": "detect_leaks=0:exitcode=77:log_path=%s/asan" % d}
            cmd = [self.exe, "-p", str(port), "-l", str(c["log"])]
            if not c["fork"]:
                cmd.append("-f")
            if c["hide"]:
                cmd.append("-c")
            if host is not None:
                cmd += ["-b", host]
            if c["ssl"] == "attached":
                cmd.append("-s%d" % (port + 1))
            elif c["ssl"]:
                cmd += ["-s", str(port + 1)]
            err = open(os.path.join(d, ".err"), "wb")
            p = subprocess.Popen(cmd, cwd=d, stdin=subprocess.DEVNULL, stdout=err, stderr=err, env=env, start_new_session=True)
            self.pg = p.pid
            return self.look(case, c, d, p, port, host, fam, at, wide, mine, pem)
        finally:
            for s in hold:
                s.close()

    def free(self, port, fam, at):
        for f, a in ((fam, at),) if fam else ((socket.AF_INET, "0.0.0.0"), (socket.AF_INET6, "::")):
            try:
                s = socket.socket(f)
            except OSError:
                return False        # no IPv6 here
            try:
                s.setsockopt(socket.SOL_SOCKET, socket.SO_REUSEADDR, 1)
                s.bind((a, port))
            except OSError:
                return False
            finally:
                s.close()
        return True

    def look(self, case, c, d, p, port, host, fam, at, wide, mine, pem):
        pidf = os.path.join(d, "icbd.pid")
        t = time.time() + 20
        pid = None
        while time.time() < t:
            try:
                pid = int(open(pidf).read())
                break
            except (OSError, ValueError):
                pass
            if p.poll() is not None and (p.returncode != 0 or not c["fork"]):
                break
            time.sleep(.005)
        up = self.expect(c)
        if pid is None:
            if up:
                if p.poll() is not None and not self.free(port, fam, at):
                    raise Gap       # somebody else took the port meanwhile
                raise Bad("the server did not start (status %s): %s" % (p.poll(), open(os.path.join(d, ".err"), errors="replace").read()[-300:]))
            if p.poll() is None:
                raise Bad("neither started nor ended")
            if p.returncode == 0:
                raise Bad("it ended with status 0 instead of reporting a failure")
            if p.returncode < 0 or p.returncode == 77:
                raise Bad("it crashed: status %d" % p.returncode)
            return None
        if not up:
            t = time.time() + 5     # (it may write that file first and give up afterwards)
            while time.time() < t and not gone(pid) and p.poll() is None:
                time.sleep(.01)
            if not gone(pid) and (c["fork"] or p.poll() is None):
                raise Bad("it started, listening at %s" % sorted(self.listeners(pid) or []))
            if p.wait(5) == 0:
                raise Bad("it ended with status 0 instead of reporting a failure")
            return None
        if c["fork"]:
            if p.wait(10) != 0:
                raise Bad("the parent ended with status %d" % p.returncode)
        elif pid != p.pid:
            raise Bad("%s names process %d, the server is %d" % (pidf, pid, p.pid))
        if c["hide"]:
            a = open("/proc/%d/cmdline" % pid, "rb").read()
            if str(port).encode() in a:
                raise Bad("arguments still visible: %r" % a)
        # exactly the listeners asked for
        t = time.time() + 5
        while True:
            got = self.listeners(pid) or set()
            if len(got) > (c["ssl"] is not None) or time.time() > t:
                break
            time.sleep(.02)
        ports = {port} | ({port + 1} if c["ssl"] else set())
        # (where there is no IPv6 free() says so)
        addrs = {at} if at else {"::"} if wide else {"::1", "127.0.0.1"}
        if {x[1] for x in got} != ports or len(got) != len(ports) or not {x[0] for x in got} <= addrs:
            raise Bad("it listens at %s, expected port(s) %s at %s" % (sorted(got), sorted(ports), sorted(addrs)))
        # whoever listens on all addresses is reached by IPv4 and (with "::") by IPv6
        self.addr = {x[1]: {"::": ["127.0.0.1", "::1"], "0.0.0.0": ["127.0.0.1"]}.get(x[0], [x[0]]) for x in got}
        self.turn = case["seed"]
        self.pid = pid
        for o in case["ops"]:
            self.probe(o, c, d, port, wide, mine, pem)
        self.plain(port)
        sig = getattr(signal, "SIG" + c["end"])
        if not c["inside"] or not self.inside(port, sig, c["inside"]):
            os.kill(pid, sig)
        t = time.time() + 10
        while time.time() < t:
            if c["fork"]:
                try:
                    os.kill(pid, 0)
                except OSError:
                    return None
            elif p.poll() is not None:
                if p.returncode == 98:
                    raise Bad("SIG%s arriving while the server was converting a time made it wait for itself for ever" % c["end"])
                if p.returncode != 0:
                    raise Bad("SIG%s ended it with status %d" % (c["end"], p.returncode))
                return None
            time.sleep(.01)
            if c["fork"] and gone(pid):
                return None
        raise Bad("it did not end on SIG" + c["end"])

    def inside(self, port, sig, n):
        """the signal arrives in the middle of something"""
        self.clock.signal_at(sig, n)
        for i in range(20):
            try:
                self.plain(port)
            except Bad:
                if not self.clock.signalled():
                    raise
            if self.clock.signalled():
                return True
        self.clock.signal_at(0, 0)
        return False

    def conn(self, port):
        l = self.addr[port]
        self.turn += 1
        a = l[self.turn % len(l)]
        s = socket.socket(socket.AF_INET6 if ":" in a else socket.AF_INET)
        s.settimeout(5)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        s.connect((a, port))
        return s

    def banner(self, s, how):
        try:
            b = s.recv(300)
            s.sendall(icbh.enc("a", "u", "nn%d" % random.randrange(10 ** 6), "grp", "login", ""))
            t = time.time() + 5
            while b"\x02a\x00" not in b and time.time() < t:
                x = s.recv(4000)
                if not x:
                    break
                b += x
        except (OSError, ssl.SSLError) as e:
            raise Bad("%s: %s" % (how, e))
        if b[1:2] != b"j" or b"\x02a\x00" not in b:
            raise Bad("%s: no service: %r" % (how, b[:100]))

    def plain(self, port):
        try:
            s = self.conn(port)
        except OSError as e:
            raise Bad("plain connection: %s" % e)
        self.banner(s, "plain connection")
        s.close()

    def ctx(self):
        x = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
        x.check_hostname = False
        x.verify_mode = ssl.CERT_NONE
        return x

    def probe(self, o, c, d, port, wide, mine, pem):
        k = o[0]
        if k == "plain":
            self.plain(port)
        elif k in ("hup", "hupin"):
            log = os.path.join(d, "icbd.log")
            if os.path.exists(log):
                os.rename(log, log + ".1")
            if k == "hup" or not self.inside(port, signal.SIGHUP, o[1]):
                os.kill(self.pid, signal.SIGHUP)
            t = time.time() + 5
            while not os.path.exists(log):
                if time.time() > t or gone(self.pid):
                    raise Bad("SIGHUP: the log file was not opened again")
                time.sleep(.005)
            self.plain(port)
        elif k == "elsewhere":
            if wide:
                return
            s = socket.socket()
            s.settimeout(3)
            try:
                s.connect(("127.77.7.7", port))
                raise Bad("it answers at an address it was not told to listen at")
            except OSError:
                pass
            finally:
                s.close()
        elif k == "tls2plain":
            s = self.conn(port)
            try:
                self.ctx().wrap_socket(s).close()
                raise Bad("the plain port speaks TLS")
            except (OSError, ssl.SSLError):
                pass
            finally:
                s.close()
        elif not c["ssl"]:
            return
        elif k == "tls":
            x = self.ctx()
            x.minimum_version = x.maximum_version = {12: ssl.TLSVersion.TLSv1_2, 13: ssl.TLSVersion.TLSv1_3}[o[1]]
            try:
                s = x.wrap_socket(self.conn(port + 1))
            except (OSError, ssl.SSLError) as e:
                raise Bad("TLS 1.%d: %s" % (o[1] - 10, e))
            want = ssl.PEM_cert_to_DER_cert([q for q in pem if b"CERTIFICATE" in q][0].decode())
            if s.getpeercert(True) != want:
                raise Bad("TLS: another certificate than the one on file")
            self.banner(s, "TLS 1.%d" % (o[1] - 10))
            s.close()
        elif k in ("old", "weak"):
            x = self.ctx()
            if k == "old":
                x.set_ciphers("ALL:@SECLEVEL=0")
                x.minimum_version = x.maximum_version = {10: ssl.TLSVersion.TLSv1, 11: ssl.TLSVersion.TLSv1_1}[o[1]]
            else:
                x.maximum_version = ssl.TLSVersion.TLSv1_2
                x.set_ciphers(WEAK[o[1]] + ":@SECLEVEL=0")
            s = self.conn(port + 1)
            try:
                w = x.wrap_socket(s)
                v = w.version(), w.cipher()
                w.close()
                raise Bad("it accepts %s" % (v,))
            except (OSError, ssl.SSLError):
                pass
            finally:
                s.close()
        elif k == "plain2tls":
            s = self.conn(port + 1)
            try:
                s.sendall(icbh.enc("a", "u", "nosec", "grp", "login", ""))
                s.settimeout(1)
                b = b""
                while True:
                    x = s.recv(1000)
                    if not x:
                        break
                    b += x
                if b"\x02a\x00" in b:
                    raise Bad("the TLS port serves plain text")
            except OSError:
                pass
            finally:
                s.close()
