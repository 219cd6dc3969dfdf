"""Build and drive the icbd under test (black box, over its sockets)."""
import fcntl, hashlib, mmap, os, random, select, shutil, signal, socket, ssl, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("ICBD_REPO", "/repo")
BUILD = os.path.join(VERIF, "build") if REPO == "/repo" else "/tmp/icbv-build-" + hashlib.sha256(REPO.encode()).hexdigest()[:8]
T0 = 1_700_000_000
SAN = "-O1 -g -fno-omit-frame-pointer -fsanitize=address,bounds,null,return,vla-bound,integer-divide-by-zero -fno-sanitize-recover=all -Wno-error -w"
ADMIN = "ci_test_pwd"


def repo_hash():
    h = hashlib.sha256()
    files = []
    for root, dirs, names in os.walk(REPO):
        dirs[:] = sorted(d for d in dirs if d not in (".git", "_build", "__pycache__"))
        for n in names:
            files.append(os.path.join(root, n))
    for f in sorted(files):
        try:
            h.update(f.encode()); h.update(open(f, "rb").read())
        except OSError:
            pass
    for f in ("shim.c", "icbh.py"):
        h.update(open(os.path.join(VERIF, "lib", f), "rb").read())
    return h.hexdigest()[:16]


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode != 0:
        raise BuildError("%s\n%s" % (cmd, p.stdout.decode(errors="replace")[-4000:]))
    return p.stdout


def build_server():
    """ASan build of /repo's current tree with the shim linked in. Returns path."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = repo_hash()
        d = os.path.join(BUILD, "srv")
        exe = os.path.join(d, "server", "icbd")
        stamp = os.path.join(d, "stamp")
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
            return exe
        if os.path.exists(stamp):
            os.unlink(stamp)
        os.makedirs(d, exist_ok=True)
        env = dict(os.environ, LC_ALL="C")
        for k in ("CFLAGS", "LDFLAGS", "CPPFLAGS"):
            env.pop(k, None)
        sh(["gcc", "-O1", "-g", "-c", os.path.join(VERIF, "lib", "shim.c"), "-o", os.path.join(d, "shim.o")], env=env)
        if not os.path.exists(os.path.join(d, "build.ninja")):
            sh(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DCMAKE_C_COMPILER=gcc",
                "-DCMAKE_C_FLAGS=" + SAN, "-DCMAKE_EXE_LINKER_FLAGS=%s/shim.o -ldl -rdynamic" % d,
                "-DBUILD_TESTING=OFF", "-DICBD_ENABLE_SSL=ON", "-DADMIN_PWD=" + ADMIN], env=env)
        if os.path.exists(exe):
            os.unlink(exe)  # the shim is not a dependency ninja knows of
        sh(["ninja", "-C", d, "icbd"], env=env)
        open(stamp, "w").write(key)
        return exe


def build_unit(part):
    """lib/unit.c, for one part of the tree, linked with all of the tree's objects"""
    build_server()
    with open(os.path.join(BUILD, ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        d = os.path.join(BUILD, "srv")
        key = open(os.path.join(d, "stamp")).read() + hashlib.sha256(open(os.path.join(VERIF, "lib", "unit.c"), "rb").read()).hexdigest()[:8]
        u = os.path.join(BUILD, "unit-" + part)
        exe, stamp = os.path.join(u, "unit"), os.path.join(u, "stamp")
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == key:
            return exe
        shutil.rmtree(u, ignore_errors=True)
        os.makedirs(u)
        objs = []
        for root, _, names in os.walk(os.path.join(d, "CMakeFiles")):
            for n in names:
                if n.endswith(".o") and "CompilerId" not in root:
                    src = os.path.join(root, n)
                    out = os.path.join(u, "%d-%s" % (len(objs), n))
                    sh(["objcopy", "--redefine-sym", "main=icbd_main", src, out])
                    objs.append(out)
        sh(["ar", "rcs", os.path.join(u, "all.a")] + sorted(objs))
        gen = [os.path.join(d, "generated"), d]
        sh(["gcc", "-DU_" + part] + SAN.split() + ["-I" + x for x in gen + [REPO, REPO + "/server", REPO + "/pktserv"]] +
           [os.path.join(VERIF, "lib", "unit.c"), "-o", exe, os.path.join(u, "all.a"), "-lssl", "-lcrypto", "-lcrypt", "-ldl"])
        open(stamp, "w").write(key)
        return exe


_pem = None


def pem_bytes():
    """A fixed self-signed test certificate (committed with the harness)."""
    global _pem
    if _pem is None:
        _pem = open(os.path.join(VERIF, "lib", "test.pem"), "rb").read()
    return _pem


class ServerDied(Exception):
    pass


class Hang(Exception):
    pass


class ProtocolError(Exception):
    pass


HANG_T = float(os.environ.get("ICB_HANG_T", "20"))


def set_hang(t):
    global HANG_T
    HANG_T = t


class Clock:
    def __init__(self, path):
        with open(path, "wb") as f:
            f.write(b"\0" * 4096)
        self.f = open(path, "r+b")
        self.m = mmap.mmap(self.f.fileno(), 4096)
        self.set(T0)
        self.io(0, 1)

    def set(self, sec, usec=0):
        self.sec, self.usec = sec, usec
        struct.pack_into("<qq", self.m, 0, sec, usec)

    def io(self, mode, seed):
        struct.pack_into("<QQ", self.m, 16, mode, (seed * 0x9E3779B97F4A7C15 + 0x1234567) & ((1 << 64) - 1) or 1)

    def dbfault(self, kind=0, at=1, n=1, act=0):
        """make calls that write the database file fail, or be the server's last (see the shim)"""
        struct.pack_into("<QQQQQ", self.m, 64, 0, at, n, act, 0)
        struct.pack_into("<Q", self.m, 64, kind)

    def signal_at(self, sig, n):
        """let this signal arrive while the server is inside its n-th time conversion from now"""
        struct.pack_into("<Q", self.m, 112, n)
        struct.pack_into("<Q", self.m, 104, sig)

    def signalled(self):
        return struct.unpack_from("<Q", self.m, 104)[0] == 0

    def polls(self):
        return struct.unpack_from("<Q", self.m, 48)[0]

    def heap(self, ask=False):
        """bytes the server has allocated, as of its first look around after asking; None if not known"""
        if ask:
            struct.pack_into("<Q", self.m, 56, 1)
        v = struct.unpack_from("<Q", self.m, 56)[0]
        return v - 2 if v >= 2 else None

    def dbhits(self):
        return struct.unpack_from("<Q", self.m, 96)[0]

    def window(self, fd, n=None):
        """let the peer of descriptor fd take n more bytes (None: no limit)"""
        struct.pack_into("<Q", self.m, 128 + 8 * fd, 0 if n is None else n + 1)

    def room(self, fd):
        v, = struct.unpack_from("<Q", self.m, 128 + 8 * fd)
        return None if v == 0 else v - 1

    def injected(self):
        return struct.unpack_from("<Q", self.m, 32)[0]

    def close(self):
        self.m.close(); self.f.close()


def worker_net():
    """third octet for this process's listener, so parallel workers never share ports"""
    return int(os.environ.get("ICB_WNET", "0"))


class Server:
    """One icbd process in a scratch directory of its own."""

    def __init__(self, exe, files=None, tls=False, loglevel=0, keepdir=None, now=T0, dual=False):
        self.exe = exe
        self.dual = dual        # all addresses, IPv4 as mapped ones
        self.tls = tls
        self.dir = keepdir or tempfile.mkdtemp(prefix="icbv-")
        self.own = keepdir is None
        self.loglevel = loglevel
        for k, v in (files or {}).items():
            with open(os.path.join(self.dir, k), "wb") as f:
                f.write(v)
        if tls:
            with open(os.path.join(self.dir, "icbd.pem"), "wb") as f:
                f.write(pem_bytes())
        self.clock = Clock(os.path.join(self.dir, ".clock"))
        self.clock.set(now)
        self.proc = None
        self.start()

    def start(self):
        self.host = "127.1.%d.1" % (worker_net() & 255)
        env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "TZ": "UTC", "ICB_SHIM": os.path.join(self.dir, ".clock"),
               "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=1:strict_string_checks=0:log_path=%s/asan" % self.dir,
               "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=77"}
        for attempt in range(40):
            self.port = random_port()
            self.sport = self.port + 1
            cmd = [self.exe, "-f", "-p", str(self.port), "-l", str(self.loglevel)] + ([] if self.dual else ["-b", self.host])
            if self.tls:
                cmd.append("-s%d" % self.sport)
            self.err = open(os.path.join(self.dir, ".stderr"), "wb")
            self.proc = subprocess.Popen(cmd, cwd=self.dir, stdin=subprocess.DEVNULL, stdout=self.err, stderr=self.err, env=env)
            self.err.close()
            pid = os.path.join(self.dir, "icbd.pid")
            t_end = time.time() + 30
            while time.time() < t_end:
                if self.proc.poll() is not None:
                    break
                try:
                    if open(pid).read().strip() == str(self.proc.pid):
                        return
                except OSError:
                    pass
                time.sleep(0.002)
            else:
                self.kill()
                raise Hang("server did not start within 30 s")
            if self.proc.returncode == 77 or self.proc.returncode < 0:
                raise ServerDied("server died during startup: " + self.why())
        raise ServerDied("server would not start: " + self.why())

    def why(self):
        out = "rc=%s " % (self.proc.poll(),)
        try:
            for n in sorted(os.listdir(self.dir)):
                if n.startswith("asan") or n == ".stderr":
                    out += open(os.path.join(self.dir, n), errors="replace").read()[:3000]
        except OSError:
            pass
        return out

    def alive(self):
        return self.proc.poll() is None

    def cpu(self):
        """CPU seconds used so far by the server process"""
        try:
            f = open("/proc/%d/stat" % self.proc.pid).read().rsplit(")", 1)[1].split()
            return (int(f[11]) + int(f[12])) / os.sysconf("SC_CLK_TCK")
        except (OSError, IndexError):
            return 0.0

    def nfds(self):
        try:
            return len(os.listdir("/proc/%d/fd" % self.proc.pid))
        except OSError:
            return -1

    def term(self, sig=signal.SIGTERM, timeout=20):
        if self.proc.poll() is None:
            self.proc.send_signal(sig)
            try:
                self.proc.wait(timeout)
            except subprocess.TimeoutExpired:
                self.kill()
                raise Hang("server did not exit on signal %s" % sig)
        return self.proc.returncode

    def wait_exit(self, timeout=20):
        try:
            return self.proc.wait(timeout)
        except subprocess.TimeoutExpired:
            return None

    def kill(self):
        if self.proc is not None and self.proc.poll() is None:
            self.proc.kill()
            self.proc.wait()

    def asan_report(self):
        out = ""
        for n in sorted(os.listdir(self.dir)):
            if n.startswith("asan"):
                out += open(os.path.join(self.dir, n), errors="replace").read()
        err = open(os.path.join(self.dir, ".stderr"), errors="replace").read()
        if "runtime error" in err or "AddressSanitizer" in err:
            out += err
        return out

    def close(self):
        self.kill()
        self.clock.close()
        if self.own:
            shutil.rmtree(self.dir, ignore_errors=True)


_prng = random.Random(os.getpid())


def random_port():
    return 2 * _prng.randrange(5500, 15500)


def enc(t, *fields, nul=True):
    b = t.encode() + b"\x01".join(f.encode("latin-1") if isinstance(f, str) else f for f in fields)
    if nul:
        b += b"\0"
    return bytes([len(b) & 255]) + b


class Client:
    """Raw ICB client. Frames are returned as bytes: type byte + body, NUL stripped."""

    def __init__(self, srv, tls=False, addr=None, rcvbuf=None, cuts=None, tls12=False, sync=None):
        self.srv = srv
        self.tls = tls
        v6 = bool(addr and ":" in addr)
        s = socket.socket(socket.AF_INET6 if v6 else socket.AF_INET, socket.SOCK_STREAM)
        if rcvbuf:
            s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        s.settimeout(HANG_T)
        if addr:
            s.bind((addr, 0))
        try:
            s.connect(("::1" if v6 else srv.host, srv.sport if tls else srv.port))
        except OSError as e:
            s.close()
            if not srv.alive():
                raise ServerDied(srv.why())
            raise Hang("connect: %s" % e)
        self.raw = s
        self.s = s
        self.buf = bytearray()
        self.eof = False
        self.reset = False
        if tls:
            ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
            ctx.check_hostname = False
            ctx.verify_mode = ssl.CERT_NONE
            if tls12:
                ctx.maximum_version = ssl.TLSVersion.TLSv1_2
            self.inb, self.outb = ssl.MemoryBIO(), ssl.MemoryBIO()
            self.obj = ctx.wrap_bio(self.inb, self.outb)
            t_end = time.time() + HANG_T
            while True:
                try:
                    self.obj.do_handshake()
                    self._flush(cuts, sync)
                    break
                except ssl.SSLWantReadError:
                    self._flush(cuts, sync)
                    if time.time() > t_end:
                        raise Hang("TLS handshake")
                    d = self._recv_raw(t_end)
                    if not d:
                        raise ProtocolError("EOF in TLS handshake")
                    self.inb.write(d)
            self._plain()

    def fileno(self):
        return self.raw.fileno()

    # -- TLS plumbing
    def _flush(self, cuts=None, sync=None):
        d = self.outb.read()
        while d:
            n = len(d) if not cuts else max(1, min(len(d), cuts.pop(0)))
            self.raw.sendall(d[:n])
            d = d[n:]
            if d and sync:
                sync()

    def tls_records(self, chunks):
        """ciphertext of `chunks`, one TLS record per chunk, not yet sent"""
        out = []
        for c in chunks:
            self.obj.write(c)
            out.append(self.outb.read())
        return out

    def _recv_raw(self, t_end):
        while True:
            left = t_end - time.time()
            if left <= 0:
                return None
            self.raw.settimeout(max(0.001, left))
            try:
                return self.raw.recv(65536)
            except socket.timeout:
                return None
            except ConnectionResetError:
                self.reset = True
                return b""
            except OSError:
                return b""

    # -- sending
    def send_raw(self, b):
        """returns False if the connection is already gone"""
        try:
            self.raw.settimeout(HANG_T)
            if self.tls:
                self.obj.write(b)
                self._flush()
            else:
                self.raw.sendall(b)
            return True
        except socket.timeout:
            raise Hang("send blocked: server not reading")
        except (OSError, ssl.SSLError):
            return False

    def send(self, t, *fields, nul=True):
        return self.send_raw(enc(t, *fields, nul=nul))

    def cmd(self, c, args=""):
        return self.send("h", c, args)

    # -- receiving
    def _fill(self, t_end):
        """read more; returns False on timeout; sets eof"""
        if self.eof:
            return True
        d = self._recv_raw(t_end)
        if d is None:
            return False
        if d == b"":
            self.eof = True
            return True
        if self.tls:
            self.inb.write(d)
            self._plain()
        else:
            self.buf += d
        return True

    def _plain(self):
        while True:
            try:
                p = self.obj.read(65536)
                if not p:
                    self.eof = True
                    break
                self.buf += p
            except ssl.SSLWantReadError:
                break
            except ssl.SSLError:
                self.eof = True
                break
        try:
            self._flush()
        except OSError:
            pass

    def _parse(self):
        """next complete frame from the buffer or None"""
        b = self.buf
        if not b:
            return None
        n = b[0]
        if n == 0:
            raise ProtocolError("server sent a zero length byte")
        if len(b) < n + 1:
            return None
        f = bytes(b[1:n + 1])
        del b[:n + 1]
        if f[-1] != 0:
            raise ProtocolError("frame not NUL terminated: %r" % f)
        if b"\0" in f[:-1]:
            raise ProtocolError("NUL inside frame: %r" % f)
        return f[:-1]

    def recv(self, timeout=None):
        """one frame; None on EOF. Hang on timeout."""
        t_end = time.time() + (HANG_T if timeout is None else timeout)
        while True:
            f = self._parse()
            if f is not None:
                return f
            if self.eof:
                return None
            if not self._fill(t_end):
                if timeout is not None:
                    raise TimeoutError
                if not self.srv.alive():
                    raise ServerDied(self.srv.why())
                raise Hang("no reply within %.0f s" % HANG_T)

    def drain(self, wait=0.0):
        out = []
        t_end = time.time() + wait
        while True:
            f = self._parse()
            if f is not None:
                out.append(f)
                continue
            if self.eof:
                return out
            r, _, _ = select.select([self.raw], [], [], max(0, t_end - time.time()))
            if not r:
                return out
            self._fill(time.time() + 1)

    MARK = b"eServer doesn't handle ICB_M_PROTO packets"

    def mark(self):
        """send a packet that has no effect but a fixed error reply"""
        return self.send("j")

    def until_mark(self):
        """frames up to the marker reply (excluded); if EOF comes first self.eof is True"""
        out = []
        while True:
            f = self.recv()
            if f is None:
                return out
            if f.startswith(self.MARK):
                return out
            out.append(f)

    def sync(self):
        self.mark()
        return self.until_mark()

    def login(self, nick, group="1", user="u", cmd="login", pw=""):
        self.send("a", user, nick, group, cmd, pw)

    def close(self):
        try:
            self.raw.close()
        except OSError:
            pass

    def abort(self):
        """RST close"""
        try:
            self.raw.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack("ii", 1, 0))
            self.raw.close()
        except OSError:
            pass


def sync_all(clients):
    """Quiesce: every effect of everything sent so far is in the returned frames."""
    live = [c for c in clients if c is not None and not c.eof]
    for c in live:
        c.mark()
    return {c: c.until_mark() for c in live}
