"""Tiny ICB client and server starter for the demonstration (plain sockets, scratch directory)."""
import os, random, shutil, socket, subprocess, sys, tempfile, time


class Srv:
    def __init__(self, files=None, keep=None, preload=None, env=None, args=()):
        self.dir = keep or tempfile.mkdtemp(prefix="icbdemo-")
        for k, v in (files or {}).items():
            open(os.path.join(self.dir, k), "wb").write(v)
        exe = os.path.join(os.getcwd(), "_build", "server", "icbd")
        e = dict(os.environ, TZ="UTC", LC_ALL="C")
        e.update(env or {})
        if preload:
            e["LD_PRELOAD"] = preload
        for _ in range(30):
            self.port = random.randrange(20000, 32000)
            self.p = subprocess.Popen([exe, "-f", "-p", str(self.port), "-b", "127.0.0.1", "-l", "0"] + list(args), cwd=self.dir, env=e,
                                      stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            for _ in range(250):
                if self.p.poll() is not None:
                    break
                try:
                    socket.create_connection(("127.0.0.1", self.port), 2).close()
                    time.sleep(.05)
                    return
                except OSError:
                    time.sleep(.02)
        raise SystemExit("server did not start")

    def alive(self):
        return self.p.poll() is None

    def stop(self, sig=15):
        if self.alive():
            self.p.send_signal(sig)
            try:
                self.p.wait(10)
            except subprocess.TimeoutExpired:
                self.p.kill(); self.p.wait()

    def close(self):
        self.stop(9)
        shutil.rmtree(self.dir, ignore_errors=True)


class C:
    def __init__(self, srv, nick=None, group="1", user="u", pw="", addr=None, typ="login"):
        self.s = socket.socket()
        if addr:
            self.s.bind((addr, 0))
        self.s.settimeout(5)
        self.s.connect(("127.0.0.1", srv.port))
        self.b = b""
        self.eof = False
        if nick is not None:
            self.pkt("a", user, nick, group, typ, pw)
            self.sync()

    def raw(self, b):
        self.s.sendall(b)

    def pkt(self, t, *f):
        d = t.encode() + b"\x01".join(x.encode("latin-1") if isinstance(x, str) else x for x in f) + b"\0"
        self.raw(bytes([len(d)]) + d)

    def cmd(self, c, a=""):
        """send a command, return everything received up to now"""
        self.pkt("h", c, a)
        return self.sync()

    def frame(self):
        while True:
            if self.b and len(self.b) > self.b[0]:
                f, self.b = self.b[1:self.b[0] + 1], self.b[self.b[0] + 1:]
                return f.rstrip(b"\0")
            try:
                d = self.s.recv(4096)
            except OSError:
                d = b""
            if not d:
                self.eof = True
                return None
            self.b += d

    def sync(self):
        """frames up to the reply to a packet the server never handles"""
        try:
            self.pkt("j")
        except OSError:
            pass
        out = []
        while True:
            f = self.frame()
            if f is None or f.startswith(b"eServer doesn't handle ICB_M_PROTO"):
                return out
            out.append(f)

    def close(self):
        self.s.close()


def has(frames, text):
    t = text.encode("latin-1") if isinstance(text, str) else text
    return any(t in f for f in frames)


def check(ok, what):
    if not ok:
        print("FAILED: " + what)
        os._exit(1)


def preload():
    """build the preloaded helper that lies beside this file"""
    here = os.path.dirname(os.path.abspath(__file__))
    d = tempfile.mkdtemp(prefix="icbpre-")
    so = os.path.join(d, "pre.so")
    subprocess.check_call(["gcc", "-shared", "-fPIC", "-O1", "-o", so, os.path.join(here, "pre.c"), "-ldl"])
    return so
