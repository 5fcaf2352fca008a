"""Drives real ethersync daemons for the demonstrations. Everything happens in a scratch directory."""
import json, os, re, select, shutil, signal, socket, subprocess, sys, tempfile, time

BIN = os.path.join(os.getcwd(), "daemon/target/debug/ethersync")
SCRATCH = tempfile.mkdtemp(prefix="demo-")
PROCS = []


def free_port():
    s = socket.socket()
    s.bind(("", 0))
    port = s.getsockname()[1]
    s.close()
    return port


class Daemon:
    def __init__(self, name, files=None, peer=None, port=None, config=None, fresh=True, init=False):
        self.name = name
        self.dir = os.path.join(SCRATCH, name)
        self.run = os.path.join(SCRATCH, name + "-run")
        if fresh:
            os.makedirs(os.path.join(self.dir, ".ethersync"))
            os.makedirs(self.run, mode=0o700)
        os.chmod(self.run, 0o700)
        for p, t in (files or {}).items():
            self.write(p, t)
        if config is not None:
            with open(os.path.join(self.dir, ".ethersync/config"), "w") as f:
                f.write(config)
        self.port = port or free_port()
        port = self.port
        self.args = ["daemon", self.dir] + (["--peer", peer] if peer else []) + (["--port", str(port)] if port else []) + (["--init"] if init else [])
        self.start()

    def start(self):
        env = dict(os.environ, XDG_RUNTIME_DIR=self.run, HOME=SCRATCH, USER="demo", RUST_LOG="", NO_COLOR="1")
        self.logpath = os.path.join(SCRATCH, self.name + ".log")
        log = open(self.logpath, "ab")
        self.proc = subprocess.Popen([BIN] + self.args, stdout=log, stderr=log, env=env, cwd=self.dir)
        PROCS.append(self.proc)
        self.sock = os.path.join(self.run, "ethersync")
        until(lambda: self.connectable(), "the daemon's socket")

    def connectable(self):
        if self.proc.poll() is not None:
            finish(3, f"daemon {self.name} stopped at start: {self.log()[-500:]}")
        try:
            s = socket.socket(socket.AF_UNIX)
            s.connect(self.sock)
            s.close()
            return True
        except OSError:
            return False

    def alive(self):
        return self.proc.poll() is None

    def log(self):
        return open(self.logpath, errors="replace").read()

    def address(self):
        return "/ip4/127.0.0.1/tcp/%d" % self.port

    def stop(self, sig=signal.SIGKILL):
        self.proc.send_signal(sig)
        self.proc.wait()

    def path(self, p):
        return os.path.join(self.dir, p)

    def write(self, p, t):
        os.makedirs(os.path.dirname(self.path(p)), exist_ok=True)
        with open(self.path(p), "wb") as f:
            f.write(t.encode() if isinstance(t, str) else t)

    def read(self, p):
        try:
            with open(self.path(p), "rb") as f:
                return f.read().decode(errors="replace")
        except OSError:
            return None


class Editor:
    def __init__(self, daemon):
        self.d = daemon
        self.s = socket.socket(socket.AF_UNIX)
        self.s.connect(daemon.sock)
        self.buf = b""
        self.n = 0
        self.queue = []

    def raw(self, line):
        self.s.sendall(line.encode() + b"\n")

    def uri(self, p):
        return "file://" + self.d.path(p)

    def next(self, timeout=20):
        """The next message of the daemon."""
        if self.queue:
            return self.queue.pop(0)
        end = time.time() + timeout
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.s], [], [], max(0, end - time.time()))
            if not r:
                return None
            b = self.s.recv(65536)
            if not b:
                return None
            self.buf += b
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)

    def next_edit(self, timeout=20):
        while True:
            m = self.next(timeout)
            if m is None or m.get("method") == "edit":
                return m

    def next_cursor(self, timeout=20):
        while True:
            m = self.next(timeout)
            if m is None or (m.get("method") == "cursor" and m["params"]["ranges"]):
                return m

    def request(self, method, params, wait=True):
        self.n += 1
        self.raw(json.dumps({"jsonrpc": "2.0", "id": self.n, "method": method, "params": params}))
        if not wait:
            return None
        seen = []
        while True:
            m = self.next()
            if m is None:
                finish(3, f"no answer to {method}; daemon alive: {self.d.alive()}")
            if "method" in m:
                seen.append(m)
            else:
                self.queue = seen + self.queue
                return m

    def open(self, p):
        return self.request("open", {"uri": self.uri(p)})

    def close(self, p):
        return self.request("close", {"uri": self.uri(p)})

    def edit(self, p, rev, l1, c1, l2, c2, text, wait=True):
        return self.request("edit", {"uri": self.uri(p), "revision": rev, "delta": [
            {"range": {"start": {"line": l1, "character": c1}, "end": {"line": l2, "character": c2}}, "replacement": text}]}, wait)

    def cursor(self, p, l1, c1, l2, c2):
        return self.request("cursor", {"uri": self.uri(p), "ranges": [
            {"start": {"line": l1, "character": c1}, "end": {"line": l2, "character": c2}}]})


def offset(t, pos):
    lines = t.split("\n")
    return sum(len(l) + 1 for l in lines[:pos["line"]]) + pos["character"]


def apply(t, delta):
    """Applies an edit of the daemon to a text; all ranges are relative to the text before."""
    for op in reversed(delta):
        a, b = offset(t, op["range"]["start"]), offset(t, op["range"]["end"])
        t = t[:a] + op["replacement"] + t[b:]
    return t


def until(f, what, seconds=30):
    end = time.time() + seconds
    while time.time() < end:
        r = f()
        if r:
            return r
        time.sleep(0.05)
    finish(2, f"waited in vain for {what}")


def eventually(f, seconds=15):
    end = time.time() + seconds
    while time.time() < end:
        if f():
            return True
        time.sleep(0.05)
    return False


def finish(code, message):
    print(message)
    for p in PROCS:
        if p.poll() is None:
            p.kill()
            p.wait()
    shutil.rmtree(SCRATCH, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def expect(ok, message):
    if not ok:
        finish(1, "BROKEN: " + message)
