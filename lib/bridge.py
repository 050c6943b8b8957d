"""Client of a bridge program: one request line in, one response line out.

Tokens are separated by blanks: strings travel as 's' + hex, doubles as C hex floats, so nothing
is lost on the way.  A bridge that dies (sanitizer report, abort, signal) or does not answer is a
failure of the case that was running.
"""
import os
import select
import subprocess
import tempfile
import time

import build

ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:"
                    "detect_container_overflow=0:malloc_context_size=6:color=never:"
                    "hard_rss_limit_mb=6000",
    "UBSAN_OPTIONS": "print_stacktrace=0:color=never:halt_on_error=1:exitcode=99",
    "VAMP_PATH": "/nonexistent",  # no chord dictionary of this machine's
    "LC_ALL": "C.UTF-8",
}


class BridgeCrash(Exception):
    pass


class BridgeTimeout(Exception):
    no_shrink = True


class RemoteException(Exception):
    """The code under test threw a C++ exception."""


def enc(x):
    if isinstance(x, bool):
        return "1" if x else "0"
    if isinstance(x, int):
        return str(x)
    if isinstance(x, float):
        return x.hex() if x == x and abs(x) != float("inf") else repr(x)
    if isinstance(x, bytes):
        return "s" + x.hex()
    if isinstance(x, str):
        return "s" + x.encode("utf-8", "surrogateescape").hex()
    raise TypeError(type(x))


def dec(t):
    if t[0] == "s":
        return bytes.fromhex(t[1:]).decode("utf-8", "surrogateescape")
    if t[0] == "f":
        t = t[1:]
        if "x" in t:
            return float.fromhex(t)
        return float(t)
    return int(t)


class Bridge:
    def __init__(self, component, timeout=30.0):
        self.exe = build.ensure(component)
        self.component = component
        self.timeout = timeout
        self.p = None

    def start(self):
        self.err = tempfile.TemporaryFile()
        env = dict(os.environ)
        env.update(ENV)
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.err, env=env, bufsize=0)
        self.buf = b""

    def close(self):
        if self.p:
            try:
                self.p.stdin.close()
            except OSError:
                pass
            self.p.kill()
            self.p.wait()
            self.p.stdout.close()
            self.err.close()
            self.p = None

    def _stderr(self):
        self.err.seek(0)
        t = self.err.read().decode(errors="replace")
        lines = [l for l in t.splitlines() if "ERROR:" in l or "runtime error" in l
                 or "Assertion" in l or "assertion" in l or "terminate" in l or "what()" in l]
        return " | ".join(lines[:4]) if lines else t[-400:]

    def call(self, cmd, *args, timeout=None):
        if self.p is None or self.p.poll() is not None:
            self.close()
            self.start()
        flat = []

        def add(a):
            if isinstance(a, (list, tuple)):
                for y in a:
                    add(y)
            else:
                flat.append(enc(a))
        for a in args:
            add(a)
        line = (cmd + " " + " ".join(flat) + "\n").encode()
        try:
            self._write(line)
        except OSError:
            return self._dead(cmd)
        end = time.time() + (timeout or self.timeout)
        while b"\n" not in self.buf:
            left = end - time.time()
            if left <= 0:
                self.close()
                raise BridgeTimeout("%s: no answer within %.0f s" % (cmd, timeout or self.timeout))
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if r:
                chunk = os.read(self.p.stdout.fileno(), 1 << 16)
                if not chunk:
                    return self._dead(cmd)
                self.buf += chunk
        line, self.buf = self.buf.split(b"\n", 1)
        toks = line.decode().split()
        if toks and toks[0] == "EXC":
            raise RemoteException(dec(toks[1]))
        if not toks or toks[0] != "OK":
            raise BridgeCrash("unexpected answer %r" % line[:200])
        return [dec(t) for t in toks[1:]]

    def _write(self, data):
        fd = self.p.stdin.fileno()
        mv = memoryview(data)
        while mv:
            n = os.write(fd, mv[:65536])
            mv = mv[n:]

    def _dead(self, cmd):
        rc = self.p.wait()
        msg = "%s: the program died (status %s): %s" % (cmd, rc, self._stderr())
        self.close()
        raise BridgeCrash(msg)
