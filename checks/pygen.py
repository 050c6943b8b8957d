"""The repository's Python code, served by bridge/pybridge.py."""
import json
import select
import subprocess
import sys
import tempfile
import time

import numpy as np

import build
from common import *

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STUBS = os.path.join(VERIF, "stubs", "py")


class Result:
    def __init__(self, r):
        self.v, self.exc, self.exit = dec(r.get("v")), r.get("exc"), r.get("exit")
        self.log, self.text = r.get("log", []), r.get("text", "")

    def warned(self):
        return [m for _, l, m in self.log if l in ("WARNING", "ERROR")]


def dec(x):
    if isinstance(x, list):
        return [dec(y) for y in x]
    if isinstance(x, dict):
        if "nd" in x:
            return np.array(x["nd"])
        if "tuple" in x:
            return tuple(dec(y) for y in x["tuple"])
        if "dict" in x:
            return {dec(k): dec(v) for k, v in x["dict"]}
        if "obj" in x:
            return [dec(y) for y in x["obj"]]
        return x
    return x


def ref(name):
    return {"ref": name}


def nd(a):
    a = np.asarray(a)
    return {"nd": a.tolist(), "dtype": str(a.dtype)}


class Py:
    """One server process; run() performs steps, do() one of them."""

    def __init__(self):
        self.p = None

    def start(self):
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        self.p = subprocess.Popen([sys.executable, os.path.join(VERIF, "bridge", "pybridge.py"), build.REPO, STUBS],
                                  stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=env, bufsize=0)
        self.buf = b""

    def close(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None

    def run(self, steps, timeout=30):
        if self.p is None or self.p.poll() is not None:
            self.close()
            self.start()
        data = (json.dumps({"do": steps}) + "\n").encode()
        mv = memoryview(data)
        end = time.time() + timeout
        try:
            while mv:
                mv = mv[os.write(self.p.stdin.fileno(), mv[:65536]):]
            while b"\n" not in self.buf:
                left = end - time.time()
                if left <= 0:
                    self.close()
                    raise BridgeTimeout("no answer within %d s to %s" % (timeout, str(steps)[-300:]))
                if select.select([self.p.stdout], [], [], left)[0]:
                    c = os.read(self.p.stdout.fileno(), 1 << 16)
                    if not c:
                        raise BridgeCrash("the Python process died: %s" % str(steps)[-300:])
                    self.buf += c
        except OSError:
            raise BridgeCrash("the Python process died: %s" % str(steps)[-300:])
        line, self.buf = self.buf.split(b"\n", 1)
        return [Result(r) for r in json.loads(line)["out"]]

    def do(self, *step, timeout=30):
        return self.run([list(step)], timeout)[0]

    def call(self, name, *args, keep=None, timeout=30, **kw):
        """A call that must succeed; its value."""
        r = self.do("call", name, list(args), kw, keep, timeout=timeout)
        need(r.exc is None and r.exit is None, "%s%s: %s", name, str(args)[:200], r.exc or "exits %s" % r.exit)
        return r.v


def py(ctx, fresh=True):
    p = ctx._bridges.setdefault("py", Py())
    if fresh:
        p.run([["fresh"], ["chdir", "/"]])
    return p
