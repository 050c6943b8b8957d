"""Serves the repository's Python code: one JSON request line in, one JSON response line out.

{"do": [step, ...]} runs the steps in order and answers {"out": [result, ...]}.  Steps:
  ["fresh"]                          forget every imported repository module
  ["chdir", dir] ["seed", n]
  ["call", name, args, kwargs, keep] call a dotted name (module.attr...), or "$x.method" of a kept object
  ["get", name] ["set", name, value]
  ["main", script, argv]             run a script as the main program
A result is {"v": value, "log": [[logger, level, message]...], "text": stdout} or has "exc" / "exit" instead of "v".
Values: JSON, {"nd": nested lists} for arrays, {"ref": x} for kept objects, {"tuple": [...]}.
"""
import contextlib
import importlib
import io
import json
import logging
import os
import random
import runpy
import sys

REPO, STUBS = sys.argv[1], sys.argv[2]
sys.dont_write_bytecode = True
sys.path[:0] = [REPO, STUBS]
import numpy as np  # noqa: E402

OWN = ("optimizer", "dataset", "dataset_creator", "justkeydding_ensemble", "ga", "model_trainer", "model_tester", "annotate_inline")
kept = {}
LOG = []


class H(logging.Handler):
    def emit(self, r):
        LOG.append([r.name, r.levelname, r.getMessage()])


root = logging.getLogger()
root.addHandler(H())
root.setLevel(logging.WARNING)


def fresh():
    for m in list(sys.modules):
        if m.split(".")[0] in OWN:
            del sys.modules[m]
    kept.clear()


def enc(x, d=0):
    if isinstance(x, np.ndarray):
        return {"nd": x.tolist(), "dtype": str(x.dtype)} if x.dtype != object else {"obj": [enc(y) for y in x.tolist()]}
    if isinstance(x, np.generic):
        return x.item()
    if isinstance(x, tuple):
        return {"tuple": [enc(y) for y in x]}
    if isinstance(x, list):
        return [enc(y) for y in x]
    if isinstance(x, dict):
        return {"dict": [[enc(k), enc(v)] for k, v in x.items()]}
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    if d == 0 and hasattr(x, "__dict__"):
        return {"object": type(x).__name__}
    return {"repr": repr(x)}


def dec(x):
    if isinstance(x, list):
        return [dec(y) for y in x]
    if isinstance(x, dict):
        if "nd" in x:
            return np.array(x["nd"], dtype=x.get("dtype", float))
        if "ref" in x:
            return kept[x["ref"]]
        if "tuple" in x:
            return tuple(dec(y) for y in x["tuple"])
        return {k: dec(v) for k, v in x["dict"]}
    return x


def find(name):
    parts = name.split(".")
    if parts[0].startswith("$"):
        o, parts = kept[parts[0][1:]], parts[1:]
    else:
        for k in range(len(parts), 0, -1):
            try:
                o = importlib.import_module(".".join(parts[:k]))
            except ImportError:
                if k == 1:
                    raise
                continue
            parts = parts[k:]
            break
    for p in parts:
        o = getattr(o, p)
    return o


def setval(name, value):
    head, last = name.rsplit(".", 1)
    setattr(find(head), last, value)


def step(s):
    op = s[0]
    if op == "fresh":
        return fresh()
    if op == "chdir":
        return os.chdir(s[1])
    if op == "env":
        os.environ[s[1]] = s[2]
        return None
    if op == "seed":
        return random.seed(s[1])
    if op == "call":
        kw = {k: dec(v) for k, v in (s[3] if len(s) > 3 and s[3] else {}).items()}
        r = find(s[1])(*[dec(a) for a in s[2]], **kw)
        if len(s) > 4 and s[4]:
            kept[s[4]] = r
        return r
    if op == "get":
        return find(s[1])
    if op == "set":
        return setval(s[1], dec(s[2]))
    if op == "wrap":  # replace a function by a recorded stand-in: see ["wrap", name, table, default]
        table = {json.dumps(k): dec(v) for k, v in s[2]}
        default = dec(s[3])
        calls = kept.setdefault("calls", [])

        def fake(*a, **k):
            args = [x for x in a if isinstance(x, (str, int, float, list, tuple))]
            calls.append(args)
            return table.get(json.dumps(args), default)
        return setval(s[1], fake)
    if op == "bare":  # an object of a class, not initialised
        c = find(s[1])
        kept[s[2]] = c.__new__(c)
        return None
    if op == "pop":
        return kept.pop(s[1])
    if op == "main":
        old, oldpath = sys.argv, list(sys.path)
        sys.argv = [s[1]] + s[2]
        try:
            g = runpy.run_path(s[1], run_name="__main__")
            if len(s) > 3:
                return {k: g.get(k) for k in s[3]}
            return None
        finally:
            sys.argv, sys.path[:] = old, oldpath
            for h in list(root.handlers):
                if not isinstance(h, H):
                    root.removeHandler(h)
                    h.close()
            if not root.handlers:
                root.addHandler(H())
            root.setLevel(logging.WARNING)
    raise KeyError(op)


def main():
    real = os.fdopen(os.dup(1), "w")
    nul = os.open(os.devnull, os.O_WRONLY)
    os.dup2(nul, 1)
    os.dup2(nul, 2)
    requests = os.fdopen(os.dup(0))  # (exit() closes sys.stdin)
    for line in requests:
        out = []
        for s in json.loads(line)["do"]:
            LOG.clear()
            sys.stdin = open(os.devnull)
            buf, r = io.StringIO(), {}
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
                try:
                    r["v"] = enc(step(s))
                except SystemExit as e:
                    r["exit"] = e.code if isinstance(e.code, int) else 0 if e.code is None else 1
                except Exception as e:
                    import traceback
                    tb = traceback.extract_tb(e.__traceback__)[-1]
                    r["exc"] = "%s: %s (%s:%s)" % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)
            if LOG:
                r["log"] = list(LOG)
            if buf.getvalue():
                r["text"] = buf.getvalue()
            out.append(r)
        real.write(json.dumps({"out": out}) + "\n")
        real.flush()


main()
