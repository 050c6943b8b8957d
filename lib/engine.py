"""Property-based search engine used by every check.

A check is a module in checks/ holding a list of clauses.  A clause is a function over one
generated case (plain JSON data drawn by a Hypothesis strategy) that raises when the property
is violated.  The engine drives each clause with Hypothesis (generation and shrinking), runs
the clauses in parallel worker processes, replays every failure three times in a fresh process
before believing it, writes the evidence file and the replay file.
"""
import hashlib
import importlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time
import traceback
import zlib

import multiprocessing as mp

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "lib"))
sys.path.insert(0, os.path.join(VERIF, "checks"))


class Violation(Exception):
    pass


class Discard(Exception):
    """The case is outside the clause's domain (counted, never a failure)."""


class EngineError(Exception):
    pass


class Clause:
    def __init__(self, name, strategy, fn, quick, thorough, max_seconds=None, examples=(),
                 shrink=True, replay_timeout=240, workers=1):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.thorough = quick, thorough
        self.max_seconds = max_seconds
        self.examples = list(examples)
        self.shrink = shrink
        self.replay_timeout = replay_timeout
        self.workers = workers


class Check:
    def __init__(self, pid, rule, components=(), assumptions=(), level="exploration", times=1):
        self.times = times  # of the quick budget of every clause
        self.pid, self.rule = pid, rule
        self.components = list(components)
        self.assumptions = list(assumptions)
        self.level = level
        self.clauses = []

    def clause(self, name, strategy, quick=400, thorough=None, **kw):
        def deco(fn):
            kw["workers"] = min(6, kw.get("workers", 1) * min(2, self.times))
            self.clauses.append(Clause(name, strategy, fn, quick * self.times,
                                       thorough if thorough else quick * 15, **kw))
            return fn
        return deco

    def get(self, name):
        for c in self.clauses:
            if c.name == name:
                return c
        raise KeyError(name)


class Ctx:
    """What a clause may use: bridges to the code under test, a scratch directory."""

    def __init__(self, seed, tier):
        self.seed, self.tier = seed, tier
        self._bridges = {}
        self._tmp = None
        self.labels = {}

    def bridge(self, name):
        import bridge
        if name not in self._bridges:
            self._bridges[name] = bridge.Bridge(name)
        return self._bridges[name]

    def fresh_bridge(self, name):
        import bridge
        return bridge.Bridge(name)

    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix="jkverif-")
        return self._tmp

    def label(self, name):
        self.labels[name] = self.labels.get(name, 0) + 1

    def close(self):
        for b in self._bridges.values():
            b.close()
        self._bridges = {}
        if self._tmp:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def describe_exc(e):
    if isinstance(e, Violation):
        return str(e)
    tb = traceback.extract_tb(e.__traceback__)
    last = tb[-1] if tb else None
    where = "%s:%s" % (os.path.basename(last.filename), last.lineno) if last else "?"
    return "%s: %s (at %s)" % (type(e).__name__, e, where)


def run_case(clause, case, ctx):
    """One evaluation.  Returns (nontrivial, label)."""
    out = clause.fn(case, ctx)
    return out


def _worker(args):
    """Search one clause (one shard).  Runs in its own process."""
    (pid, cname, seed, tier, shard, nshards, deadline) = args
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    check = load_check(pid)
    clause = check.get(cname)
    ctx = Ctx(seed, tier)
    n_total = clause.quick if tier == "quick" else clause.thorough
    n_total = max(1, (n_total + nshards - 1) // nshards)
    start = time.time()
    end = deadline
    if clause.max_seconds and tier == "quick":
        end = min(end, start + clause.max_seconds)
    st = {"clause": cname, "evaluations": 0, "discarded": 0, "nontrivial": set(), "samples": [],
          "labels": {}, "failure": None, "error": None, "history": [], "truncated": False}
    fail = {"case": None, "msg": None, "size": None, "first": None, "hist": None}
    history = []          # cases evaluated in this process, oldest first (bounded)
    HIST_MAX = 400

    class Stop(BaseException):
        pass

    def evaluate(case):
        if fail["case"] is not None:
            # shrinking: bounded effort
            if time.time() - fail["first"] > 45:
                raise Stop()
        elif time.time() > end:
            st["truncated"] = True
            raise Stop()
        text = json.dumps(case)   # (a replay sees the case as JSON, and unmodified: so does the search)
        case = json.loads(text)
        history.append(text)
        if len(history) > HIST_MAX:
            del history[: len(history) - HIST_MAX]
        st["evaluations"] += 1
        try:
            r = run_case(clause, case, ctx)
        except Discard:
            st["discarded"] += 1
            return
        except (Stop, KeyboardInterrupt):
            raise
        except Exception as e:  # any failure of the clause on a generated case
            case, size = json.loads(text), len(text)
            if fail["case"] is None:
                fail["first"] = time.time()
                fail["hist"] = [json.loads(x) for x in history]
            if fail["case"] is None or size <= fail["size"]:
                fail.update(case=case, msg=describe_exc(e), size=size)
            if getattr(e, "replay_as", None):  # (found by a search of its own: another clause runs the input alone)
                fail["clause"], fail["case"] = e.replay_as
                fail["hist"] = []
            if getattr(e, "no_shrink", False) or not clause.shrink:
                raise Stop()
            raise
        label = None
        if isinstance(r, str):
            label = r
            r = True
        if r:
            k = case_key(case)
            if k not in st["nontrivial"]:
                st["nontrivial"].add(k)
                if len(st["samples"]) < 3:
                    st["samples"].append(case)
            if label:
                st["labels"][label] = st["labels"].get(label, 0) + 1

    try:
        # fixed regression examples first (shard 0)
        if shard == 0:
            for ex in clause.examples:
                evaluate(ex)
        done = 0
        chunk = 0
        while done < n_total and fail["case"] is None and time.time() < end:
            n = min(500, n_total - done)
            before = st["evaluations"]
            hs = zlib.crc32(("%s/%s/%d/%d/%d" % (pid, cname, seed, shard, chunk)).encode())

            @hypothesis.seed(hs)
            @settings(max_examples=n, database=None, deadline=None, derandomize=False,
                      suppress_health_check=list(HealthCheck), print_blob=False,
                      report_multiple_bugs=False,
                      phases=[Phase.generate, Phase.shrink])
            @given(clause.strategy)
            def prop(case):
                evaluate(case)
            prop()
            done += max(1, st["evaluations"] - before)
            chunk += 1
            if st["evaluations"] - before < n // 2 and st["evaluations"] - before < 20:
                # the strategy's space is (nearly) exhausted
                if chunk > 3:
                    break
    except Stop:
        pass
    except Exception as e:
        if fail["case"] is None:
            st["error"] = "".join(traceback.format_exception(e))[-3000:]
    finally:
        ctx.close()
    for k, v in ctx.labels.items():
        st["labels"][k] = st["labels"].get(k, 0) + v
    if fail["case"] is not None:
        st["failure"] = {"case": fail["case"], "msg": fail["msg"], "history": fail["hist"],
                         "clause": fail.get("clause")}
    st.pop("history")
    st["wall"] = time.time() - start
    return st


def load_check(pid):
    mod = importlib.import_module(pid.lower())
    return mod.CHECK


def replay_file(path):
    """Re-run a saved failing case (or history of cases) without the generator.
    Returns (failed, message)."""
    with open(path) as f:
        d = json.load(f)
    check = load_check(d["property"])
    clause = check.get(d["clause"])
    ctx = Ctx(d.get("seed", 1), d.get("tier", "quick"))
    try:
        for i, case in enumerate(d["cases"]):
            last = i == len(d["cases"]) - 1
            try:
                run_case(clause, case, ctx)
            except Discard:
                pass
            except Exception as e:
                if last or not d.get("history"):
                    return True, describe_exc(e)
                return True, describe_exc(e)
        return False, ""
    finally:
        ctx.close()


def _replay_sub(path, timeout):
    try:
        p = subprocess.run([sys.executable, os.path.join(VERIF, "run.py"), "--replay", path],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        return p.returncode == 1, p.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        return False, "replay timed out"


def confirm(pid, clause, seed, tier, failure):
    """Replays three times in fresh processes.  Returns (path, confirmed, note)."""
    rdir = os.path.join(VERIF, "replays")
    os.makedirs(rdir, exist_ok=True)

    def write(cases, hist):
        d = {"property": pid, "clause": clause.name, "seed": seed, "tier": tier,
             "history": hist, "message": failure["msg"], "cases": cases}
        h = hashlib.sha1(json.dumps(cases).encode()).hexdigest()[:10]
        path = os.path.join(rdir, "%s-%s-%s.json" % (pid, clause.name, h))
        with open(path, "w") as f:
            json.dump(d, f, indent=1)
        return path

    path = write([failure["case"]], False)
    ok = sum(_replay_sub(path, clause.replay_timeout)[0] for _ in range(3))
    if ok == 3:
        return path, True, "3/3 replays"
    if ok > 0:
        return path, True, "%d/3 replays (schedule or layout dependent)" % ok
    # not reproducible in isolation: the failure may need the calls made before it
    hist = failure["history"] or []
    n = 2
    t0 = time.time()
    while time.time() - t0 < 240:
        cases = hist[-n:]
        p2 = write(cases, True)
        if _replay_sub(p2, clause.replay_timeout)[0]:
            # shrink the history greedily
            t1 = time.time()
            i = 0
            while i < len(cases) - 1 and time.time() - t1 < 60:
                trial = cases[:i] + cases[i + 1:]
                p3 = write(trial, True)
                if _replay_sub(p3, clause.replay_timeout)[0]:
                    cases = trial
                else:
                    i += 1
                if p3 != p2 and os.path.exists(p3):
                    os.unlink(p3)
            p2 = write(cases, True)
            ok = sum(_replay_sub(p2, clause.replay_timeout)[0] for _ in range(3))
            if ok:
                return p2, True, "history of %d cases, %d/3 replays" % (len(cases), ok)
            break
        if n >= len(hist):
            break
        n *= 4
    return path, False, "0/3 replays"


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get("known", []) if k.get("property") == pid]


def main(pid):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    check = load_check(pid)
    import build
    for c in check.components:
        build.ensure(c)
    build_s = time.time() - t0
    budget = float(os.environ.get("VERIF_BUDGET", "150" if tier == "quick" else "1500"))
    deadline = time.time() + budget

    violations, unconfirmed, errors = [], [], []
    # known findings: replay each recorded input
    for k in load_known(pid):
        clause = check.get(k["clause"])
        with tempfile.NamedTemporaryFile("w", suffix=".json", delete=False) as f:
            json.dump({"property": pid, "clause": k["clause"], "cases": k["cases"], "seed": seed,
                       "tier": tier}, f)
        if _replay_sub(f.name, 120)[0]:
            print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        os.unlink(f.name)

    ncpu = int(os.environ.get("VERIF_JOBS", "0")) or max(2, min(8, os.cpu_count() or 2))
    jobs = []
    for c in check.clauses:
        ns = c.workers if tier == "quick" else max(c.workers, min(4, ncpu))
        for s in range(ns):
            jobs.append((pid, c.name, seed, tier, s, ns, deadline))
    ctxm = mp.get_context("fork")
    results = []
    with ctxm.Pool(min(ncpu, len(jobs)), maxtasksperchild=1) as pool:
        for r in pool.imap_unordered(_worker, jobs, chunksize=1):
            results.append(r)
    per = {}
    for r in results:
        a = per.setdefault(r["clause"], {"evaluations": 0, "discarded": 0, "nontrivial": set(),
                                         "samples": [], "labels": {}, "failures": [],
                                         "truncated": False, "wall": 0.0})
        a["evaluations"] += r["evaluations"]
        a["discarded"] += r["discarded"]
        a["nontrivial"] |= r["nontrivial"]
        a["samples"] += r["samples"]
        a["truncated"] |= r["truncated"]
        a["wall"] = max(a["wall"], r["wall"])
        for k, v in r["labels"].items():
            a["labels"][k] = max(a["labels"].get(k, 0), v) if k.endswith("(most)") else a["labels"].get(k, 0) + v
        if r["failure"]:
            a["failures"].append(r["failure"])
        if r["error"]:
            errors.append((r["clause"], r["error"]))
    for c in check.clauses:
        a = per[c.name]
        for f in a["failures"][:1]:
            path, ok, note = confirm(pid, check.get(f["clause"]) if f.get("clause") else c, seed, tier, f)
            if ok:
                violations.append((c.name, path, f["msg"], note))
            else:
                unconfirmed.append({"clause": c.name, "message": f["msg"], "note": note})
        if violations:
            break
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": check.level,
        "coverage": {
            "evaluations": sum(a["evaluations"] for a in per.values()),
            "distinct_nontrivial": sum(len(a["nontrivial"]) for a in per.values()),
            "rule": check.rule,
            "samples": [{"clause": n, "case": _clip(s)} for n, a in per.items()
                        for s in a["samples"][:2]][:24],
            "clauses": {n: {"evaluations": a["evaluations"], "discarded": a["discarded"],
                            "distinct_nontrivial": len(a["nontrivial"]),
                            "labels": a["labels"], "stopped_by_time": a["truncated"],
                            "wall_s": round(a["wall"], 2)} for n, a in per.items()},
            "build_s": round(build_s, 2),
            "unreproduced": unconfirmed,
        },
        "assumptions": check.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(violations),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d evaluations, %d distinct non-trivial, %.1fs" % (
        pid, ev["coverage"]["evaluations"], ev["coverage"]["distinct_nontrivial"], ev["wall_s"]))
    for u in unconfirmed:
        print("note: unreproduced failure in %s: %s (%s)" % (u["clause"], u["message"], u["note"]))
    if violations:
        for cname, path, msg, note in violations:
            print("  clause %s: %s [%s]" % (cname, msg[:1500], note))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if errors:
        for cname, e in errors:
            sys.stderr.write("engine error in clause %s:\n%s\n" % (cname, e))
        return 2
    return 0


def _clip(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "...(%d chars)" % len(s)


def replay_main(path):
    with open(path) as f:
        d = json.load(f)
    check = load_check(d["property"])
    import build
    for c in check.components:
        build.ensure(c)
    failed, msg = replay_file(path)
    if failed:
        print("reproduced: %s" % msg)
        return 1
    print("not reproduced")
    return 0
