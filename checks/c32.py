from appgen import *
from pygen import *

CHECK = Check(
    "C32",
    "The ensemble and the evaluator running the real program: drawn note sequences as chromagrams and MIDI files (also "
    "missing, junk and silent ones), 1-3 profiles and 1-2 transitions, built-in, generated and with tiny numbers, mixed "
    "or not.  Non-trivial: a file that gives scores was evaluated by more than one pair.",
    components=["app!fast"],
    assumptions=["An Ensembler object is asked for one mixing mode; its grade_ functions (left over from the evaluator) are not used."])
KP, KT = "optimizer.key_profiles.", "optimizer.key_transitions."
KPS = ["krumhansl_kessler", "aarden_essen", "sapp", "bellman_budge", "temperley", "albrecht_shanahan1", "simple_natural_minor"]
KTS = ["ktg_exponential2", "ktg_exponential5", "ktg_exponential10", "ktg_exponential15", "ktg_linear"]


def workdir(ctx):
    d = os.path.join(ctx.tmp, "w")
    if not os.path.isdir(d):
        os.makedirs(os.path.join(d, "bin"))
        os.symlink(build.ensure_cached("app!fast"), os.path.join(d, "bin", "justkeydding"))
    return d


def registry(p, case):
    """Registers the drawn profiles and transitions; name -> numbers."""
    kps, kts = {}, {}
    for i, k in enumerate(case["kps"]):
        if isinstance(k, str):
            kps[k] = p.call(KP + "get", k)
        else:
            r = np.random.default_rng(k)
            v = [(lambda x: (x / x.sum()).tolist())(r.random(12) ** r.integers(1, 30)) for _ in range(2)]
            p.call(KP + "insert_new", "kp%d" % i, v[0] + v[1])
            kps["kp%d" % i] = v[0] + v[1]
    for i, k in enumerate(case["kts"]):
        if isinstance(k, str):
            kts[k] = p.call(KT + "get", k)
        else:
            r = np.random.default_rng(k)
            ratio = 1.5 + 60 * r.random()
            w = [ratio ** -(x - 1) for x in M.RANK]
            v = [x / sum(w) for x in w]
            p.call(KT + "insert_new", "ktg_given%d" % i, v)
            kts["ktg_given%d" % i] = v
    return kps, kts


def by_rank(v):
    d = dict(zip(M.RANK, v))
    return np.array([[d[M.rank_between(a, b)] for b in range(24)] for a in range(24)])


def nums(v):
    return " ".join(repr(float(x)) for x in v)


conf = {"obs": notes(16), "kind": st.sampled_from(["csv", "csv", "mid", "blank", "missing", "junk", "silent", "other"]),
        "kps": st.lists(st.one_of(st.sampled_from(KPS), st.integers(0, 10 ** 6)), min_size=1, max_size=3, unique=True),
        "kts": st.lists(st.one_of(st.sampled_from(KTS), st.integers(0, 10 ** 6)), min_size=1, max_size=2, unique=True)}


def put(d, name, kind, obs):
    """A file of the given kind; whether it has notes."""
    n = name + {"mid": ".mid", "other": ".txt"}.get(kind, ".csv")
    os.makedirs(os.path.dirname(os.path.join(d, n)), exist_ok=True)
    if kind == "blank":
        head, tail = os.path.split(n)
        n = os.path.join(head, "my  own " + tail)
    f = os.path.join(d, n)
    if os.path.exists(f):
        os.unlink(f)
    if kind in ("csv", "blank", "other"):
        open(f, "wb").write(notes_csv(obs).encode())
    elif kind == "mid":
        open(f, "wb").write(notes_midi(obs))
    elif kind == "junk":
        open(f, "wb").write(b"no,notes\nhere\n")
    elif kind == "silent":
        open(f, "wb").write(text(tokens([(0.0, [0.0] * 12), (1.0, [1.5] * 12)], 0)).encode())
    return n, kind in ("csv", "blank", "mid")


@CHECK.clause("ensemble", st.fixed_dictionaries(dict(conf, mixed=st.booleans(), ask=st.booleans(), other=st.none() | notes(10))), quick=130, workers=4)
def ensemble(case, ctx):
    """Every profile with every transition, in order, and the program's own 24 scores for each."""
    p = py(ctx)
    d = workdir(ctx)
    p.run([["chdir", d]])
    kps, kts = registry(p, case)
    name, ok = put(d, "song", case["kind"], case["obs"])
    p.call("optimizer.ensembler.Ensembler", list(kps), list(kts), keep="e")
    want = [(a, c, t) for a in kps for c in kps for t in kts] if case["mixed"] else [(a, a, t) for a in kps for t in kts]
    if case["ask"]:
        got = p.call("$e.get_ensemble", *([case["mixed"]] if case["mixed"] or len(case["obs"]) % 2 else []))
        need([tuple(x) for x in got] == [(a + "_" + c if case["mixed"] else a, t) for a, c, t in want],
             "the ensemble is %s, should be %s", got, want)
    live = scores(case, ctx, p, d, kps, kts, want, name, ok)
    if case["other"]:
        # the same ensemble on other music under the same name
        name, ok = put(d, "song", case["kind"], case["other"])
        live += scores(dict(case, obs=case["other"]), ctx, p, d, kps, kts, want, name, ok)
    if p.do("get", KP + "_kp").v.keys() >= {a + "_" + c for a in kps for c in kps} and not case["mixed"]:
        need(False, "mixes were registered without being asked for")
    return case["kind"] if live and len(want) > 1 else False


def scores(case, ctx, p, d, kps, kts, want, name, ok):
    res = p.do("call", "$e.evaluate", [name] + ([case["mixed"]] if case["mixed"] or len(case["obs"]) % 3 else []))
    need(res.exc is None, "evaluate: %s", res.exc)
    rows = res.v
    need(len(rows) == len(want), "%d pairs give %d rows", len(want), len(rows))
    need(bool(res.warned()) == (not ok), "file %s: logged %s", case["kind"], res.warned())
    live = 0
    for row, (a, c, t) in zip(rows, want):
        need(isinstance(row, list) and len(row) == 24 and all(isinstance(x, float) for x in row), "%s: a row is %s", (a, c, t), row)
        if not ok:
            need(row == [-1000000.0] * 24, "a file the program cannot analyse (%s) gives %s", case["kind"], row)
            continue
        major, minor = kps[a][:12], kps[c][12:]
        r = app(ctx, ["-p", "-K", nums(major + minor), "-T", nums(kts[t]), name], cwd=d)
        own = [float(x) for x in r.out.split()]
        need(row == own, "%s with %s: %s, the program itself says %s", (a, c), t, row, own)
        _, _, margin, v2 = M.detect(major, minor, by_rank(kts[t]), case["obs"])
        if margin > 1e-4:
            for k in range(24):
                need(abs(row[k] - v2[k]) <= 1e-3 + 1e-4 * abs(v2[k]), "%s with %s: key %d scores %s, the model says %s",
                     (a, c), t, k, row[k], v2[k])
            live += 1
    return live


@CHECK.clause("large", st.fixed_dictionaries({
    "obs": notes(8), "kind": st.sampled_from(["csv", "mid"]), "seed": st.integers(0, 2 ** 32), "n": st.sampled_from([14, 12, 5, 8, 10]),
    "t": st.sampled_from([4, 3, 2]), "mixed": st.booleans()}), quick=6, workers=4)
def large(case, ctx):
    """Large ensembles: every pair has its row, in order."""
    r = np.random.default_rng(case["seed"])
    n, t = case["n"], case["t"]
    if not case["mixed"]:
        n, t = 3 * n, 3 * t
    c = {"kps": [int(x) for x in r.integers(0, 10 ** 6, n)], "kts": [int(x) for x in r.integers(0, 10 ** 6, t)], "mixed": case["mixed"], "obs": case["obs"],
         "kind": case["kind"]}
    p = py(ctx)
    d = workdir(ctx)
    p.run([["chdir", d]])
    kps, kts = registry(p, c)
    name, ok = put(d, "song", case["kind"], case["obs"])
    p.call("optimizer.ensembler.Ensembler", list(kps), list(kts), keep="e")
    want = [(a, b, k) for a in kps for b in kps for k in kts] if case["mixed"] else [(a, a, k) for a in kps for k in kts]
    res = p.do("call", "$e.evaluate", [name] + ([True] if case["mixed"] else []), timeout=120)
    need(res.exc is None, "evaluate: %s", res.exc)
    rows = res.v
    need(len(rows) == len(want), "%d pairs give %d rows", len(want), len(rows))
    for i in sorted({0, len(want) - 1} | {int(x) for x in r.integers(0, len(want), 24)}):
        a, b, k = want[i]
        own = [float(x) for x in app(ctx, ["-p", "-K", nums(kps[a][:12] + kps[b][12:]), "-T", nums(kts[k]), name], cwd=d).out.split()]
        need(rows[i] == own, "pair %d of %d, %s with %s: %s, the program itself says %s", i, len(want), (a, b), k, rows[i], own)
    return case["mixed"] and "mixed" or "plain"


FILES = st.lists(st.tuples(st.sampled_from(["csv", "csv", "csv", "blank", "mid", "missing", "junk", "other"]), st.integers(0, 29), notes(10)),
                 min_size=1, max_size=4)


@CHECK.clause("evaluator", st.fixed_dictionaries({
    "files": FILES, "kps": conf["kps"], "kts": conf["kts"], "end": st.booleans(), "deep": st.booleans(),
    "again": st.integers(0, 10 ** 6)}), quick=110, workers=4)
def evaluator(case, ctx):
    """The error of a pair is the sum over the files of 1 - score^2; gradings list all pairs, lowest error first."""
    p = py(ctx)
    d = workdir(ctx)
    p.run([["chdir", d]])
    kps, kts = registry(p, case)
    names = []
    for i, (kind, key, obs) in enumerate(case["files"]):
        if key >= 24:  # (near what the first pair hears)
            a, t = list(kps.values())[0], by_rank(list(kts.values())[0])
            key = (int(np.argmax(M.detect(a[:12], a[12:], t, obs)[3])) + (0, 0, 0, 7, 5, 12)[key - 24]) % 24
        if case["deep"] and names:
            key = names[0][2]
        n, ok = put(d, "f%d/x_%s" % (i, M.KEY_NAMES[key]) if case["deep"] else "f%d_%s" % (i, M.KEY_NAMES[key]), kind, obs)
        names.append((n, ok, key, obs))
    open(os.path.join(d, "list.txt"), "w").write("\n".join(n for n, *_ in names) + ("\n" if case["end"] else ""))
    p.call("optimizer.evaluator.Evaluator", "list.txt", keep="v")
    hits, errs = judge(case, ctx, p, d, kps, kts, names)
    if case["again"] % 2:
        # another distribution under a name that was evaluated before
        k = sorted(kps)[case["again"] % len(kps)]
        r = np.random.default_rng(case["again"])
        kps[k] = sum([(lambda x: (x / x.sum()).tolist())(r.random(12) ** 5) for _ in range(2)], [])
        p.call(KP + "insert_new", k, kps[k])
        judge(case, ctx, p, d, kps, kts, names)
    return bool(hits) and len(errs) > 1


def judge(case, ctx, p, d, kps, kts, names):
    errs = {}
    hits = 0
    for k in kps:
        for t in kts:
            e = 0.0
            for n, ok, key, obs in names:
                s = 0.0
                if ok:
                    r = app(ctx, ["-e", "-K", nums(kps[k]), "-T", nums(kts[t]), n], cwd=d)
                    s = float(r.out)
                    _, _, margin, v2 = M.detect(kps[k][:12], kps[k][12:], by_rank(kts[t]), obs)
                    top = sorted(v2)
                    if margin > 1e-4 and top[-1] - top[-2] > 1e-4:
                        hit = int(np.argmax(v2)) == key
                        need((s == 1.0) == hit, "%s: annotated %s, detected %s, score %s", n, DISPLAY[key], DISPLAY[int(np.argmax(v2))], s)
                    hits += s > 0
                e += 1 - s * s
            errs[k, t] = e
    for (k, t), e in errs.items():
        got = p.call("$v.evaluate", k, t)
        need(tuple(got[1:]) == (k, t) and abs(got[0] - e) < 1e-9, "%s with %s: error %s, should be %s", k, t, got, e)
    for t in kts:
        g = p.call("$v.grade_key_profiles", list(kps), t)
        need(sorted(x[1] for x in g) == sorted(kps) and all(abs(x[0] - errs[x[1], t]) < 1e-9 and x[2] == t for x in g),
             "grading of %s with %s: %s", list(kps), t, g)
        need(all(a[0] <= b[0] for a, b in zip(g, g[1:])), "the grading is not sorted: %s", g)
    for k in kps:
        g = p.call("$v.grade_key_transitions", k, list(kts))
        need(sorted(x[2] for x in g) == sorted(kts) and all(abs(x[0] - errs[k, x[2]]) < 1e-9 and x[1] == k for x in g),
             "grading of %s with %s: %s", k, list(kts), g)
        need(all(a[0] <= b[0] for a, b in zip(g, g[1:])), "the grading is not sorted: %s", g)
    return hits, errs


@CHECK.clause("evaluator_many", st.fixed_dictionaries({
    "seed": st.integers(0, 10 ** 6), "n": st.sampled_from([9, 17, 33, 65, 129, 257]), "kp": st.sampled_from(KPS), "kt": st.sampled_from(KTS)}), quick=8, workers=2)
def evaluator_many(case, ctx):
    """On lists of up to 257 files every file counts once, in whatever order they are done."""
    p = py(ctx)
    d = workdir(ctx)
    p.run([["chdir", d]])
    kps, kts = registry(p, {"kps": [case["kp"]], "kts": [case["kt"]]})
    r = np.random.default_rng(case["seed"])
    pool = [[int((x + s) % 12) for x in (0, 4, 7, 0, 5, 9, 7, 11, 2, 0)] for s in range(3)]
    names, e = [], 0.0
    for s, obs in enumerate(pool):
        heard = int(np.argmax(M.detect(kps[case["kp"]][:12], kps[case["kp"]][12:], by_rank(kts[case["kt"]]), obs)[3]))
        for i in range(case["n"] // 3 + (s < case["n"] % 3)):
            key = heard if r.random() < .3 else int(r.integers(24))
            n, ok = put(d, "m%d_%d_%s" % (s, i, M.KEY_NAMES[key]), "csv" if r.random() < .95 else "missing", obs)
            if ok:
                v = float(app(ctx, ["-e", "-K", nums(kps[case["kp"]]), "-T", nums(kts[case["kt"]]), n], cwd=d).out)
            else:
                v = 0.0
            times = 1 + (r.random() < .1)  # (a file listed twice counts twice)
            e += (1 - v * v) * times
            names += [n] * times
    names = [names[i] for i in r.permutation(len(names))]
    open(os.path.join(d, "list.txt"), "w").write("\n".join(names) + "\n")
    p.call("optimizer.evaluator.Evaluator", "list.txt", keep="v")
    got = p.call("$v.evaluate", case["kp"], case["kt"], timeout=120)
    need(abs(got[0] - e) < 1e-7, "%d files: error %s, should be %s", len(names), got, e)
    for n in set(names):
        if os.path.exists(os.path.join(d, n)):
            os.unlink(os.path.join(d, n))
    return 0 < e < len(names)
