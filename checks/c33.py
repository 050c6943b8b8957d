from pygen import *

CHECK = Check(
    "C33",
    "The genetic search: runs of up to 400 evaluations over populations of 1-9 profiles and 1-6 transitions, with 1-3 files "
    "and thresholds 0-3, against a stand-in for the detector that scores by a fixed rule and, after a drawn number of "
    "calls, is satisfied with everything; and the script itself.  Non-trivial: at least two generations were evaluated.",
    components=["fakekd!fast"],
    assumptions=["The detector is replaced (stubs/fakekd.cc): the search sees it only as the error of a pair (C32 checks the real one)."])
KP, KT = "optimizer.key_profiles.", "optimizer.key_transitions."
KPS = ["sapp", "temperley", "krumhansl_kessler", "aarden_essen", "albrecht_shanahan1", "albrecht_shanahan2", "bellman_budge",
       "simple_natural_minor", "simple_harmonic_minor"]
KTS = ["ktg_exponential5", "ktg_exponential10", "ktg_exponential15", "ktg_linear", "ktg_exponential2", "ktg_experiment6"]


def workdir(ctx):
    d = os.path.join(ctx.tmp, "ga")
    if not os.path.isdir(d):
        os.makedirs(os.path.join(d, "bin"))
        os.symlink(build.ensure_cached("fakekd!fast"), os.path.join(d, "bin", "justkeydding"))
    for n in os.listdir(d):
        if n.startswith("calls"):
            os.unlink(os.path.join(d, n))
    return d


def numbers(s):
    return tuple(float(x) for x in s.split())


def chunks(d, nfiles, files):
    """The evaluations in order: (profile, transition, error)."""
    lines = open(os.path.join(d, "calls.log")).read().split("\n")[:-1]
    need(len(lines) % nfiles == 0, "%d detector runs for %d files", len(lines), nfiles)
    out = []
    for i in range(0, len(lines), nfiles):
        part = [x.split("\t") for x in lines[i:i + nfiles]]
        need(all(x[0] == "-e" for x in part), "the detector is run with %s", part[0][0])
        need(sorted(x[1] for x in part) == sorted(files), "an evaluation covers %s, not %s", [x[1] for x in part], files)
        need(len({(x[2], x[3]) for x in part}) == 1, "an evaluation uses several distributions")
        e = 0.0
        for x in part:
            e += 1 - float(x[4]) ** 2
        out.append((numbers(part[0][2]), numbers(part[0][3]), e))
    return out


EPS = 1e-9


def follow(ev, N, Mn, swap, kps, kts):
    """Replays the search over the evaluations it made; its final population, mode and best pair."""
    i = 0
    lowest, best, scores = float("inf"), None, []
    for t in kts:
        part = ev[i:i + N]
        i += N
        need([x[:2] for x in part] == [(k, t) for k in (kps if best is None else pop)] or
             sorted(x[:2] for x in part) == sorted((k, t) for k in kps), "the first round does not try every pair")
        g = sorted(part, key=lambda x: x[2])
        if g[0][2] < lowest - EPS:
            lowest, best, scores = g[0][2], g[0][:2], [x[2] for x in g]
            pop = [x[0] for x in g]
            if lowest == 0:
                break
        elif best is None:
            pop = kps
    popt = kts
    gens, bad, mode = 0, 0, "kp"
    while lowest > 0:
        n = N if mode == "kp" else Mn
        part = ev[i:i + n]
        need(len(part) == n, "the search ends although its lowest error is %s (%d evaluations)", lowest, len(ev))
        i += n
        gens += 1
        fixed = 1 if mode == "kp" else 0
        need(all(x[fixed] == best[fixed] for x in part),
             "generation %d of %s is not evaluated with the best %s so far", gens, mode, ("profile", "transition")[fixed])
        g = sorted(part, key=lambda x: x[2])
        new = [x[2] for x in g]
        if new[0] < lowest - EPS or (abs(new[0] - lowest) <= EPS and sum(new) <= sum(scores) + EPS):
            if abs(sum(new) - sum(scores)) <= EPS and new[0] >= lowest - EPS and sum(new) != sum(scores):
                return gens, None, None, i  # (too close to call)
            lowest, best, scores, bad = new[0], g[0][:2], new, 0
        else:
            bad += 1
            if bad > swap:
                mode, bad = ("kt" if mode == "kp" else "kp"), 0
    return gens, mode, best, i


@CHECK.clause("search", st.fixed_dictionaries({
    "kps": st.lists(st.sampled_from(KPS), min_size=1, max_size=9, unique=True),
    "kts": st.lists(st.sampled_from(KTS), min_size=1, max_size=6, unique=True),
    "files": st.lists(st.integers(0, 999), min_size=1, max_size=3, unique=True), "swap": st.integers(0, 3),
    "limit": st.integers(0, 350), "pop": st.integers(1, 12), "fine": st.booleans(), "seed": st.integers(0, 2 ** 32)}), quick=90, workers=5)
def search(case, ctx):
    """The pair the search works from is always one with the lowest error seen; it ends when nothing is left to gain."""
    p = py(ctx)
    d = workdir(ctx)
    files = ["f%d" % n for n in case["files"]]
    open(os.path.join(d, "list.txt"), "w").write("\n".join(files) + "\n")
    limit = case["limit"] * len(files)
    kps = [tuple(p.call(KP + "get", n)) for n in case["kps"]]
    kts = [tuple(p.call(KT + "get", n)) for n in case["kts"]]
    res = p.run([["chdir", d], ["env", "FAKE_LOG", os.path.join(d, "calls.log")], ["env", "FAKE_LIMIT", str(limit)], ["env", "FAKE_FINE", "1" if case["fine"] else ""],
                 ["seed", case["seed"]], ["call", "logging.getLogger", ["ga_runner"], {}, "lg"], ["set", "ga.logger", ref("lg")],
                 ["call", "ga.ga_runner", ["list.txt", case["pop"], list(case["kps"]), list(case["kts"]), 100, 256, case["swap"]]]],
                timeout=60)
    need(res[-1].exc is None and res[-1].exit is None, "the search: %s", res[-1].exc or "exits")
    ev = chunks(d, len(files), files)
    gens, mode, best, used = follow(ev, len(kps), len(kts), case["swap"], kps, kts)
    if mode is None:
        raise Discard
    need(used == len(ev), "%d evaluations after the lowest error was 0", len(ev) - used)
    reg, tr = p.do("get", KP + "_kp").v, p.do("get", KT + "_kt").v
    need(best[0] in {tuple(v) for v in reg.values()} and best[1] in {tuple(v) for v in tr.values()}, "the best pair is not registered")
    if gens:
        r = reg if mode == "kp" else tr
        need(len(r) == (len(kps) if mode == "kp" else len(kts)), "after the last generation the registry holds %d: %s", len(r), sorted(r))
    ctx.label(mode)
    return gens >= 2


@CHECK.clause("evaluation", st.fixed_dictionaries({
    "kps": st.lists(st.sampled_from(KPS), min_size=1, max_size=6, unique=True),
    "kts": st.lists(st.sampled_from(KTS), min_size=1, max_size=4, unique=True),
    "files": st.lists(st.integers(0, 999), min_size=1, max_size=3, unique=True)}), quick=30, workers=2)
def evaluation(case, ctx):
    """Asked only to evaluate, it tries every pair once and stops."""
    p = py(ctx)
    d = workdir(ctx)
    files = ["f%d" % n for n in case["files"]]
    open(os.path.join(d, "list.txt"), "w").write("\n".join(files) + "\n")
    kps = [tuple(p.call(KP + "get", n)) for n in case["kps"]]
    kts = [tuple(p.call(KT + "get", n)) for n in case["kts"]]
    res = p.run([["chdir", d], ["env", "FAKE_LOG", os.path.join(d, "calls.log")], ["env", "FAKE_LIMIT", "100000"], ["env", "FAKE_FINE", ""],
                 ["call", "logging.getLogger", ["ga_runner"], {}, "lg"], ["set", "ga.logger", ref("lg")],
                 ["call", "ga.ga_runner", ["list.txt", 3, list(case["kps"]), list(case["kts"]), 100, 256, 3, True]]], timeout=60)
    need(res[-1].exc is None, "the evaluation: %s", res[-1].exc)
    ev = chunks(d, len(files), files)
    done = [x[:2] for x in ev]
    if min(x[2] for x in ev) > 0:
        need(sorted(done) == sorted((k, t) for k in kps for t in kts), "%d evaluations of %d pairs", len(done), len(kps) * len(kts))
    return len(ev) > 1


@CHECK.clause("many", st.fixed_dictionaries({"kps": st.just(KPS[:2]), "kts": st.just(KTS[:2]), "files": st.sampled_from([12, 33, 65, 130]).map(
    lambda n: [7 * i % 1000 for i in range(n)])}), quick=4)
def many(case, ctx):
    """The same on lists of up to 130 files."""
    return evaluation(case, ctx)


@CHECK.clause("script", st.lists(st.integers(0, 999), min_size=1, max_size=2, unique=True), quick=4)
def script(case, ctx):
    """The script evaluates its ten profiles with its three transitions on the files of midi_dataset.txt and keeps a log."""
    p = py(ctx)
    d = workdir(ctx)
    files = ["f%d" % n for n in case]
    open(os.path.join(d, "midi_dataset.txt"), "w").write("\n".join(files) + "\n")
    kps = [tuple(p.call(KP + "get", n)) for n in KPS + ["simple_melodic_minor"]]
    kts = [tuple(p.call(KT + "get", n)) for n in KTS[:3]]
    log = os.path.join(d, "logs", "optimizer.log")
    if os.path.exists(log):
        os.unlink(log)
    res = p.run([["chdir", d], ["env", "FAKE_LOG", os.path.join(d, "calls.log")], ["env", "FAKE_LIMIT", "100000"], ["env", "FAKE_FINE", ""],
                 ["main", os.path.join(build.REPO, "ga.py"), []]], timeout=60)
    need(res[-1].exc is None, "the script: %s", res[-1].exc)
    ev = chunks(d, len(files), files)
    need(sorted({x[:2] for x in ev}) == sorted((k, t) for k in kps for t in kts) or min(x[2] for x in ev) == 0,
         "%d pairs evaluated, should be 30", len({x[:2] for x in ev}))
    need(os.path.exists(log) and os.path.getsize(log) > 0, "no log was kept")
    return True
