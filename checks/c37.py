import re
import shutil

from appgen import *
from pygen import *
from c32 import nums
from c34 import moved, scaled
from c36 import key_of_name

CHECK = Check(
    "C37",
    "The trained ensemble: drawn note sequences and short chords through justkeydding_ensemble.py and the justkeydding script, "
    "with the model in the repository; and training sets of nine small datasets with known and unknown labels.  Non-trivial: "
    "the model prefers one key clearly, or something was trained.",
    components=["app!fast"],
    assumptions=["joblib and scikit-learn are absent; stand-ins (stubs/py) read the model's coefficients and predict the class with "
                 "the largest linear score, and record what a classifier is trained on.",
                 "The script's /vagrant is replaced by a scratch directory."])
KPS = ["aarden_essen", "temperley", "krumhansl_kessler", "bellman_budge", "albrecht_shanahan1", "albrecht_shanahan2", "sapp",
       "simple_natural_minor", "simple_harmonic_minor", "simple_melodic_minor"]
KTS = ["ktg_exponential5", "ktg_exponential10", "ktg_exponential15"]
SCRIPT = os.path.join(build.REPO, "justkeydding_ensemble.py")
_model = {}


def model(p):
    if not _model:
        p.call("joblib.load", os.path.join(build.REPO, "pre-trained.joblib"), keep="m")
        _model["c"] = (np.array(p.do("get", "$m.coef_").v), np.array(p.do("get", "$m.intercept_").v), np.array(p.do("get", "$m.classes_").v))
    return _model["c"]


def home(ctx):
    d = os.path.join(ctx.tmp, "home")
    if not os.path.isdir(d):
        os.makedirs(os.path.join(d, "bin"))
        os.symlink(build.ensure_cached("app!fast"), os.path.join(d, "bin", "justkeydding"))
        os.symlink(os.path.join(build.REPO, "pre-trained.joblib"), os.path.join(d, "pre-trained.joblib"))
    return d


def by_hand(ctx, p, d, name):
    """The model's scores for a file: the program's scores for the thirty pairs, scaled, times the coefficients."""
    row = []
    for k in KPS:
        for t in KTS:
            a, b = p.call("optimizer.key_profiles.get", k), p.call("optimizer.key_transitions.get", t)
            r = app(ctx, ["-p", "-K", nums(a), "-T", nums(b), name], cwd=d)
            row += [float(x) for x in r.out.split()]
    need(len(row) == 720, "the program gives %d scores", len(row))
    coef, inter, classes = model(p)
    s = coef @ np.array(scaled(row)) + inter
    top = np.argsort(s)
    return int(classes[top[-1]]), float(s[top[-1]] - s[top[-2]]), row


def ask(p, name):
    r = p.do("main", SCRIPT, [name], timeout=60)
    need(r.exc is None and not r.exit, "the ensemble on %s: %s", name, r.exc or r.exit)
    return printed(r.text)


def printed(s):
    need(s.endswith("\n") and s.count("\n") == 1 and re.fullmatch(r"[A-G][#b]?\t(major|minor)", s[:-1]), "the answer is %r", s)
    return key_of_name(s[:-1])


@CHECK.clause("answer", st.fixed_dictionaries({"obs": notes(20), "kind": st.sampled_from(["csv", "csv", "mid"]), "n": st.integers(1, 11)}),
              quick=30, workers=5)
def answer(case, ctx):
    """The ensemble's answer is the class its model prefers, and moves with the music."""
    p = py(ctx)
    d = home(ctx)
    p.run([["chdir", d]])
    enc = (lambda o: notes_midi(o)) if case["kind"] == "mid" else (lambda o: notes_csv(o).encode())
    name = "x." + case["kind"]
    open(os.path.join(d, name), "wb").write(enc(case["obs"]))
    k, margin, row = by_hand(ctx, p, d, name)
    got = ask(p, name)
    if margin < 1e-6:
        return False
    need(k < 0 or got == k, "the model prefers key %s by %s, the ensemble answers %s", k, margin, DISPLAY[got])
    if k < 0 or margin < .05:
        return False
    open(os.path.join(d, name), "wb").write(enc([(o + case["n"]) % 12 for o in case["obs"]]))
    _, margin2, row2 = by_hand(ctx, p, d, name)
    a, b = scaled(moved(row, case["n"])), scaled(row2)
    if max(abs(x - y) for x, y in zip(a, b)) > 1e-3:  # (a pair whose decoding is tied)
        return True
    got2 = ask(p, name)
    need(got2 == M.transpose_key(got, case["n"]), "%d semitones higher %s becomes %s (margin %s)", case["n"], DISPLAY[got], DISPLAY[got2], margin)
    return "moved"


@CHECK.clause("usage", st.sampled_from([[], ["a", "b"], ["nomodel"]]), quick=3)
def usage(case, ctx):
    p = py(ctx)
    d = os.path.join(ctx.tmp, "bare")
    os.makedirs(d, exist_ok=True)
    p.run([["chdir", d]])
    r = p.do("main", SCRIPT, case)
    need(r.exit is not None and r.text and not r.exc and not any(DISPLAY[k] + "\tm" in r.text for k in range(24)), "%s: %s %s", case, r.exc, r.text)
    return True


@CHECK.clause("wrapper", st.fixed_dictionaries({"obs": notes(16), "kind": st.sampled_from(["csv", "wav"]), "sub": st.booleans()}), quick=8, workers=2)
def wrapper(case, ctx):
    """The justkeydding script writes the ensemble's answer for the recording's chromagram, and leaves nothing else."""
    p = py(ctx)
    d = home(ctx)
    p.run([["chdir", d]])
    for n in ("dataset.py", "justkeydding_ensemble.py", "optimizer"):
        if not os.path.exists(os.path.join(d, n)):
            os.symlink(os.path.join(build.REPO, n), os.path.join(d, n))
    shim = os.path.join(d, "shim")
    os.makedirs(shim, exist_ok=True)
    open(os.path.join(shim, "python3"), "w").write("#!/bin/sh\nexec '%s' \"$@\"\n" % sys.executable)
    os.chmod(os.path.join(shim, "python3"), 0o755)
    sc = os.path.join(d, "run.sh")
    open(sc, "w").write(open(os.path.join(build.REPO, "justkeydding")).read().replace("/vagrant", d))
    name = ("in/" if case["sub"] else "") + "song." + case["kind"]
    os.makedirs(os.path.join(d, "in"), exist_ok=True)
    if case["kind"] == "csv":
        data = notes_csv(case["obs"]).encode()
    else:
        import audiogen as AG
        data = AG.encode(AG.q15(AG.chord([48 + case["obs"][0] + x for x in (0, 4, 7)], 16000, 17000, 0, .5, 6, 1)).reshape(-1, 1), 16000)
    open(os.path.join(d, name), "wb").write(data)
    before = set(os.listdir(d)) | {"answer.txt"}
    env = dict(os.environ, PATH=shim + ":" + os.environ["PATH"], PYTHONPATH=build.REPO + ":" + STUBS, PYTHONDONTWRITEBYTECODE="1", HOME=d)
    if os.path.exists(os.path.join(d, "answer.txt")):
        os.unlink(os.path.join(d, "answer.txt"))
    r = subprocess.run(["bash", sc, name, "answer.txt"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=100)
    out = open(os.path.join(d, "answer.txt")).read() if os.path.exists(os.path.join(d, "answer.txt")) else None
    need(out, "no answer: %s", r.stdout[-500:])
    need(set(os.listdir(d)) <= before, "files are left behind: %s", set(os.listdir(d)) - before)
    c = app(ctx, ["-c", os.path.join(d, name)])
    open(os.path.join(d, "ref.csv"), "w").write(c.out)
    k, margin, _ = by_hand(ctx, p, d, "ref.csv")
    got = printed(out)
    os.unlink(os.path.join(d, "ref.csv"))
    need(k < 0 or margin < 1e-6 or got == k, "the answer is %s, the model prefers %s", out, k)
    return True


SETS = ["a-maps_chroma", "albrecht_chroma", "arthur2018-recordings_chroma", "arthur2018-synth-shortname_chroma", "billboard_chroma",
        "cross-era-shortname_chroma", "giantsteps-key_chroma", "giantsteps-mtg-key_chroma", "napoles2018_chroma"]


def grid(r, n, m):
    """Scores that scale exactly: every block spans 64."""
    X = -r.integers(0, 65, (n, m, 24)).astype(float)
    for i in range(n):
        for j in range(m):
            a, b = r.permutation(24)[:2]
            X[i, j, a], X[i, j, b] = 0, -64
    return (X - r.integers(0, 500, (n, m, 1))).reshape(n, 24 * m)


@CHECK.clause("training", st.fixed_dictionaries({
    "seed": st.integers(0, 10 ** 6), "pairs": st.integers(1, 3), "size": st.sampled_from([3, 3, 3, 3, 3, 60]), "unknown": st.booleans(), "odd": st.sampled_from([0, 0, 0, 1])}),
    quick=60, workers=2)
def training(case, ctx):
    """The model is trained on every labelled recording of the nine datasets in its twelve transpositions, and on nothing else."""
    p = py(ctx)
    d = os.path.join(ctx.tmp, "train")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "datasets"))
    p.run([["chdir", d]])
    r = np.random.default_rng(case["seed"])
    want = []
    for i, n in enumerate(SETS):
        X = grid(r, int(r.integers(1, case["size"] + 1)), case["pairs"])
        y = r.integers(-1 if case["unknown"] else 0, 24, len(X))
        X.dump(os.path.join(d, "datasets", n + "_features.pkl"))
        y.dump(os.path.join(d, "datasets", n + "_annotations.pkl"))
        open(os.path.join(d, "datasets", n + "_ensemble.txt"), "w").write(
            "a, b%s\nt\nmixed_profiles=%s\n" % ("c" if case["odd"] and i == 5 else "", case["seed"] % 2 == 1))
        for row, k in zip(X.tolist(), y.tolist()):
            if k >= 0:
                want += [(tuple(moved(scaled(row), j)), M.transpose_key(k, j)) for j in range(12)]
    res = p.do("main", os.path.join(build.REPO, "model_trainer.py"), [])
    f = os.path.join(d, "pre-trained.joblib")
    if case["odd"]:
        need(res.exit is not None and res.text and not os.path.exists(f), "datasets of different ensembles were trained on: %s", res.exc)
        return True
    if not want:
        raise Discard
    need(res.exc is None and not res.exit and os.path.exists(f), "training: %s %s", res.exc, res.exit)
    p.call("joblib.load", f, keep="m")
    X, y = np.array(p.do("get", "$m.fitted_X").v), np.array(p.do("get", "$m.fitted_y").v)
    need(sorted(zip(map(tuple, X.tolist()), y.tolist())) == sorted(want), "the model was trained on %d examples with labels %s, should be %d with %s",
         len(X), sorted(set(y.tolist())), len(want), sorted({k for _, k in want}))
    return True


@CHECK.clause("tester", st.fixed_dictionaries({"seed": st.integers(0, 10 ** 6), "n": st.one_of(st.integers(1, 12), st.sampled_from([50, 129, 700])),
                                               "model": st.sampled_from([True] * 7 + [False])}), quick=40)
def tester(case, ctx):
    """The tester prints the share of recordings whose key the model gets."""
    p = py(ctx)
    d = os.path.join(ctx.tmp, "test")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "datasets"))
    p.run([["chdir", d]])
    r = np.random.default_rng(case["seed"])
    X = grid(r, case["n"], 1)
    coef = r.normal(size=(24, 24))
    s = np.array([scaled(x) for x in X.tolist()]) @ coef.T
    y = np.where(r.random(case["n"]) < .6, s.argmax(axis=1), r.integers(0, 24, case["n"]))
    y = np.where(r.random(case["n"]) < .1 * (case["seed"] % 3), -1, y)  # (recordings without a known key; the model gets none of them)
    X.dump(os.path.join(d, "datasets", "albrecht_chroma_features.pkl"))
    y.dump(os.path.join(d, "datasets", "albrecht_chroma_annotations.pkl"))
    p.call("sklearn.linear_model.logistic.LogisticRegression", coef_=nd(coef), classes_=nd(np.arange(24)), keep="m")
    if not case["model"]:
        res = p.do("main", os.path.join(build.REPO, "model_tester.py"), [])
        need(res.exc is None and res.exit is not None and re.search("[a-z]{4}", res.text), "without a model the tester says %r (%s)", res.text, res.exc)
        return "no model"
    p.call("joblib.dump", ref("m"), os.path.join(d, "pre-trained.joblib"))
    res = p.do("main", os.path.join(build.REPO, "model_tester.py"), [])
    need(res.exc is None and not res.exit, "%s", res.exc)
    want = float((s.argmax(axis=1) == y).mean())
    need(abs(float(res.text) - want) < 1e-9, "the tester prints %r, the model gets %s right", res.text, want)
    return 0 < want < 1
