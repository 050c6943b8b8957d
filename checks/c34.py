from pygen import *

CHECK = Check(
    "C34",
    "Feature vectors of 1-30 pairs (24 scores each: of random size, with ties, all equal, huge, failures -1000000), "
    "datasets of 1-8 of them with labels 0-23, all pairs of keys, predictions of up to 40 keys.  Non-trivial: more than "
    "one distinct score, or more than one relation.",
    assumptions=["scikit-learn is absent; MinMaxScaler is a stand-in with its documented formula (stubs/py)."], times=2)
score = st.one_of(st.floats(-1e4, 0), st.floats(-50, 0), st.sampled_from([-1000000.0, -1.0, -2.0, 0.0]), st.integers(-9, 0).map(float))
block = st.one_of(st.lists(score, min_size=24, max_size=24), st.sampled_from([[-1000000.0] * 24, [0.0] * 24]))
vector = st.lists(block, min_size=1, max_size=4).map(lambda b: [x for y in b for x in y])


@st.composite
def rows(draw, maxn=5):
    n, m = draw(st.integers(1, maxn)), draw(st.sampled_from([1, 1, 2, 3, 30]))
    seed = draw(st.integers(0, 10 ** 6))
    r = np.random.default_rng(seed)
    X = np.round(-10 ** r.uniform(0, 4, (n, 24 * m)), r.integers(0, 4))
    for _ in range(draw(st.integers(0, 3))):
        i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, m - 1))
        X[i, 24 * j:24 * j + 24] = draw(block)
    return {"X": X.tolist(), "y": draw(st.lists(st.integers(0, 23), min_size=n, max_size=n))}


@st.composite
def big_rows(draw):
    """Datasets of hundreds of recordings, written as a seed."""
    return {"n": draw(st.sampled_from([13, 40, 100, 257, 600])), "m": draw(st.sampled_from([1, 2, 7])), "seed": draw(st.integers(0, 10 ** 6))}


def grown(case):
    r = np.random.default_rng(case["seed"])
    X = np.round(-10 ** r.uniform(0, 4, (case["n"], 24 * case["m"])), 2)
    X[r.random(case["n"]) < .05] = -1e6
    return {"X": X.tolist(), "y": r.integers(0, 24, case["n"]).tolist()}


def moved(row, n):
    """A feature vector heard n semitones higher."""
    out = []
    for i in range(0, len(row), 24):
        v = [None] * 24
        for k in range(24):
            v[M.transpose_key(k, n)] = row[i + k]
        out += v
    return out


def scaled(row):
    out = []
    for i in range(0, len(row), 24):
        b = row[i:i + 24]
        lo, hi = min(b), max(b)
        out += [-1.0 if hi == lo else -1 + 2 * (x - lo) / (hi - lo) for x in b]
    return out


def near(a, b):
    return abs(a - b) <= 1e-9


@CHECK.clause("augmentation", rows(), quick=500, workers=2)
def augmentation(case, ctx):
    """Augmenting gives every recording in all twelve transpositions, each with its own label."""
    p = py(ctx)
    X, y = case["X"], case["y"]
    AX, Ay = p.call("dataset.data_augmentation", nd(X), nd(np.array(y)))
    need(AX.shape == (12 * len(X), len(X[0])) and Ay.shape == (12 * len(X),), "%d recordings become %s, %s", len(X), AX.shape, Ay.shape)
    for i in range(len(X)):
        TX, Ty = p.call("dataset.transpose", nd(X[i]), y[i])
        for n in range(12):
            w, l = moved(X[i], n), M.transpose_key(y[i], n)
            need(Ay[12 * i + n] == l and Ty[n] == l, "key %d moved by %d is labelled %s / %s", y[i], n, Ay[12 * i + n], Ty[n])
            need(AX[12 * i + n].tolist() == w and TX[n].tolist() == w, "recording %d moved by %d has the scores of other keys", i, n)
    return len(set(X[0])) > 1


@CHECK.clause("scaling", rows(), quick=500, workers=2)
def scaling(case, ctx):
    """Scaling brings each pair's 24 scores to -1..1, in their order, each pair by itself; transposing commutes with it."""
    p = py(ctx)
    X = case["X"]
    S = p.call("dataset.feature_scaling", nd(X))
    need(S.shape == (len(X), len(X[0])), "the shape becomes %s", S.shape)
    for a, b in zip(X, S.tolist()):
        w = scaled(a)
        for i in range(len(a)):
            need(near(b[i], w[i]), "score %d of %s is scaled to %s, not %s", i % 24, a[i // 24 * 24:i // 24 * 24 + 24], b[i], w[i])
    T = p.call("dataset.feature_scaling", nd([moved(a, 5) for a in X]))
    for a, b in zip(S.tolist(), T.tolist()):
        need(all(near(u, v) for u, v in zip(moved(a, 5), b)), "scaling a transposed recording is not transposing a scaled one")
    H = p.call("dataset.feature_scaling", nd(X), {"tuple": [0, 1]})
    for a, b in zip(S.tolist(), H.tolist()):
        need(all(near((u + 1) / 2, v) for u, v in zip(a, b)), "scaling to 0..1 is another order than to -1..1")
    return len(set(X[0])) > 1


@CHECK.clause("many", big_rows(), quick=12)
def many(case, ctx):
    """The same of datasets of up to 600 recordings."""
    big = grown(case)
    augmentation(big, ctx)
    scaling(big, ctx)
    return True


def relation(a, b):
    """How key b stands to key a."""
    if a == b:
        return "tonic"
    if a // 12 == b // 12:
        return "fifth" if (b - a) % 12 in (5, 7) else "other"
    if a % 12 == b % 12:
        return "parallel"
    if a < 12:
        return "relative" if b % 12 == (a + 9) % 12 else "other"
    return "relative" if b % 12 == (a + 3) % 12 else "other"


@CHECK.clause("relations", st.tuples(st.integers(0, 23), st.integers(0, 23)), quick=900)
def relations(case, ctx):
    a, b = case
    p = py(ctx, fresh=False)
    got = p.call("dataset.compare_keys", a, b)
    need(got == relation(a, b), "%s against %s is %r, should be %r", M.KEY_NAMES[b], M.KEY_NAMES[a], got, relation(a, b))
    need(p.call("dataset.compare_keys", b, a) == got, "the relation of %s and %s depends on which comes first", a, b)
    return got


@CHECK.clause("score", st.fixed_dictionaries({"y": st.one_of(st.lists(st.integers(0, 23), min_size=1, max_size=40), st.integers(50, 700), st.integers(900, 5000)), "seed": st.integers(0, 10 ** 6),
                                              "cut": st.sampled_from([0, 0, 0, 1])}), quick=400)
def score_(case, ctx):
    """The weighted score is the mean of 1 / .5 / .3 / .2 / 0 for same / fifth / relative / parallel / other."""
    r = np.random.default_rng(case["seed"])
    y = case["y"] if isinstance(case["y"], list) else r.integers(0, 24, case["y"]).tolist()
    pred = [int(k if r.random() < .3 else r.choice([(k + 7) % 12 + k // 12 * 12, (k + 5) % 12 + k // 12 * 12, (k + 12) % 24, r.integers(0, 24),
                                                    ((k + 9) % 12 + 12 if k < 12 else (k + 3) % 12)])) for k in y]
    p = py(ctx, fresh=False)
    if case["cut"]:
        res = p.do("call", "dataset.weighted_score", [pred + [0], y])
        need(res.exc is None and res.v is None, "different lengths give %s %s", res.v, res.exc)
        return False
    got = p.call("dataset.weighted_score", pred, y)
    rel = [relation(a, b) for a, b in zip(y, pred)]
    n = float(len(y))
    c = [rel.count(k) / n for k in ("tonic", "fifth", "relative", "parallel", "other")]
    want = [c[0] + .5 * c[1] + .3 * c[2] + .2 * c[3]] + c
    need(len(got) == 6 and all(near(a, b) for a, b in zip(got, want)), "the scores of %s for %s are %s, should be %s", pred, y, got, want)
    got2 = p.call("dataset.weighted_score", nd(np.array(pred)), nd(np.array(y)))
    need(all(near(a, b) for a, b in zip(got2, want)), "as arrays: %s", got2)
    return len(set(rel)) > 1
