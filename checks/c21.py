from nnlsgen import *

CHECK = Check(
    "C21",
    "Least-squares problems of 1-40 equations and 1-30 unknowns (more unknowns than equations, repeated and zero "
    "columns included), with planted answers, and note dictionaries against generated spectra.  Non-trivial: the "
    "answer has both a zero and a non-zero component, or one unknown of either.",
    components=["nnls!fast", "nnls"],
    assumptions=["Single precision: residuals and optimality conditions are held to a few 1e-4 of the data's size."], times=4)


def solve(ctx, a, b, component="nnls!fast"):
    m, n = a.shape
    a32 = np.asarray(a, "<f4")
    b32 = np.asarray(b, "<f4")
    put(ctx, np.concatenate([a32.T.ravel(), b32]))
    rc, mode, rnorm = ctx.bridge(component).call("nnls", m, n, fpath(ctx, "in.bin"), fpath(ctx, "out.bin"), timeout=60)
    v = take(ctx).astype(float)
    return mode, rnorm, v[:n], v[n:], a32.astype(float), b32.astype(float)


def judge(mode, rnorm, x, w, a, b, tol=3e-4):
    need(mode == 1, "mode %d", mode)
    need(np.isfinite(x).all() and (x >= 0).all(), "an answer with negative or infinite components: %s", x)
    r = b - a @ x
    size = np.linalg.norm(b) + np.abs(a @ x).max() + 1e-12
    need(abs(np.linalg.norm(r) - rnorm) <= tol * size, "reports a residual of %g, it is %g", rnorm, np.linalg.norm(r))
    g = a.T @ r
    col = np.linalg.norm(a, axis=0) * size + 1e-12
    bad = np.where(x > 0, np.abs(g), np.maximum(g, 0)) / col
    need(bad.max() <= tol * 10, "not optimal: component %d is %g with a slope of %g of the data's size",
         bad.argmax(), x[bad.argmax()], bad.max())


def shape(x):
    return ((x > 0).any() and (x == 0).any()) or len(x) == 1


@CHECK.clause("optimal", st.fixed_dictionaries({
    "m": st.integers(1, 40), "n": st.integers(1, 30), "seed": st.integers(0, 10 ** 6),
    "kind": st.sampled_from(["normal", "positive", "sparse", "binary"]), "scale": st.sampled_from([1.0, 1e-3, 1e4]),
    "b": st.sampled_from(["normal", "positive", "in", "negative"])}), quick=1500, workers=4)
def optimal(case, ctx):
    """No non-negative answer is better, and the reported residual is the answer's."""
    r = np.random.default_rng(case["seed"])
    m, n = case["m"], case["n"]
    if n > m:
        n = m
    a = {"normal": lambda: r.normal(size=(m, n)), "positive": lambda: r.uniform(0, 1, (m, n)),
         "sparse": lambda: r.uniform(0, 1, (m, n)) * (r.random((m, n)) < .3),
         "binary": lambda: (r.random((m, n)) < .5) * 1.0}[case["kind"]]()
    if min(np.linalg.svd(a)[1]) < 1e-2 * max(np.linalg.svd(a)[1]):
        raise Discard()
    x0 = np.maximum(r.normal(size=n), 0)
    b = {"normal": lambda: r.normal(size=m), "positive": lambda: r.uniform(0, 1, m),
         "in": lambda: a @ x0, "negative": lambda: -r.uniform(0, 1, m)}[case["b"]]()
    mode, rn, x, w, a, b = solve(ctx, a * case["scale"], b * case["scale"])
    judge(mode, rn, x, w, a, b)
    if case["b"] == "in":
        cond = np.linalg.cond(a)
        need(np.abs(x - x0).max() <= 3e-5 * cond * max(1, x0.max()), "planted %s, found %s", x0, x)
    return shape(x)


@CHECK.clause("notes", st.fixed_dictionaries({
    "s": st.sampled_from([.5, .6, .7, .8, .9]), "notes": st.lists(st.integers(0, 83), min_size=0, max_size=6, unique=True),
    "amps": st.lists(st.floats(.1, 3), min_size=6, max_size=6), "noise": st.sampled_from([0, .01, .2]),
    "keep": st.integers(1, 84), "seed": st.integers(0, 10 ** 6)}), quick=400, workers=4)
def notes(case, ctx):
    """Mixtures of note profiles are taken apart again."""
    r = np.random.default_rng(case["seed"])
    d = notedict(case["s"])
    cols = sorted(set(case["notes"]) | set(r.permutation(84)[:case["keep"]].tolist()))
    b = np.zeros(256)
    for k, v in zip(case["notes"], case["amps"]):
        b += v * d[:, k]
    b = np.maximum(b + case["noise"] * r.normal(size=256), 0)
    mode, rn, x, w, a, b = solve(ctx, d[:, cols], b)
    judge(mode, rn, x, w, a, b)
    if case["noise"] == 0:
        want = np.zeros(len(cols))
        for k, v in zip(case["notes"], case["amps"]):
            want[cols.index(k)] = v
        need(np.abs(x - want).max() <= 5e-3, "planted %s, found %s", want, x)
    return shape(x)


@CHECK.clause("degenerate", st.fixed_dictionaries({
    "m": st.integers(1, 12), "n": st.integers(1, 30), "seed": st.integers(0, 10 ** 6), "dup": st.integers(0, 3),
    "zero": st.integers(0, 3), "bz": st.booleans()}), quick=800, workers=2)
def degenerate(case, ctx):
    """Repeated, zero and too many columns: the residual is still the least."""
    import scipy.optimize
    r = np.random.default_rng(case["seed"])
    m, n = case["m"], case["n"]
    a = r.integers(-3, 4, (m, n)).astype(float)
    for _ in range(case["dup"]):
        a[:, r.integers(n)] = a[:, r.integers(n)]
    for _ in range(case["zero"]):
        a[:, r.integers(n)] = 0
    b = np.zeros(m) if case["bz"] else r.integers(-4, 5, m).astype(float)
    mode, rn, x, w, a, b = solve(ctx, a, b, "nnls")
    need(mode == 1 and np.isfinite(x).all() and (x >= 0).all(), "mode %d, %s", mode, x)
    best = scipy.optimize.nnls(a, b)[1]
    size = np.linalg.norm(b) + 1e-9
    need(abs(rn - best) <= 2e-3 * size and abs(np.linalg.norm(b - a @ x) - best) <= 2e-3 * size,
         "residual %g, the least possible %g", rn, best)
    return shape(x)


@CHECK.clause("order", st.fixed_dictionaries({
    "m": st.integers(4, 30), "n": st.integers(2, 12), "seed": st.integers(0, 10 ** 6), "k": st.sampled_from([2.0, .125, 64.0])}),
    quick=300, workers=2)
def order(case, ctx):
    """The order of the unknowns does not matter, and the answer scales with the data."""
    r = np.random.default_rng(case["seed"])
    m, n = max(case["m"], case["n"] + 2), case["n"]
    a, b = r.uniform(0, 1, (m, n)), r.uniform(0, 1, m)
    if np.linalg.cond(a) > 100:
        raise Discard()
    x = solve(ctx, a, b)[2]
    p = r.permutation(n)
    y = solve(ctx, a[:, p], b)[2]
    z = solve(ctx, a, b * case["k"])[2]
    tol = 3e-5 * np.linalg.cond(a) * max(1, x.max())
    need(np.abs(x[p] - y).max() <= tol, "%s in another order gives %s", x[p], y)
    need(np.abs(z / case["k"] - x).max() <= tol, "%s scales to %s", x, z / case["k"])
    return shape(x)
