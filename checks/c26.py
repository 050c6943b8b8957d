import itertools

from nnlsgen import *

CHECK = Check(
    "C26",
    "The chord smoother's decoder: 1-6 states, 1-60 frames (brute force up to 600 sequences), zero transitions and "
    "emissions, ties, unnormalised numbers, frames no path can explain, very long inputs.  Non-trivial: at least two "
    "states and three frames.",
    components=["nnls!fast", "nnls"],
    assumptions=["The first frame is possible in some state (the chord plugin always starts in 'no chord', which every "
                 "frame allows)."], times=6)


def decode(ctx, init, trans, obs, component="nnls!fast"):
    ns, nf = len(init), len(obs)
    put(ctx, np.concatenate([init, np.ravel(trans), np.ravel(obs)]), t="<f8")
    r = ctx.bridge(component).call("viterbi", ns, nf, fpath(ctx, "in.bin"), fpath(ctx, "out.bin"), timeout=60)
    v = take(ctx, t="<f8")
    need(r[0] == nf and r[1] == nf, "%d states and %d scales for %d frames", r[0], r[1], nf)
    return r[2:], v[:ns * nf].reshape(nf, ns), v[ns * nf:]


def score(path, init, trans, obs):
    with np.errstate(divide="ignore"):
        s = np.log(init[path[0]]) + np.log(obs[0][path[0]])
        for i in range(1, len(path)):
            s += np.log(trans[path[i - 1]][path[i]]) + np.log(obs[i][path[i]])
    return s


def model(case):
    r = np.random.default_rng(case["seed"])
    n, f = case["n"], case["f"]
    pool = np.array([.5, .25, .1, .01, 1.0])
    draw = (lambda *s: r.choice(pool, s)) if case["ties"] else (lambda *s: r.uniform(1e-3, 1, s))
    init, trans, obs = draw(n), draw(n, n), draw(f, n)
    if case.get("tiny"):
        obs = 10 ** r.uniform(-case["tiny"], 0, (f, n))
    if case["zeros"]:
        trans *= r.random((n, n)) > .3
        obs *= r.random((f, n)) > .2
        init *= r.random(n) > .3
    return init, trans, obs


case_ = st.fixed_dictionaries({"n": st.integers(1, 6), "f": st.integers(1, 60), "seed": st.integers(0, 10 ** 6),
                               "ties": st.booleans(), "zeros": st.booleans(),
                               "tiny": st.sampled_from([0, 0, 0, 8, 14, 23])})


@CHECK.clause("best", case_, quick=1500, workers=4)
def best(case, ctx):
    """No sequence is more probable, scores are the best of each state up to a common factor, and the scales are
    what they were divided by."""
    init, trans, obs = model(case)
    with np.errstate(divide="ignore"):
        li, lt, lo = np.log(init), np.log(trans), np.log(obs)
    d = [li + lo[0]]
    for i in range(1, case["f"]):
        d.append((d[-1][:, None] + lt).max(axis=0) + lo[i])
    if not np.isfinite(d[-1].max()) or not np.isfinite(d[0].max()):
        raise Discard()
    path, delta, scale = decode(ctx, init, trans, obs)
    need(all(0 <= p < case["n"] for p in path), "states %s", path)
    s = score(path, init, trans, obs)
    need(abs(s - d[-1].max()) <= 1e-7 * max(1, abs(s)), "the sequence scores %.9g, the best %.9g", s, d[-1].max())
    tot = 0.0
    for i in range(case["f"]):
        with np.errstate(divide="ignore"):
            got = np.log(delta[i])
        want = d[i] - (d[i].max() + np.log(np.exp(d[i] - d[i].max()).sum()))
        ok = np.isfinite(want) & (want > -600)
        need((np.abs(got[ok] - want[ok]) <= 1e-6).all() and (delta[i][~np.isfinite(want)] == 0).all(),
             "frame %d: scores %s, expected %s", i, delta[i], np.exp(want))
        tot += np.log(scale[i])
        need(abs(tot + d[i].max() + np.log(np.exp(d[i] - d[i].max()).sum())) <= 1e-6 * max(1, abs(tot)), "frame %d: scale %g", i, scale[i])
    return case["n"] > 1 and case["f"] > 2


@CHECK.clause("brute", st.fixed_dictionaries({"n": st.integers(2, 4), "f": st.integers(1, 4), "seed": st.integers(0, 10 ** 6),
                                              "ties": st.booleans(), "zeros": st.booleans()}), quick=400, workers=2)
def brute(case, ctx):
    init, trans, obs = model(case)
    best_ = max(score(p, init, trans, obs) for p in itertools.product(range(case["n"]), repeat=case["f"]))
    if not np.isfinite(best_):
        raise Discard()
    path, _, _ = decode(ctx, init, trans, obs, "nnls")
    s = score(path, init, trans, obs)
    need(abs(s - best_) <= 1e-9 * max(1, abs(best_)), "the sequence scores %g, the best %g", s, best_)
    return case["f"] > 2


@CHECK.clause("breaks", st.fixed_dictionaries({"n": st.integers(2, 5), "f": st.integers(3, 30), "at": st.integers(1, 29),
                                               "seed": st.integers(0, 10 ** 6), "how": st.sampled_from(["obs", "trans"])}), quick=300)
def breaks(case, ctx):
    """A frame nothing explains starts afresh: every state is as likely, and what follows is decoded from there."""
    r = np.random.default_rng(case["seed"])
    n, f, at = case["n"], case["f"], case["at"] % case["f"]
    if at == 0 or at == f - 1:
        raise Discard()
    init, trans, obs = r.uniform(.1, 1, n), r.uniform(.1, 1, (n, n)), r.uniform(.1, 1, (f, n))
    if case["how"] == "trans":
        # only state 0 is possible before, and it leads nowhere the next frame allows
        trans[0] = 0
        trans[0, 0] = .5
        obs[:at] = 0
        obs[:at, 0] = .5
        init[:] = 0
        init[0] = .5
        obs[at, 0] = 0
    else:
        obs[at] = 0
    path, delta, scale = decode(ctx, init, trans, obs, "nnls")
    need(np.allclose(delta[at], 1.0 / n) and scale[at] == 1, "frame %d: scores %s, scale %s", at, delta[at], scale[at])
    tail = decode(ctx, np.full(n, 1.0 / n), trans, np.concatenate([[np.ones(n)], obs[at + 1:]]))
    need(np.allclose(delta[at + 1:], tail[1][1:], rtol=1e-9), "what follows is scored otherwise")
    s1 = score([path[at]] + list(path[at + 1:]), np.ones(n), trans, np.concatenate([[np.ones(n)], obs[at + 1:]]))
    s2 = score(tail[0], np.ones(n), trans, np.concatenate([[np.ones(n)], obs[at + 1:]]))
    need(abs(s1 - s2) < 1e-7 * max(1, abs(s2)), "what follows scores %g, the best is %g", s1, s2)
    return True


@CHECK.clause("long", st.fixed_dictionaries({"f": st.integers(2000, 8000), "seed": st.integers(0, 10 ** 6)}), quick=8, workers=2)
def long(case, ctx):
    """Scaling keeps long inputs within the range of numbers."""
    r = np.random.default_rng(case["seed"])
    n = 4
    init, trans = np.ones(n) / n, np.full((n, n), .01) + .96 * np.eye(n)
    obs = r.uniform(1e-6, 1e-3, (case["f"], n))
    path, delta, scale = decode(ctx, init, trans, obs)
    need(np.isfinite(delta).all() and np.isfinite(scale).all() and np.allclose(delta.sum(axis=1), 1), "scores out of range")
    d = np.log(init) + np.log(obs[0])
    for i in range(1, case["f"]):
        d = (d[:, None] + np.log(trans)).max(axis=0) + np.log(obs[i])
    s = score(path, init, trans, obs)
    need(abs(s - d.max()) <= 1e-7 * abs(s), "the sequence scores %.9g, the best %.9g", s, d.max())
    return True
