import itertools

import numpy as np

from hmmgen import *

CHECK = Check(
    "C06",
    "Hidden Markov models with 1-24 states (any subset of the keys, any order), pitch-class or key "
    "observations, probabilities over 14 decades with repeats and zeros, 1-60 observations.  Oracle: "
    "an independent max-product decoder, plus brute force over all paths for small models.  "
    "Non-trivial: at least 2 states and 2 observations.",
    components=["core!fast"],
    assumptions=["products of a transition and an emission probability do not underflow double "
                 "precision (generated probabilities are at least 1e-14)"], times=2)


def go(case, ctx):
    r = ctx.bridge("core!fast").call("hmm", *args(case))
    d = parse(r, 1)
    margin = verify(case, d)
    return d, margin


@CHECK.clause("decode", model(max_states=24, max_obs=40), quick=1000, workers=2)
def decode(case, ctx):
    d, margin = go(case, ctx)
    if len(case["states"]) < 2 or len(case["obs"]) < 2:
        return False
    if len(set(d["path"])) > 1:
        return "moves"
    return "ties" if margin < 1e-9 else True


@CHECK.clause("small_exhaustive", model(max_states=4, max_obs=5), quick=1500)
def small(case, ctx):
    d, _ = go(case, ctx)
    n, T = len(case["states"]), len(case["obs"])
    best = max(M.path_logprob(case["init"], case["trans"], case["emit"], case["obs"], p)
               for p in itertools.product(range(n), repeat=T))
    need(M.close(d["max"], best), "maximum %r, all paths give %r", d["max"], best)
    return n > 1 and T > 1


@CHECK.clause("zeros", model(max_states=6, max_obs=12, zeros=True), quick=1500)
def zeros(case, ctx):
    v, _, _ = oracle(case)
    if max(v) == -math.inf:
        raise Discard()
    go(case, ctx)
    return len(case["states"]) > 1 and any(x == 0 for r in case["trans"] + case["emit"] for x in r)


@CHECK.clause("long", st.fixed_dictionaries({
    "maj": st.sampled_from(sorted(M.PROFILES_MAJOR)), "min": st.sampled_from(sorted(M.PROFILES_MINOR)),
    "kt": st.sampled_from(["linear", "exponential2", "exponential10"]),
    "unit": st.lists(st.integers(0, 11), min_size=1, max_size=12), "reps": st.integers(1, 40),
    "tail": st.lists(st.integers(0, 11), max_size=12)}), quick=300, workers=2)
def long(case, ctx):
    em = M.profile_map(M.PROFILES_MAJOR[case["maj"]], M.PROFILES_MINOR[case["min"]])
    m = {"kind": 0, "states": list(range(24)), "init": [1 / 24.0] * 24,
         "trans": M.builtin_transition_matrix(case["kt"]).tolist(), "emit": em.tolist(), "nsym": 12,
         "obs": case["unit"] * case["reps"] + case["tail"]}
    d, _ = go(m, ctx)
    return len(m["obs"]) > 20


@CHECK.clause("very_long", st.fixed_dictionaries({
    "n": st.integers(2, 24), "nsym": st.integers(2, 12), "obs": st.integers(300, 6000), "seed": st.integers(0, 10 ** 6),
    "sticky": st.integers(0, 40)}), quick=24, workers=2)
def very_long(case, ctx):
    """Music of thousands of notes is decoded to its last note."""
    r = np.random.default_rng(case["seed"])
    n, k = case["n"], case["nsym"]
    tr = r.uniform(.01, 1, (n, n)) + case["sticky"] * np.eye(n)
    m = {"kind": 0, "states": [int(x) for x in r.permutation(24)[:n]], "init": r.uniform(.01, 1, n).tolist(),
         "trans": (tr / tr.sum(axis=1, keepdims=True)).tolist(), "emit": (10 ** r.uniform(-2, 0, (n, k))).tolist(), "nsym": k,
         "obs": r.integers(0, k, case["obs"]).tolist()}
    d, _ = go(m, ctx)
    return "over 1000" if case["obs"] > 1000 else True
