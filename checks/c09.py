from hmmgen import *
import numpy as np

CHECK = Check(
    "C09",
    "The two-stage detector on random note sequences (scale-based, chromatic, with repeats and sudden "
    "changes of key) with named or custom profiles and transitions: reference pipeline, transposition by "
    "every interval, reversal for symmetric tables, dependence on the note counts only through the model.  "
    "Non-trivial: the reference decoding is tie-free and the sequence has at least 3 distinct notes.",
    components=["core!fast"],
    assumptions=["where two key sequences tie exactly the detector may pick either, so the second stage "
                 "is compared only when the first-stage optimum is unique by more than 1e-7"])

SCALES = [[0, 2, 4, 5, 7, 9, 11], [0, 2, 3, 5, 7, 8, 10], [0, 2, 3, 5, 7, 8, 11], [0, 4, 7], [0, 3, 7]]


@st.composite
def notes(draw, maxn=60):
    out = []
    for _ in range(draw(st.integers(1, 3))):
        tonic = draw(st.integers(0, 11))
        sc = draw(st.sampled_from(SCALES))
        seg = draw(st.lists(st.one_of(st.sampled_from(sc), st.sampled_from(sc), st.integers(0, 11)),
                            min_size=1, max_size=maxn // 3))
        out += [(x + tonic) % 12 for x in seg]
    return out


prof = st.lists(st.floats(1e-4, 1.0), min_size=12, max_size=12)
conf = st.one_of(
    st.fixed_dictionaries({"maj": st.sampled_from(sorted(M.PROFILES_MAJOR)), "min": st.sampled_from(sorted(M.PROFILES_MINOR)),
                           "kt": st.sampled_from(["linear", "exponential2", "exponential10"]),
                           "x": st.just([0.0] * 12), "y": st.just([0.0] * 12), "t": st.just([0.0] * 24)}),
    st.fixed_dictionaries({"maj": st.just("custom"), "min": st.just("custom"),
                           "kt": st.sampled_from(["linear", "exponential2", "exponential10"]),
                           "x": prof, "y": prof, "t": st.just([0.0] * 24)}),
    st.fixed_dictionaries({"maj": st.just("custom"), "min": st.just("custom"), "kt": st.just("custom"), "x": prof, "y": prof,
                           "t": st.lists(st.floats(1e-8, 1.0), min_size=24, max_size=24)}))


def call(ctx, c, obs):
    r = ctx.bridge("core!fast").call("detect", c["maj"], c["min"], c["kt"], c["x"], c["y"], c["t"], len(obs), obs)
    h1 = parse(r)
    return h1, parse(r, h1["_end"])


def tables(c):
    major = M.PROFILES_MAJOR.get(c["maj"], c["x"])
    minor = M.PROFILES_MINOR.get(c["min"], c["y"])
    if c["kt"] == "custom":
        return major, minor, None
    return major, minor, M.builtin_transition_matrix(c["kt"])


def own(ctx, c):
    import c05
    return c05.matrix(c05.parse(ctx.bridge("core!fast").call("transition", 4, "custom", c["t"], 1))[2])


@CHECK.clause("reference", st.fixed_dictionaries({"c": conf, "obs": notes()}), quick=1500, workers=3)
def reference(case, ctx):
    return reference_(case["c"], case["obs"], ctx)


def reference_(c, obs, ctx):
    major, minor, T = tables(c)
    if T is None:
        # the custom matrix itself comes from the code under test (its shape is property C05)
        T = own(ctx, c)
    h1, h2 = call(ctx, c, obs)
    v1, path, margin, v2 = M.detect(major, minor, T, obs)
    need(M.close(h1["max"], max(v1), 1e-5, 1e-5), "stage 1 score %r, expected %r", h1["max"], max(v1))
    for k in range(24):
        need(M.close(h1["vec"][k], v1[k], 1e-5, 1e-5), "stage 1 score of key %d: %r, expected %r", k, h1["vec"][k], v1[k])
    # stage 2 must be right for the key sequence stage 1 actually reported
    lt = M.np_log10(T)
    s2 = [sum(lt[k, s] for s in h1["path"]) + math.log10(1 / 24.0) for k in range(24)]
    # the second stage charges its own initial and "stay" probabilities: 1/24 once, then 1
    for k in range(24):
        need(M.close(h2["vec"][k], s2[k], 1e-6, 1e-6), "stage 2 score of key %d: %r, expected %r", k, h2["vec"][k], s2[k])
    need(len(set(h2["path"])) == 1 and len(h2["path"]) == len(obs), "global key sequence %s", h2["path"])
    need(M.close(s2[h2["path"][0]], max(s2), 1e-6, 1e-6), "global key %d scores %r, best %r", h2["path"][0],
         s2[h2["path"][0]], max(s2))
    if margin > 1e-4:
        need(h1["path"] == path, "key sequence %s, expected %s", h1["path"], path)
        return len(set(obs)) >= 3
    return False


@CHECK.clause("transposition", st.fixed_dictionaries({"c": conf, "obs": notes(36), "n": st.integers(1, 11)}),
              quick=1500, workers=3)
def transposition(case, ctx):
    c, obs, n = case["c"], case["obs"], case["n"]
    a1, a2 = call(ctx, c, obs)
    b1, b2 = call(ctx, c, [(o + n) % 12 for o in obs])
    need(M.close(a1["max"], b1["max"]), "stage 1 score %r becomes %r", a1["max"], b1["max"])
    for k in range(24):
        need(M.close(a1["vec"][k], b1["vec"][M.transpose_key(k, n)]), "stage 1 score of key %d", k)
    major, minor, T = tables(c)
    if T is None:
        T = own(ctx, c)
    _, path, margin, v2 = M.detect(major, minor, T, obs)
    if margin <= 1e-7:
        return False
    need([M.transpose_key(k, n) for k in a1["path"]] == b1["path"], "key sequence %s becomes %s", a1["path"], b1["path"])
    for k in range(24):
        need(M.close(a2["vec"][k], b2["vec"][M.transpose_key(k, n)]), "stage 2 score of key %d", k)
    s = sorted(v2)
    if s[-1] - s[-2] > 1e-7:
        need(M.transpose_key(a2["path"][0], n) == b2["path"][0], "key %s becomes %s", a2["path"][0], b2["path"][0])
        return len(set(obs)) >= 3
    return False


@CHECK.clause("reversal", st.fixed_dictionaries({"c": conf, "obs": notes(36)}), quick=600, workers=2)
def reversal(case, ctx):
    c = case["c"]
    if c["kt"] == "custom":
        raise Discard()
    a, _ = call(ctx, c, case["obs"])
    b, _ = call(ctx, c, case["obs"][::-1])
    need(M.close(a["max"], b["max"]), "backwards the best score is %r, forwards %r", b["max"], a["max"])
    return case["obs"] != case["obs"][::-1] and len(set(case["obs"])) >= 3


@CHECK.clause("clear_key", st.fixed_dictionaries({
    "key": st.integers(0, 23), "maj": st.sampled_from(sorted(M.PROFILES_MAJOR)), "reps": st.integers(2, 6),
    "order": st.permutations(list(range(7)))}), quick=600, workers=2)
def clear_key(case, ctx):
    """A passage using exactly one key's scale, tonic triad doubled, is heard in that key (exponential10)."""
    k = case["key"]
    sc = SCALES[0] if k < 12 else SCALES[2]
    base = [sc[i] for i in case["order"]]
    tri = [sc[0], sc[2], sc[4], sc[0]]
    obs = [(x + k) % 12 for x in (tri + base + tri) * case["reps"]]
    c = {"maj": "krumhansl_kessler", "min": "krumhansl_kessler", "kt": "exponential10", "x": [0.0] * 12, "y": [0.0] * 12, "t": [0.0] * 24}
    _, h2 = call(ctx, c, obs)
    need(h2["path"] and h2["path"][0] == k, "an unambiguous passage in key %d is heard in %s", k, h2["path"][:1])
    return True


@CHECK.clause("long", st.fixed_dictionaries({"c": conf, "n": st.integers(200, 3000), "keys": st.integers(1, 40),
                                            "seed": st.integers(0, 10 ** 6)}), quick=40, workers=2)
def long(case, ctx):
    """Pieces of hundreds and thousands of notes through many keys."""
    r = np.random.default_rng(case["seed"])
    obs = []
    for _ in range(case["keys"]):
        sc, tonic = SCALES[r.integers(0, len(SCALES))], int(r.integers(0, 12))
        m = 1 + case["n"] // case["keys"]
        obs += [int((sc[i] + tonic) % 12) if q < .9 else int(i) for i, q in zip(r.integers(0, len(sc), m), r.random(m))]
    return reference_(case["c"], obs, ctx)
