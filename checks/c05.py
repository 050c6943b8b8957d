from common import *
import numpy as np

CHECK = Check(
    "C05",
    "Key-transition tables: every named table against the closeness ranks of the 24 keys, and random "
    "custom arrays (free, rank-shaped, repeated values), built one or more times; rows, transposition, "
    "symmetry and validity of random names.  Non-trivial: a table with at least two distinct values.",
    components=["core!fast"], times=3)
NAMES = sorted(M.TRANSITIONS)


def parse(r):
    n, i, m = r[25], 26, {}
    for _ in range(n):
        k, c = r[i], r[i + 1]
        m[k] = {r[i + 2 + 2 * j]: r[i + 3 + 2 * j] for j in range(c)}
        i += 2 + 2 * c
    return r[0], r[1:25], m


def matrix(m):
    need(sorted(m) == list(range(24)) and all(sorted(m[k]) == list(range(24)) for k in m), "table is not 24 x 24")
    return np.array([[m[a][b] for b in range(24)] for a in range(24)])


def equivariant(P):
    for n in range(1, 12):
        idx = [M.transpose_key(k, n) for k in range(24)]
        need(np.array_equal(P[np.ix_(idx, idx)], P), "not the same after transposing both keys by %d", n)


@CHECK.clause("named", st.fixed_dictionaries({"n": st.sampled_from(NAMES + ["<default>"]), "times": st.integers(1, 3)}),
              quick=60)
def named(case, ctx):
    n = case["n"]
    if n == "<default>":
        name, arr, m = parse(ctx.bridge("core!fast").call("transition", 0, "", case["times"]))
        n = "exponential10"
    else:
        name, arr, m = parse(ctx.bridge("core!fast").call("transition", 1, n, case["times"]))
    need(name == n, "selected %r for %r", name, n)
    P = matrix(m)
    ref = M.builtin_transition_matrix(n)
    need(np.allclose(P, ref, rtol=1e-9, atol=0), "%s differs from its definition at %s", n,
         np.argwhere(~np.isclose(P, ref, rtol=1e-9, atol=0))[:3].tolist())
    need(np.allclose(arr, M.TRANSITIONS[n], rtol=1e-9, atol=0), "array of %s", n)
    equivariant(P)
    need(np.array_equal(P, P.T), "%s is not symmetric", n)
    if n != "heatmap":
        need(np.allclose(P.sum(axis=1), 1, atol=1e-9), "rows of %s do not sum to 1", n)
        need((P >= 0).all(), "negative probability")
        need(all(P[k, k] == P[k].max() for k in range(24)), "staying is not the likeliest in %s", n)
    return n


free = weights(24)
ties = st.lists(st.sampled_from([0.0, 0.1, 0.2, 0.5, 1.0]), min_size=24, max_size=24)
# values by closeness rank, the shape of all the named tables
ranked = st.lists(st.floats(0.0, 1.0, allow_nan=False), min_size=9, max_size=9).map(
    lambda v: [v[r - 1] for r in M.RANK])


@CHECK.clause("custom", st.fixed_dictionaries({"a": st.one_of(free, ties), "times": st.integers(1, 2)}), quick=2500, workers=3)
def custom(case, ctx):
    a = case["a"]
    name, arr, m = parse(ctx.bridge("core!fast").call("transition", 4, "custom", a, case["times"]))
    need(name == "custom" and arr == a, "array %s", arr)
    P = matrix(m)
    need(P[0].tolist() == a, "transitions from C major are not the given numbers")
    for k in range(24):
        need(sorted(P[k].tolist()) == sorted(a), "row %d is not a rearrangement of the given numbers", k)
    for x in range(12, 24):
        for y in range(12, 24):
            need(P[x, y] == a[(y - x) % 12], "minor to minor %d -> %d", x, y)
    equivariant(P)
    return len(set(a)) > 1


@CHECK.clause("ranked", st.fixed_dictionaries({"a": ranked}), quick=1500, workers=2)
def rank_shaped(case, ctx):
    name, arr, m = parse(ctx.bridge("core!fast").call("transition", 4, "custom", case["a"], 1))
    P = matrix(m)
    need(np.array_equal(P, P.T), "a rank-shaped table is not symmetric")
    by = {r: case["a"][i] for i, r in enumerate(M.RANK)}
    for x in range(24):
        for y in range(24):
            need(P[x, y] == by[M.rank_between(x, y)], "%d -> %d is %r", x, y, P[x, y])
    return len(set(case["a"])) > 1


@CHECK.clause("names", st.fixed_dictionaries({"n": st.one_of(
    st.sampled_from(NAMES + ["custom", "", "Linear", "exponential", "exponential3", "sapp"]), st.text(max_size=8))}),
    quick=500)
def names(case, ctx):
    b = ctx.bridge("core!fast")
    n = case["n"]
    need(b.call("transition_valid", n) == [int(n in M.TRANSITIONS)], "validity of %r", n)
    name, arr, m = parse(b.call("transition", 1, n, 1))
    if n in M.TRANSITIONS or n == "custom":
        need(name == n, "selected %r for %r", name, n)
        return True
    need(name != n or n == "", "unknown table %r selected", n)
    need(not any(arr), "an unknown table has transitions")
    return "rejected"


@CHECK.clause("named_ignores_custom", st.fixed_dictionaries({"n": st.sampled_from(NAMES), "a": free}), quick=200)
def named_ignores_custom(case, ctx):
    b = ctx.bridge("core!fast")
    _, x, mx = parse(b.call("transition", 4, case["n"], case["a"], 1))
    _, y, my = parse(b.call("transition", 1, case["n"], 1))
    need(x == y and mx == my, "custom numbers leak into %s", case["n"])
    return True
