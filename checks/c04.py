from common import *
import numpy as np

CHECK = Check(
    "C04",
    "Key profiles: every named profile alone and in every major/minor pair, custom arrays of random "
    "weights in one or both modes, random names; the emission table is built one or more times.  "
    "Non-trivial: a valid selection.",
    components=["core!fast"], times=3)
MAJ, MIN = sorted(M.PROFILES_MAJOR), sorted(M.PROFILES_MINOR)
arr = weights(12)


def parse(r):
    d = {"major": r[0], "minor": r[1], "ma": r[2:14], "mi": r[14:26], "map": {}}
    n, i = r[26], 27
    for _ in range(n):
        k, c = r[i], r[i + 1]
        d["map"][k] = {r[i + 2 + 2 * j]: r[i + 3 + 2 * j] for j in range(c)}
        i += 2 + 2 * c
    return d


def check_map(d, major, minor, exact, times):
    tol = 0.0 if exact else 2e-7
    if times:
        need(sorted(d["map"]) == list(range(24)), "keys in the table: %s", sorted(d["map"]))
        for k in range(24):
            need(sorted(d["map"][k]) == list(range(12)), "pitch classes of key %d: %s", k, sorted(d["map"][k]))
            src = major if k < 12 else minor
            for pc in range(12):
                want = src[(pc - k) % 12]
                need(abs(d["map"][k][pc] - want) <= tol, "key %d emits %d with %r, expected %r", k, pc,
                     d["map"][k][pc], want)
    for i in range(12):
        need(abs(d["ma"][i] - major[i]) <= tol and abs(d["mi"][i] - minor[i]) <= tol,
             "profile entry %d: %r / %r", i, d["ma"][i], d["mi"][i])


@CHECK.clause("named", st.fixed_dictionaries({"a": st.sampled_from(MAJ), "b": st.sampled_from(MIN),
                                              "times": st.integers(1, 3), "single": st.booleans()}), quick=1500, workers=2)
def named(case, ctx):
    a, b = case["a"], case["b"]
    if case["single"]:
        b = a
        r = ctx.bridge("core!fast").call("profile", 1, a, "", case["times"])
    else:
        r = ctx.bridge("core!fast").call("profile", 2, a, b, case["times"])
    d = parse(r)
    need((d["major"], d["minor"]) == (a, b), "selected %s/%s for %s/%s", d["major"], d["minor"], a, b)
    check_map(d, M.PROFILES_MAJOR[a], M.PROFILES_MINOR[b], False, True)
    for x in (d["ma"], d["mi"]):
        need(min(x) >= 0 and abs(sum(x) - 1) < 5e-3, "profile %s/%s sums to %r", a, b, sum(x))
    return "single" if case["single"] else "pair"


@CHECK.clause("default", st.just({}), quick=2)
def default(case, ctx):
    d = parse(ctx.bridge("core!fast").call("profile", 0, "", "", 1))
    need((d["major"], d["minor"]) == ("temperley", "sapp"), "default %s/%s", d["major"], d["minor"])
    check_map(d, M.PROFILES_MAJOR["temperley"], M.PROFILES_MINOR["sapp"], False, True)
    return True


@CHECK.clause("custom", st.fixed_dictionaries({
    "a": st.sampled_from(["custom", "custom"] + MAJ), "b": st.sampled_from(["custom", "custom"] + MIN),
    "x": arr, "y": arr, "times": st.integers(1, 2)}), quick=2000, workers=2)
def custom(case, ctx):
    a, b = case["a"], case["b"]
    d = parse(ctx.bridge("core!fast").call("profile", 4, a, b, case["x"], case["y"], case["times"]))
    need((d["major"], d["minor"]) == (a, b), "selected %s/%s for %s/%s", d["major"], d["minor"], a, b)
    major = case["x"] if a == "custom" else M.PROFILES_MAJOR[a]
    minor = case["y"] if b == "custom" else M.PROFILES_MINOR[b]
    # the caller's own numbers arrive unchanged
    if a == "custom":
        need(d["ma"] == case["x"], "major %s", d["ma"])
    if b == "custom":
        need(d["mi"] == case["y"], "minor %s", d["mi"])
    check_map(d, major, minor, a == b == "custom", True)
    return a == "custom" or b == "custom"


names = st.one_of(st.sampled_from(MAJ + MIN + ["custom", "", "Sapp", "sapp ", "temperly", "simple",
                                               "krumhansl", "exponential10"]), st.text(max_size=8))


@CHECK.clause("names", st.fixed_dictionaries({"a": names, "b": names}), quick=2000, workers=2)
def validity(case, ctx):
    b = ctx.bridge("core!fast")
    for n in (case["a"], case["b"]):
        ok = b.call("profile_valid", n)
        need(ok == [int(n in M.PROFILES_MAJOR), int(n in M.PROFILES_MINOR)], "validity of %r: %s", n, ok)
    d = parse(b.call("profile", 2, case["a"], case["b"], 1))
    va = case["a"] in M.PROFILES_MAJOR or case["a"] == "custom"
    vb = case["b"] in M.PROFILES_MINOR or case["b"] == "custom"
    if va and vb:
        need((d["major"], d["minor"]) == (case["a"], case["b"]), "selected %s/%s", d["major"], d["minor"])
        return True
    need((d["major"], d["minor"]) != (case["a"], case["b"]) or (case["a"], case["b"]) == ("", ""),
         "an unknown profile was selected: %s", case)
    need(all(v == 0 for m in d["map"].values() for v in m.values()), "an unknown profile emits something")
    return "rejected"
