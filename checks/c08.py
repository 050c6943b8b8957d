from hmmgen import *

CHECK = Check(
    "C08",
    "Models with nothing to decode: no observations at all, or observations that no state sequence can "
    "produce (zero rows, columns, unreachable states).  Oracle: the reference decoder says whether any "
    "path has positive probability.  Non-trivial: no path exists.",
    components=["core"])


@CHECK.clause("impossible", model(max_states=5, max_obs=8, zeros=True, min_obs=0), quick=2500, workers=2,
              examples=[{"kind": 0, "states": [0], "init": [0.5], "trans": [[0.5]], "emit": [[0.5]], "nsym": 1, "obs": []},
                        {"kind": 0, "states": [0], "init": [0.5], "trans": [[0.5]], "emit": [[0.0]], "nsym": 1, "obs": [0]},
                        {"kind": 1, "states": [0, 1], "init": [0.5, 0.5], "trans": [[0.0, 0.0], [0.0, 0.0]],
                         "emit": [[0.5], [0.5]], "nsym": 1, "obs": [0, 0]}])
def impossible(case, ctx):
    b = ctx.bridge("core")
    dead = not case["obs"] or max(oracle(case)[0]) == -math.inf
    r = b.call("hmm", *args(case))
    d = parse(r, 1)
    if dead:
        need(d["status"] != READY, "no key sequence is possible, yet the model reports a result")
        need(d["path"] == [], "no key sequence is possible, yet it gives %s", d["path"])
        return "empty" if not case["obs"] else "impossible"
    verify(case, d)
    return False


@CHECK.clause("then_again", st.tuples(model(max_states=3, max_obs=4, zeros=True, min_obs=0), st.integers(1, 3)).map(list),
              quick=1000)
def again(case, ctx):
    m, n = case
    b = ctx.bridge("core")
    dead = not m["obs"] or max(oracle(m)[0]) == -math.inf
    b.call("hmm_new", 0, *args(m))
    for _ in range(n):
        d = parse(b.call("hmm_run", 0))
        if dead:
            need(d["status"] != READY and d["path"] == [], "a result where none is possible")
        else:
            verify(m, d)
    return dead


@CHECK.clause("large", st.fixed_dictionaries({"m": large, "zeros": st.sampled_from([.02, .1, .3, .6]), "dead": st.integers(-1, 600), "n": st.integers(1, 2)}),
              quick=120, workers=2)
def large_(case, ctx):
    """One note in long music that nothing explains is enough."""
    b = ctx.bridge("core")
    m = grow(case["m"], case["zeros"])
    if case["dead"] >= 0:  # a note no state can sound
        for row in m["emit"]:
            row[-1] = 0.0
        m["obs"] = [x % (m["nsym"] - 1) for x in m["obs"]]
        m["obs"][case["dead"] % len(m["obs"])] = m["nsym"] - 1
    dead = max(oracle(m)[0]) == -math.inf
    b.call("hmm_new", 0, *args(m))
    for _ in range(case["n"]):
        d = parse(b.call("hmm_run", 0))
        if dead:
            need(d["status"] != READY and d["path"] == [], "a result where none is possible")
        else:
            verify(m, d)
    return dead


# every observation the fixed profiles forbid in all keys of one mode
@CHECK.clause("detector", st.fixed_dictionaries({
    "zero_pcs": st.lists(st.integers(0, 11), max_size=12, unique=True),
    "t": st.lists(st.sampled_from([0.0, 0.0, 0.0, 0.25, 0.5]), min_size=24, max_size=24),
    "obs": st.lists(st.integers(0, 11), max_size=10)}), quick=250, workers=2)
def detector(case, ctx):
    prof = [0.0 if i in case["zero_pcs"] else 0.1 for i in range(12)]
    r = ctx.bridge("core").call("detect", "custom", "custom", "custom", prof, prof, case["t"],
                                len(case["obs"]), case["obs"])
    h1 = parse(r)
    h2 = parse(r, h1["_end"])
    need((h1["status"] == READY) == bool(h1["path"]), "stage 1: status %s with %d keys", h1["status"], len(h1["path"]))
    need((h2["status"] == READY) == bool(h2["path"]), "stage 2: status %s with %d keys", h2["status"], len(h2["path"]))
    if h1["path"]:
        need(len(h1["path"]) == len(case["obs"]), "stage 1 length")
    if h2["path"]:
        need(len(set(h2["path"])) == 1, "more than one global key")
    return not h2["path"]
