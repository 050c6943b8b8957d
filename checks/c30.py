from pygen import *

CHECK = Check(
    "C30",
    "The random generator of key profiles and key transitions: seeded histories of up to 30 generated items, with "
    "ranges 128-4096, and geometric transitions of ratios 1.01-80.  Non-trivial: at least one item was generated.",
    components=["core!fast"],
    assumptions=["Ranges are large enough to give every level of the hierarchy a choice (the program uses 100 and 256)."], times=4)
KP, KT, G = "optimizer.key_profiles.", "optimizer.key_transitions.", "optimizer.generator.Generator"
MAJ = {0: 0, 7: 0, 2: 1, 4: 1, 5: 1, 9: 1, 11: 1, 1: 2, 3: 2, 6: 2, 8: 2, 10: 2}
MIN = {0: 0, 7: 0, 2: 1, 3: 1, 5: 1, 8: 1, 11: 1, 9: 2, 10: 2, 1: 3, 4: 3, 6: 3}


def counts(half, level, rng, what):
    """The half is made of whole numbers below range/2^level, over their sum."""
    need(len(half) == 12 and min(half) >= 0 and abs(sum(half) - 1) < 1e-9, "%s is no distribution: %s", what, half)
    top = [max(half[i] for i in level if level[i] == k) for k in range(max(level.values()) + 1)]
    total = max(1, sum(int(rng / 2 ** level[i]) - 1 for i in level))
    # some sum s <= total turns every entry into a whole number in its range
    for i in range(12):
        need(half[i] <= 1, "%s: %s", what, half)
    h = np.array(half)
    s = np.arange(1, total + 1)[:, None]
    v = h[None, :] * s
    whole = np.abs(v - np.rint(v)).max(axis=1) < 1e-7 * total
    lim = np.array([int(rng / 2 ** level[i]) for i in range(12)])
    ok = whole & (np.rint(v) < lim[None, :]).all(axis=1)
    need(ok.any(), "%s does not give its pitch classes counts below %s: %s (%s)", what, lim.tolist(), half, top)


ops = st.lists(st.one_of(st.tuples(st.just("kp"), st.just(0)), st.tuples(st.just("kt"), st.just(0)),
                         st.tuples(st.just("kps"), st.integers(0, 6)), st.tuples(st.just("kts"), st.integers(0, 6))),
               min_size=1, max_size=8)


@CHECK.clause("histories", st.fixed_dictionaries({
    "seed": st.integers(0, 2 ** 32), "kp": st.sampled_from([64, 100, 128, 200, 513]),
    "kt": st.sampled_from([256, 300, 1000, 4096]), "ops": ops}), quick=250, workers=3)
def histories(case, ctx):
    """Every generated name is new, registered, and one of the distributions the hierarchy allows."""
    p = py(ctx)
    p.run([["seed", case["seed"]]])
    p.call(G, case["kp"], case["kt"], keep="g")
    before = (set(p.do("get", KP + "_kp").v), set(p.do("get", KT + "_kt").v))
    kps, kts = [], []
    for op, n in case["ops"]:
        f = {"kp": "generate_key_profile", "kt": "generate_key_transition", "kps": "generate_key_profiles",
             "kts": "generate_key_transitions"}[op]
        res = p.do("call", "$g." + f, [n] if op.endswith("s") else [])
        need(res.exc is None, "%s: %s", f, res.exc)
        need(not res.warned(), "%s warns %s", f, res.warned())
        v = res.v
        if op.endswith("s"):
            need(len(v) == n, "asked for %d, got %s", n, v)
        else:
            v = [v]
        (kps if "kp" in op else kts).extend(v)
    need(len(set(kps)) == len(kps) and not set(kps) & before[0], "profile names are not new: %s", kps)
    need(len(set(kts)) == len(kts) and not set(kts) & before[1], "transition names are not new: %s", kts)
    reg, tr, ratios = p.do("get", KP + "_kp").v, p.do("get", KT + "_kt").v, p.do("get", KT + "_ratios").v
    need(set(reg) == before[0] | set(kps), "the registry holds other profiles than were made: %s", sorted(reg))
    need(set(tr) == before[1] | set(kts), "the registry holds other transitions than were made: %s", sorted(tr))
    for n in kps:
        need(len(reg[n]) == 24, "%s has %d entries", n, len(reg[n]))
        counts(reg[n][:12], MAJ, case["kp"], n + " (major)")
        counts(reg[n][12:], MIN, case["kp"], n + " (minor)")
    for n in kts:
        v = tr[n]
        need(len(v) == 24 and min(v) >= 0 and abs(sum(v) - 1) < 1e-9, "%s is no distribution: %s", n, v)
        if n.startswith("ktg"):
            need(n in ratios and 2 <= ratios[n] <= 50, "%s has ratio %s", n, ratios.get(n))
            geometric(v, ratios[n], n)
        else:
            need(n.startswith("kts") and n not in ratios, "%s is neither geometric nor free", n)
            lim = [int(case["kt"] / 2 ** (r - 1)) for r in M.RANK]
            total = sum(x - 1 for x in lim)
            h = np.array(v)
            s = np.arange(1, total + 1)[:, None]
            w = h[None, :] * s
            ok = (np.abs(w - np.rint(w)).max(axis=1) < 1e-7 * total) & (np.rint(w) < np.array(lim)[None, :]).all(axis=1)
            need(ok.any(), "%s does not give its keys counts below %s: %s", n, lim, v)
    if kts:
        ctx.label("free" if any(n.startswith("kts") for n in kts) else "geometric")
    return bool(kps or kts)


def geometric(v, ratio, what):
    w = [float(ratio) ** -(r - 1) for r in M.RANK]
    t = sum(w)
    for i in range(24):
        need(abs(v[i] - w[i] / t) <= 1e-9 * (w[i] / t), "%s at distance %d is %r, not %r (ratio %s)", what, i, v[i], w[i] / t, ratio)


@CHECK.clause("geometric", st.one_of(st.floats(1.01, 80), st.sampled_from([2, 5, 10, 15])), quick=300)
def geometric_tables(case, ctx):
    """A geometric table falls by its ratio with every step away from the key."""
    p = py(ctx)
    p.call(G, 100, 256, keep="g")
    geometric(p.call("$g.generate_geometric_key_transition", case), case, "the table")
    return True


@CHECK.clause("many", st.fixed_dictionaries({"seed": st.integers(0, 2 ** 32), "kp": st.integers(1030, 2300), "kt": st.integers(300, 1200),
                                             "rounds": st.integers(1, 3)}), quick=4)
def many(case, ctx):
    """However many were made, the next name is new and nothing made before is lost."""
    p = py(ctx)
    p.run([["seed", case["seed"]]])
    p.call(G, 100, 256, keep="g")
    kp0, kt0 = set(p.do("get", KP + "_kp").v), set(p.do("get", KT + "_kt").v)
    kps, kts = [], []
    for i in range(case["rounds"]):
        for kind, n, into in (("profiles", case["kp"], kps), ("transitions", case["kt"], kts)):
            v = p.call("$g.generate_key_" + kind, n // case["rounds"])
            need(len(v) == n // case["rounds"], "asked for %d %s, got %d", n // case["rounds"], kind, len(v))
            into += v
    for made, before, reg in ((kps, kp0, KP + "_kp"), (kts, kt0, KT + "_kt")):
        need(len(set(made)) == len(made), "of %d names only %d are different: %s comes again", len(made), len(set(made)),
             next((x for i, x in enumerate(made) if x in made[:i]), None))
        now = p.do("get", reg).v
        need(not set(made) & before and set(now) == before | set(made), "%d names made, %d registered", len(made), len(now) - len(before))
    return True


@CHECK.clause("spread", st.integers(0, 2 ** 32), quick=6)
def spread(case, ctx):
    """Over many draws every pitch class and key gets weight, both kinds of transitions appear, and the draws differ."""
    p = py(ctx)
    p.run([["seed", case]])
    p.call(G, 100, 256, keep="g")
    kps = p.call("$g.generate_key_profiles", 600)
    kts = p.call("$g.generate_key_transitions", 300)
    reg, tr, ra = p.do("get", KP + "_kp").v, p.do("get", KT + "_kt").v, p.do("get", KT + "_ratios").v
    a = np.array([reg[n] for n in kps])
    need(len({tuple(x) for x in a.tolist()}) > 500, "only %d different profiles of 600", len({tuple(x) for x in a.tolist()}))
    m = a.mean(axis=0)
    for i in range(0, 600, 100):
        part = a[i:i + 100].mean(axis=0)
        need(part.min() > 0.005, "from the %dth profile on a pitch class never gets weight: %s", i, part.tolist())
    for off, level in ((0, MAJ), (12, MIN)):
        by = [np.mean([m[off + i] for i in level if level[i] == k]) for k in range(max(level.values()) + 1)]
        need(all(x > y * 1.3 for x, y in zip(by, by[1:])), "the hierarchy of the profiles is %s", by)
    free = [n for n in kts if n.startswith("kts")]
    need(3 <= len(free) <= 80, "%d of 300 transitions are free (one in ten expected)", len(free))
    p.call(G, 100, 4096, keep="h")
    f = np.array([p.call("$h.generate_stochastic_key_transition") for _ in range(300)]).mean(axis=0)
    for rank in range(1, 10):
        ks = [k for k in range(24) if M.RANK[k] == rank]
        want = f[0] / 2 ** (rank - 1)
        need(all(.6 * want < f[k] < 1.5 * want for k in ks), "free transitions give keys %s weights of %s, expected around %s", ks, f[ks].tolist(), want)
    r = [ra[n] for n in kts if n.startswith("ktg")]
    need(min(r) < 8 and max(r) > 44 and 20 < np.mean(r) < 32, "the ratios run from %s to %s, mean %s", min(r), max(r), np.mean(r))
    return True
