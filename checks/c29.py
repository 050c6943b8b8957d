from pygen import *

CHECK = Check(
    "C29",
    "The optimiser's registries of key profiles and key transitions: histories of up to 25 inserts, mixes, look-ups, "
    "ratio stores, removals and keeps over built-in and new names.  Non-trivial: something was removed or mixed after "
    "an insert, or a built-in table was compared.",
    components=["core!fast"],
    assumptions=["Only registered names are removed, each once per call (the optimiser removes what it made)."], times=4)
KP, KT = "optimizer.key_profiles.", "optimizer.key_transitions."
BUILTIN_KP = ["krumhansl_kessler", "aarden_essen", "sapp", "bellman_budge", "temperley", "albrecht_shanahan1",
              "albrecht_shanahan2", "experiment4", "experiment6", "napoles_midi128", "simple_natural_minor",
              "simple_harmonic_minor", "simple_melodic_minor"]
RATIO = {"ktg_exponential%d" % n: n for n in (2, 4, 5, 10, 12, 15, 20)}
BUILTIN_KT = ["ktg_linear", "ktg_experiment6", "ktg_napoles_midi128"] + sorted(RATIO)
NEW = ["kp1", "kp12", "kpc1", "x y", "sapp", "app"]
MIX = NEW[:2] + ["sapp"]
NEWT = ["ktg1", "kts1", "ktg12", "ktgm1", "ktsm2", "ktg_exponential5", "ktg_exponential1"]
nums = st.integers(0, 10 ** 6)


def half(r, kind):
    v = r.random(12) * (r.random(12) < .8) + 1e-9
    v = v / v.sum()
    if kind == "small":
        v = v * 10.0 ** -r.integers(0, 14, 12)
        v[0] += 1 - v.sum()
    if kind == "low":
        v = v * .9
    if kind == "high":
        v = v * 1.2
    return v.tolist()


ops_kp = st.lists(st.one_of(
    st.tuples(st.just("insert"), st.sampled_from(NEW), nums, st.sampled_from(["good", "good", "small", "low", "high", "both"]), st.booleans()),
    st.tuples(st.just("get"), st.sampled_from(BUILTIN_KP + NEW + ["nothing"])),
    st.tuples(st.just("string"), st.sampled_from(BUILTIN_KP + NEW + ["nothing"])),
    st.tuples(st.just("mix"), st.sampled_from(MIX * 4 + BUILTIN_KP[:4] + NEW + ["nothing"]), st.sampled_from(MIX * 4 + BUILTIN_KP[:4] + NEW + ["nothing"])),
    st.tuples(st.just("insert"), st.sampled_from(MIX), nums, st.just("good"), st.just(False)),
    st.tuples(st.just("remix"), st.permutations(MIX), nums),
    st.tuples(st.just("flush"), st.lists(st.sampled_from(BUILTIN_KP + NEW), max_size=3, unique=True)),
    st.tuples(st.just("keep"), st.lists(st.sampled_from(BUILTIN_KP + NEW + ["nothing"]), min_size=3, max_size=16, unique=True)),
    st.tuples(st.just("log"))), min_size=1, max_size=25)


def same_text(s, want, what):
    """24 numbers, blanks between them, each the registered one."""
    need(isinstance(s, str) and len(s.split(" ")) == 24, "%s: written as %r", what, s)
    for a, b in zip(s.split(" "), want):
        need(float(a) == b, "%s: %r written as %s", what, b, a)


@CHECK.clause("profiles", ops_kp, quick=600, workers=3)
def profiles(case, ctx):
    """A registry of profiles holds what was put in and not taken out, the latest under each name."""
    p = py(ctx)
    model = {n: p.call(KP + "get", n) for n in BUILTIN_KP}
    made, live = False, False
    steps = []
    for op in case:
        if op[0] == "remix":
            a, b = op[1][:2]
            put = [("insert", n, op[2] + i, "good", False) for i, n in enumerate((a, b, op[1][op[2] % 2]))]
            steps += put[:2] + [("mix", a, b), put[2], ("mix", a, b)]
        else:
            steps.append(op)
    for op in steps:
        if op[0] == "insert":
            r = np.random.default_rng(op[2])
            a, b = (half(r, op[3]), half(r, "good"))
            if op[4] and op[3] in ("low", "high"):
                a, b = b, a
            if op[3] == "both":  # (off in one half, off as much the other way in the other)
                d = (.02, .1, .4)[op[2] % 3] * (1 if op[4] else -1)
                a, b = [x * (1 + d) for x in a], [x * (1 - d) for x in b]
            res = p.do("call", KP + "insert_new", [op[1], a + b])
            need(res.exc is None, "insert_new: %s", res.exc)
            bad = op[3] in ("low", "high", "both")
            need(bool(res.warned()) == bad, "a profile whose halves sum to %s and %s gives warnings %s", sum(a), sum(b), res.warned())
            model[op[1]] = a + b
            made = True
        elif op[0] in ("get", "string"):
            res = p.do("call", KP + ("get" if op[0] == "get" else "get_as_string"), [op[1]])
            need(res.exc is None, "%s: %s", op, res.exc)
            if op[1] not in model:
                need(res.v is None and res.warned(), "%s of an unknown name: %s", op, res.v)
            elif op[0] == "get":
                need(res.v == model[op[1]], "%s is %s, not %s", op[1], res.v, model[op[1]])
            else:
                same_text(res.v, model[op[1]], op[1])
        elif op[0] == "mix":
            res = p.do("call", KP + "mix", [op[1], op[2]])
            need(res.exc is None, "mix: %s", res.exc)
            if op[1] in model and op[2] in model:
                need(res.v == op[1] + "_" + op[2], "the mix is named %r", res.v)
                model[res.v] = model[op[1]][:12] + model[op[2]][12:]
                live = True
            else:
                need(res.v is None and res.warned(), "a mix with an unknown name is %r", res.v)
        elif op[0] == "flush":
            names = [n for n in op[1] if n in model]
            p.call(KP + "flush_key_profiles", names)
            live |= made and bool(names)
            for n in names:
                del model[n]
        elif op[0] == "keep":
            p.call(KP + "keep_key_profiles", op[1])
            live |= made
            model = {n: v for n, v in model.items() if n in op[1]}
        else:
            p.call(KP + "log_key_profiles_dict")
        got = p.do("get", KP + "_kp").v
        need(got == model, "the registry holds %s, should hold %s", sorted(got), sorted(model))
    return live


ops_kt = st.lists(st.one_of(
    st.tuples(st.just("insert"), st.sampled_from(NEWT), nums, st.sampled_from(["good", "good", "small", "low", "high"])),
    st.tuples(st.just("ratio"), st.sampled_from(NEWT), st.floats(1.5, 60)),
    st.tuples(st.just("get"), st.sampled_from(BUILTIN_KT + NEWT + ["nothing"])),
    st.tuples(st.just("get_ratio"), st.sampled_from(BUILTIN_KT + NEWT + ["nothing"])),
    st.tuples(st.just("string"), st.sampled_from(BUILTIN_KT + NEWT + ["nothing"])),
    st.tuples(st.just("flush"), st.lists(st.sampled_from(BUILTIN_KT + NEWT), max_size=3, unique=True)),
    st.tuples(st.just("keep"), st.lists(st.sampled_from(BUILTIN_KT + NEWT + ["nothing"]), min_size=3, max_size=12, unique=True)),
    st.tuples(st.just("log"))), min_size=1, max_size=25)


@CHECK.clause("transitions", ops_kt, quick=600, workers=3)
def transitions(case, ctx):
    """The registry of transitions keeps tables and ratios together."""
    p = py(ctx)
    model = {n: p.call(KT + "get", n) for n in BUILTIN_KT}
    ratios = dict(p.do("get", KT + "_ratios").v)
    made, live = False, False
    for op in case:
        if op[0] == "insert":
            r = np.random.default_rng(op[2])
            v = (np.array(half(r, op[3]) + half(r, op[3])) / 2).tolist()
            res = p.do("call", KT + "insert_new", [op[1], v])
            need(res.exc is None and bool(res.warned()) == (op[3] in ("low", "high")), "a table that sums to %s: %s, warnings %s",
                 sum(v), res.exc, res.warned())
            model[op[1]] = v
            made = True
        elif op[0] == "ratio":
            p.call(KT + "store_ratio", op[1], op[2])
            ratios[op[1]] = op[2]
        elif op[0] in ("get", "string", "get_ratio"):
            f = {"get": "get", "string": "get_as_string", "get_ratio": "get_ratio"}[op[0]]
            res = p.do("call", KT + f, [op[1]])
            need(res.exc is None, "%s: %s", op, res.exc)
            known = ratios if op[0] == "get_ratio" else model
            if op[1] not in known:
                need(res.v is None and res.warned(), "%s of an unknown name: %s", op, res.v)
            elif op[0] == "string":
                same_text(res.v, model[op[1]], op[1])
            else:
                need(res.v == known[op[1]], "%s: %s is %s, not %s", op[0], op[1], res.v, known[op[1]])
        elif op[0] == "flush":
            names = [n for n in op[1] if n in model]
            p.call(KT + "flush_key_transitions", names)
            live |= made and bool(names)
            for n in names:
                del model[n]
                ratios.pop(n, None)
        elif op[0] == "keep":
            p.call(KT + "keep_key_transitions", op[1])
            live |= made
            model = {n: v for n, v in model.items() if n in op[1]}
            ratios = {n: v for n, v in ratios.items() if n in op[1]}
        else:
            p.call(KT + "log_key_transitions_dict")
        need(p.do("get", KT + "_kt").v == model, "the registry holds other tables than were put in: %s, not %s",
             sorted(p.do("get", KT + "_kt").v), sorted(model))
        need(p.do("get", KT + "_ratios").v == ratios, "the ratios are %s, not %s", p.do("get", KT + "_ratios").v, ratios)
    return live


@CHECK.clause("many", st.fixed_dictionaries({
    "n": st.integers(40, 1200), "seed": nums, "ops": st.lists(st.tuples(st.sampled_from(["flush", "keep", "more", "look", "log"]), st.integers(1, 99)), max_size=6)}), quick=10, workers=2)
def many(case, ctx):
    """Both registries hold the names of a whole search."""
    p = py(ctx)
    r = np.random.default_rng(case["seed"])
    kp = {n: p.call(KP + "get", n) for n in BUILTIN_KP}
    kt = {n: p.call(KT + "get", n) for n in BUILTIN_KT}

    def put(a, b):
        for i in range(a, b):
            x, y = half(r, "good") + half(r, "good"), (np.array(half(r, "good") + half(r, "good")) / 2).tolist()
            p.call(KP + "insert_new", "kp%d" % i, x)
            p.call(KT + "insert_new", "ktg%d" % i, y)
            kp["kp%d" % i], kt["ktg%d" % i] = x, y
    put(0, case["n"])
    top = case["n"]
    for what, k in case["ops"]:
        if what == "more":
            put(top - k % 7, top + k)
            top += k
        elif what == "look":
            for reg, at in ((kp, KP), (kt, KT)):
                for n in sorted(reg)[::max(1, len(reg) // k)]:
                    need(p.call(at + "get", n) == reg[n], "%s of %d is another table", n, len(reg))
        elif what == "log":
            p.call(KP + "log_key_profiles_dict")
            p.call(KT + "log_key_transitions_dict")
        else:
            for reg, at, one in ((kp, KP, "key_profiles"), (kt, KT, "key_transitions")):
                some = [n for n in reg if r.random() * 100 < k]
                if what == "flush":
                    p.call(at + "flush_" + one, some)
                    for n in some:
                        del reg[n]
                else:
                    p.call(at + "keep_" + one, some)
                    for n in set(reg) - set(some):
                        del reg[n]
    need(p.do("get", KP + "_kp").v == kp, "the registry of %d profiles holds others", len(kp))
    need(p.do("get", KT + "_kt").v == kt, "the registry of %d transitions holds others", len(kt))
    return bool(case["ops"])


def unit(v):
    t = sum(v)
    return [x / t for x in v]


@CHECK.clause("tables", st.sampled_from(BUILTIN_KP + BUILTIN_KT), quick=80)
def tables(case, ctx):
    """The built-in tables are the published ones, the same as the program's own under the same name."""
    p = py(ctx)
    b = ctx.bridge("core!fast")
    if case in BUILTIN_KP:
        v = p.call(KP + "get", case)
        need(len(v) == 24 and min(v) >= 0, "%s is no pair of distributions", case)
        names = (case if case in M.PROFILES_MAJOR else "sapp", case if case in M.PROFILES_MINOR else None)
        own = b.call("profile", 2, names[0], names[1] or "sapp", 1)[2:26]
        for i, h in enumerate((v[:12], v[12:])):
            need(abs(sum(h) - 1) < 0.01, "%s sums to %s", case, sum(h))
            known = (case in M.PROFILES_MAJOR or case.startswith("simple")) if i == 0 else case in M.PROFILES_MINOR
            if known:
                c = own[12 * i:12 * i + 12]
                need(all(abs(x - y) < 1e-5 for x, y in zip(unit(h), unit(c))), "%s is %s, the program's own is %s", case, h, c)
        return True
    v = p.call(KT + "get", case)
    need(len(v) == 24 and min(v) > 0 and abs(sum(v) - 1) < 1e-6, "%s is no distribution", case)
    by = {}
    for x, r in zip(v, M.RANK):
        by.setdefault(r, []).append(x)
    need(all(len(set(x)) == 1 for x in by.values()), "%s tells keys of one rank apart", case)
    seq = [by[r][0] for r in range(1, 10)]
    need(all(x > y for x, y in zip(seq, seq[1:])), "%s does not follow the closeness ranking", case)
    own = case[4:]
    if own in M.TRANSITIONS:
        c = b.call("transition", 1, own, 1)[1:25]
        need(all(abs(x - y) < 1e-9 for x, y in zip(v, c)), "%s is %s, the program's own is %s", case, v, c)
    if case != "ktg_linear":
        ratio = p.call(KT + "get_ratio", case)
        need(ratio is not None, "%s has no ratio", case)
        for k, x in enumerate(seq):
            want = seq[0] * float(ratio) ** -k
            need(abs(x - want) <= 1e-4 * want + 1e-9, "%s is not geometric with ratio %s: %s", case, ratio, seq)
        if case in RATIO:
            need(abs(ratio - RATIO[case]) < 1e-9, "%s has ratio %s", case, ratio)
    return True
