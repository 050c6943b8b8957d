from pygen import *

CHECK = Check(
    "C31",
    "The evolver: up to 6 generations in a row of populations of 1-20 profiles or transitions (built-in, generated or "
    "inserted, with zeros), with drawn retain / random / crossover shares and mutation probabilities and ratios.  "
    "Non-trivial: something was crossed over or mutated.",
    assumptions=["Populations list different names, best first, all registered."], times=3)
KP, KT = "optimizer.key_profiles.", "optimizer.key_transitions."
G, E = "optimizer.generator.Generator", "optimizer.evolver.Evolver"
KPS = ["krumhansl_kessler", "aarden_essen", "sapp", "bellman_budge", "temperley", "albrecht_shanahan1",
       "albrecht_shanahan2", "experiment4", "simple_natural_minor"]
KTS = ["ktg_linear", "ktg_exponential2", "ktg_exponential4", "ktg_exponential5", "ktg_exponential10",
       "ktg_exponential12", "ktg_exponential15", "ktg_exponential20", "ktg_experiment6", "ktg_napoles_midi128"]
share = st.sampled_from([0.0, .1, .2, .25, .3, .5, .8, 1.0])
gen = st.fixed_dictionaries({
    "retain": share, "random": share, "cross": share, "prob": st.sampled_from([0.0, .5, 1.0]),
    "ratio": st.sampled_from([0.01, .1, .5, 1.0]), "order": st.integers(0, 10 ** 6), "defaults": st.booleans()})
base = {"seed": st.integers(0, 2 ** 32), "made": st.one_of(st.integers(0, 14), st.integers(0, 14), st.integers(12, 40)), "gens": st.lists(gen, min_size=1, max_size=6)}


def population(p, case, builtin, name):
    p.run([["seed", case["seed"]]])
    p.call(G, 100, 256, keep="g")
    p.run([["call", E, [ref("g")], {}, "e"]])
    pop = list(builtin) + p.call("$g.generate_key_" + name, case["made"])
    return pop


def mutant_of(child, parents, ratio, halves):
    """The parent a share `ratio` of whose one entry moved to another one of the same half."""
    return next(mutants_of(child, parents, ratio, halves), None)


def mutants_of(child, parents, ratio, halves):
    for n, v in parents.items():
        d = [i for i in range(24) if child[i] != v[i]]
        for h in halves:
            if any(i not in h for i in d):
                continue
            if not d:
                # a share of nothing moved: some entry of the half is zero (or too small to matter)
                if any(v[i] * ratio < 1e-16 * max(v) for i in h):
                    yield n
                    break
                continue
            cand = [(a, b) for a in d for b in (d if len(d) > 1 else h) if a != b] if len(d) < 3 else []
            if len(d) == 1:
                cand += [(b, a) for a in d for b in h if a != b]
            if any(abs(child[a] - (v[a] - v[a] * ratio)) < 1e-12 and abs(child[b] - (v[b] + v[a] * ratio)) < 1e-12
                   for a, b in cand):
                yield n
                break


# profiles whose weight lies on few notes: most of it on one of each mode, the rest shared by two others
peak = st.fixed_dictionaries({"at": st.tuples(*[st.permutations(range(12)).map(lambda x: x[:3])] * 2),
                              "w": st.tuples(*[st.sampled_from([.5, .6, .75, .9, .99, 1.0])] * 2)})


def peaked(spec):
    v = [0.0] * 24
    for h in (0, 1):
        (a, b, c), w = spec["at"][h], spec["w"][h]
        v[12 * h + a], v[12 * h + b], v[12 * h + c] = w, (1 - w) * .75, (1 - w) * .25
    return v


@CHECK.clause("profiles", st.fixed_dictionaries(dict(base, start=st.lists(st.sampled_from(KPS), max_size=9, unique=True),
                                                      peaked=st.lists(peak, max_size=3))),
              quick=300, workers=4)
def profiles(case, ctx):
    """A generation has the size of the last; every new profile is a retained one, a crossing or a mutation of them, or random."""
    if not case["start"] and not case["made"]:
        raise Discard
    p = py(ctx)
    pop = population(p, case, case["start"], "profiles")
    for i, spec in enumerate(case["peaked"]):
        p.call(KP + "insert_new", "kpg_peaked%d" % i, peaked(spec))
        pop.append("kpg_peaked%d" % i)
    busy = False
    for g in case["gens"]:
        np.random.default_rng(g["order"]).shuffle(pop)
        before = p.do("get", KP + "_kp").v
        kw = {"retain": g["retain"], "random_retain": g["random"], "crossover": g["cross"], "mutation_prob": g["prob"],
              "mutation_ratio": g["ratio"]}
        if g["defaults"]:
            kw = {}
        kw2 = dict({"retain": .2, "random_retain": .2, "crossover": .3, "mutation_prob": .5, "mutation_ratio": .1}, **kw)
        n = len(pop)
        total = int(n * kw2["retain"]) + int(n * kw2["random_retain"]) + int(n * kw2["crossover"])
        res = p.do("call", "$e.evolve_key_profiles", [pop], kw, None, timeout=20)
        need(res.exc is None, "evolving %d profiles (%s): %s", n, kw2, res.exc)
        new = res.v
        after = p.do("get", KP + "_kp").v
        need(all(after.get(k) == v for k, v in before.items()), "a profile of the last generation changed")
        need(all(isinstance(x, str) and x in after for x in new), "%s is not all registered", new)
        # what is kept, then what is crossed over, then what is made
        need(len(new) == max(n, len(new)) and (len(new) == n or total > n), "%d profiles became %d", n, len(new))
        keep = int(n * kw2["retain"])
        extra = min(int(n * kw2["random_retain"]), n - keep)
        parents = pop[:keep]
        pick, children, mutations = [], 0, 0
        kept_names, retained = [], set()
        for i, x in enumerate(new[:keep + extra]):
            src = x
            if x not in before:
                every = list(mutants_of(after[x], {k: before[k] for k in ([pop[i]] if i < keep else pop[keep:])},
                                        kw2["mutation_ratio"], [range(12), range(12, 24)]))
                src = every[0] if every else None
                retained.update(every)
                need(src is not None, "%s (place %d) is no mutation of a retained profile: %s", x, i, after[x])
                mutations += 1
            elif kw2["mutation_prob"] == 1:
                need(False, "%s was kept although everything mutates", x)
            if i < keep:
                need(src == pop[i], "place %d should hold %s or a mutation of it, holds %s (%s)", i, pop[i], x, src)
            else:
                need(src in pop[keep:], "place %d holds %s, which is not of the old population", i, x)
            kept_names.append((x, src))
            retained.add(src)
        old = [s for _, s in kept_names[keep:]]
        exact = [x for x, s in kept_names[keep:] if x == s]
        need(len(set(exact)) == len(exact), "a profile was retained twice: %s", exact)
        # crossings: the children are registered right after, in order, from the parents as they were before mutation
        created = [k for k in after if k not in before]
        cross = [k for k in created if k.startswith("kpc")]
        want = int(n * kw2["crossover"]) if keep + extra >= 2 else 0
        need(len(cross) == want, "%d crossings, should be %d (population %d, %s)", len(cross), want, n, kw2)
        sources = sorted(retained)
        for c in cross:
            ma = [k for k in sources if before[k][:12] == after[c][:12]]
            mi = [k for k in sources if before[k][12:] == after[c][12:]]
            need(ma and mi, "%s is not the major half of a retained profile and the minor half of another", c)
            need(len(ma) > 1 or len(mi) > 1 or ma != mi, "%s has one parent", c)
        for i, x in enumerate(new[keep + extra:keep + extra + want]):
            if x == cross[i]:
                need(kw2["mutation_prob"] < 1, "%s was kept although everything mutates", x)
                continue
            need(x in after and x not in before and mutant_of(after[x], {cross[i]: after[cross[i]]}, kw2["mutation_ratio"],
                                                              [range(12), range(12, 24)]) == cross[i],
                 "%s is no mutation of the crossing %s", x, cross[i])
            mutations += 1
        for x in new[keep + extra + want:]:
            need(x not in before, "%s is not new", x)
        need(len(set(new)) == len(new), "a name comes twice in %s", new)
        for x in created:
            need(all(y >= -1e-15 for y in after[x]), "%s has negative weight: %s", x, after[x])
        for x in new[:keep + extra + want]:
            if x not in before:
                for h in (slice(0, 12), slice(12, 24)):
                    need(abs(sum(after[x][h]) - 1) < 0.02, "%s sums to %s", x, sum(after[x][h]))
        if kw2["mutation_prob"] == 0:
            need(mutations == 0, "mutations with probability 0")
        busy |= bool(mutations or cross)
        pop = new
        if len(pop) > 80:
            break
    return busy


@CHECK.clause("transitions", st.fixed_dictionaries(dict(base, start=st.lists(st.sampled_from(KTS), max_size=9, unique=True),
                                                        free=st.integers(0, 4))), quick=300, workers=4)
def transitions(case, ctx):
    """Likewise for transitions: mutated ratios stay near, their tables follow them, free ones move a share of one entry."""
    if not case["start"] and not case["made"]:
        raise Discard
    p = py(ctx)
    pop = population(p, case, case["start"], "transitions")
    for i in range(case["free"]):
        v = p.call("$g.generate_stochastic_key_transition")
        p.call(KT + "insert_new", "kts_given%d" % i, v)
        pop.append("kts_given%d" % i)
    busy = False
    for g in case["gens"]:
        np.random.default_rng(g["order"]).shuffle(pop)
        before, rb = p.do("get", KT + "_kt").v, p.do("get", KT + "_ratios").v
        kw = {"retain": g["retain"], "random_retain": g["random"], "mutation_prob": g["prob"], "mutation_ratio": g["ratio"]}
        if g["defaults"]:
            kw = {}
        kw2 = dict({"retain": .2, "random_retain": .2, "mutation_prob": 1, "mutation_ratio": .1}, **kw)
        if kw2["mutation_ratio"] == 1.0:
            kw2["mutation_ratio"] = kw["mutation_ratio"] = .9
        n = len(pop)
        res = p.do("call", "$e.evolve_key_transitions", [pop], kw, None, timeout=20)
        need(res.exc is None, "evolving %d transitions (%s): %s", n, kw2, res.exc)
        new = res.v
        after, ra = p.do("get", KT + "_kt").v, p.do("get", KT + "_ratios").v
        need(all(after.get(k) == v for k, v in before.items()) and all(ra.get(k) == v for k, v in rb.items()),
             "a transition of the last generation changed")
        need(all(isinstance(x, str) and x in after for x in new), "%s is not all registered", new)
        need(len(new) == n, "%d transitions became %d", n, len(new))
        need(len(set(new)) == n, "a name comes twice in %s", new)
        keep = int(n * kw2["retain"])
        extra = min(int(n * kw2["random_retain"]), n - keep)
        m = kw2["mutation_ratio"]
        exact = []
        for i, x in enumerate(new[:keep + extra]):
            cand = [pop[i]] if i < keep else pop[keep:]
            if x in before:
                need(x in cand, "place %d holds %s, not one of %s", i, x, cand)
                need(kw2["mutation_prob"] < 1 or (x.startswith("ktg") and x not in rb), "%s was kept although everything mutates", x)
                exact.append(x)
                continue
            busy = True
            need(kw2["mutation_prob"] > 0, "a mutation with probability 0")
            v = after[x]
            need(min(v) >= 0 and abs(sum(v) - 1) < 1e-6, "%s is no distribution", x)
            if x.startswith("ktg"):
                need(x in ra, "%s has no ratio", x)
                need(any(c in rb and rb[c] * (1 - m) - 1e-9 <= ra[x] <= rb[c] * (1 + m) + 1e-9 for c in cand),
                     "the ratio %s of %s is not within %s of those of %s", ra[x], x, m, [(c, rb.get(c)) for c in cand])
                w = [float(ra[x]) ** -(r - 1) for r in M.RANK]
                t = sum(w)
                need(all(abs(a - b / t) <= 1e-9 for a, b in zip(v, w)), "%s is not the geometric table of its ratio %s", x, ra[x])
            else:
                need(mutant_of(v, {c: before[c] for c in cand if c.startswith("kts")}, m, [range(24)]) is not None,
                     "%s is no mutation of one of %s", x, cand)
        need(len(set(exact)) == len(exact), "a transition was retained twice: %s", exact)
        for x in new[keep + extra:]:
            need(x not in before, "%s is not new", x)
        for x in new:
            need(x not in rb or ra[x] == rb[x], "%s has another ratio now", x)
        pop = new
    return busy


@CHECK.clause("spread", st.integers(0, 2 ** 32), quick=6, workers=2)
def spread(case, ctx):
    """Over many mutations every pitch class gives and takes, within its own mode, and so does every key."""
    p = py(ctx)
    pop = population(p, {"seed": case, "made": 20}, [], "profiles")
    reg = dict(p.do("get", KP + "_kp").v)
    moves = set()
    for _ in range(30):
        new = p.call("$e.evolve_key_profiles", pop, retain=1.0, random_retain=0.0, crossover=0.0, mutation_prob=1.0, mutation_ratio=.1)
        reg.update(p.do("get", KP + "_kp").v)
        for a, b in zip(pop, new):
            moves.update((i, reg[b][i] > reg[a][i]) for i in range(24) if reg[b][i] != reg[a][i])
        pop = new
    need(len(moves) >= 46, "of 24 entries giving and taking only %s are seen in 600 mutations", sorted(moves))
    v = [1 / 24.] * 24
    pop = []
    for i in range(20):
        p.call(KT + "insert_new", "kts_flat%d" % i, v)
        pop.append("kts_flat%d" % i)
    reg, moves = dict(p.do("get", KT + "_kt").v), set()
    for _ in range(30):
        new = p.call("$e.evolve_key_transitions", pop, retain=1.0, random_retain=0.0, mutation_prob=1.0, mutation_ratio=.1)
        reg.update(p.do("get", KT + "_kt").v)
        for a, b in zip(pop, new):
            moves.update((i, reg[b][i] > reg[a][i]) for i in range(24) if reg[b][i] != reg[a][i])
        pop = new
    need(len(moves) >= 46, "of 24 keys giving and taking only %s are seen in 600 mutations", sorted(moves))
    # ratios go up and down, however large they are already
    for ratio in (3.0, 12.0, 49.0, 180.0):
        v = p.call("$g.generate_geometric_key_transition", ratio)
        pop = ["ktg_r%g_%d" % (ratio, i) for i in range(40)]
        for n in pop:
            p.call(KT + "insert_new", n, v)
            p.call(KT + "store_ratio", n, ratio)
        new = p.call("$e.evolve_key_transitions", pop, retain=1.0, random_retain=0.0, mutation_prob=1.0, mutation_ratio=.5)
        ra = p.do("get", KT + "_ratios").v
        got = sorted(ra[n] / ratio for n in new)
        need(got[0] < .8 and got[-1] > 1.2 and got[3] < 1 < got[-4], "40 mutations by half of a ratio of %s lie within %s and %s times it", ratio, got[0], got[-1])
    return True


@CHECK.clause("reach", st.fixed_dictionaries({"seed": st.integers(0, 2 ** 32), "n": st.integers(8, 24), "retain": st.sampled_from([0.0, .2, .5])}),
              quick=8, workers=2)
def reach(case, ctx):
    """Over many generations from one population every member beyond the best is sometimes retained."""
    p = py(ctx)
    for kind, kw in (("profiles", {"crossover": 0.0}), ("transitions", {})):
        pop = population(p, {"seed": case["seed"], "made": case["n"]}, [], kind)
        keep = int(len(pop) * case["retain"])
        extra = int(len(pop) * .3)
        seen = {}
        rounds = 14 * (len(pop) - keep) // extra + 20  # (a member misses all of them once in a million times)
        for _ in range(rounds):
            new = p.call("$e.evolve_key_" + kind, pop, retain=case["retain"], random_retain=.3, mutation_prob=0.0, **kw)
            for x in new[keep:keep + extra]:
                seen[x] = seen.get(x, 0) + 1
        need(set(pop[keep:]) <= set(seen), "%s %s of %d are never retained in %d generations", kind,
             [i for i, x in enumerate(pop) if i >= keep and x not in seen], len(pop), rounds)
    return True
