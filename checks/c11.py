from chrgen import *

CHECK = Check(
    "C11",
    "Chromagrams of up to 12 frames with held chords; the note sequence against the reference rule and "
    "under changes that must not matter.  Non-trivial: the sequence has at least two notes.",
    components=["chroma"])


def seq(ctx, rows, style=1):
    toks = tokens(rows, style)
    load(ctx, write(ctx, text(toks)))
    r = ctx.bridge("chroma").call("seq", 0)
    need(r[0] == 4, "status %s", r[0])
    return r[2:], reference(toks)


# frames whose magnitudes round to the same or to neighbouring numbers, around zero too; and large ones
near = st.one_of(st.sampled_from([-0.5, 0.5, 0.25, -1.0, -0.999, 0.0, 1.5]), st.sampled_from([2.0, 2.5, 1.999, 3.0, -0.25]), wide)


@CHECK.clause("around", st.fixed_dictionaries({
    "base": st.lists(st.integers(-2, 5), min_size=12, max_size=12),
    "frac": st.lists(st.tuples(st.integers(0, 11), st.sampled_from([-0.75, -0.5, -0.25, 0.25, 0.5, 0.75, 0.999])).map(list),
                     min_size=1, max_size=10)}), quick=900, workers=2)
def around(case, ctx):
    """Frames that differ from each other in one magnitude by less than one."""
    rows = [(0.0, [float(x) for x in case["base"]])]
    for i, (pc, d) in enumerate(case["frac"]):
        v = list(rows[-1][1] if i % 2 else rows[0][1])
        v[pc] += d
        rows.append((i + 1.0, v))
    s, m = seq(ctx, rows, 1)
    need(s == notes(m), "notes %s, expected %s", s, notes(m))
    return len(s) > 1


@CHECK.clause("rule", st.fixed_dictionaries({"rows": st.one_of(frames(12), frames(6, near)), "style": st.integers(0, 35)}),
              quick=3000, workers=3)
def rule(case, ctx):
    s, m = seq(ctx, resolve(case["rows"]), case["style"])
    need(s == notes(m), "notes %s, expected %s", s, notes(m))
    return len(s) > 1


@CHECK.clause("close", st.fixed_dictionaries({
    "v": st.lists(st.one_of(st.integers(0, 3), st.dictionaries(st.integers(0, 11), mag, max_size=4).map(lambda d: [d.get(i, 0.0) for i in range(12)])),
                  min_size=2, max_size=12),
    "t0": st.sampled_from([0.0, 0.0, 0.5, 1.0, 2.0, -1.0]), "dt": st.sampled_from([1e-6, 3e-6, 2e-5, 5e-5, 1e-4, 0.0009, 0.01, 70.0, 600.0, 3600.0, 40000.0])}),
    quick=500, workers=2)
def close(case, ctx):
    """Frames microseconds or hours apart give the notes they give a second apart."""
    rows = []
    for i, v in enumerate(case["v"]):  # (a number stands for the frame that many places before)
        rows.append([float(i), rows[max(0, i - 1 - v)][1] if isinstance(v, int) and rows else [2.5] * 12 if isinstance(v, int) else v])
    s, m = seq(ctx, rows, 1)
    need(s == notes(m), "notes %s, expected %s", s, notes(m))
    times = [case["t0"] + i * case["dt"] for i in range(len(rows))]
    if len({f32(t) for t in times}) < len(times):
        raise Discard
    s2, m2 = seq(ctx, [(t, v) for t, (_, v) in zip(times, rows)], 12 + 1)
    need(len(m2) == len(m), "the frames of the check are not distinct")
    need(s2 == s, "frames %s s apart give notes %s, a second apart %s", case["dt"], s2, s)
    return len(s) > 1


@CHECK.clause("hold", st.fixed_dictionaries({
    "rows": frames(6), "reps": st.lists(st.integers(1, 4), min_size=6, max_size=6),
    "frac": st.floats(0, 0.984375, width=32)}), quick=1000, workers=2)
def hold(case, ctx):
    """Holding each frame for longer, with other fractions, does not change the notes; nor does
    the scale of time."""
    base = sorted({f32(t): (t, v) for t, v in resolve(case["rows"])}.values())
    s, _ = seq(ctx, [(float(i), v) for i, (t, v) in enumerate(base)])
    held = []
    for i, (t, v) in enumerate(base):
        for k in range(case["reps"][i % 6]):
            w = v if k == 0 else [math.floor(x) + f32(case["frac"]) * (1 if x < 1000 else 0) for x in v]
            w = [x if math.floor(f32(x)) == math.floor(f32(y)) else y for x, y in zip(w, v)]
            held.append((len(held) * 0.25, w))
    s2, _ = seq(ctx, held)
    need(s == s2, "held frames give %s instead of %s", s2, s)
    return len(s) > 1 and len(held) > len(base)


@CHECK.clause("silence", st.lists(st.lists(st.floats(-50, 1.96875, width=32), min_size=12, max_size=12),
                                  max_size=6), quick=400)
def silence(case, ctx):
    """Magnitudes below 2, negative ones included, sound no note."""
    s, _ = seq(ctx, [(i / 10.0, v) for i, v in enumerate(case)])
    need(s == [], "silent frames sound %s", s)
    return len(case) > 1


@CHECK.clause("repeatable", frames(8), quick=300)
def repeatable(case, ctx):
    toks = tokens(resolve(case), 1)
    load(ctx, write(ctx, text(toks)))
    a = show(ctx)
    b = show(ctx)
    need(a == b, "asking again gives another answer")
    return len(a["seq"]) > 1


@CHECK.clause("long", st.fixed_dictionaries({"seed": st.integers(0, 10 ** 6), "n": st.integers(50, 900),
                                             "top": st.integers(2, 7)}), quick=60, workers=2)
def long(case, ctx):
    import random
    r = random.Random(case["seed"])
    rows = []
    for i in range(case["n"]):
        v = rows[-1][1] if rows and r.random() < .5 else \
            [round(r.random() * case["top"], 3) if r.random() < .4 else 0.0 for _ in range(12)]
        rows.append((i * 0.046, v))
    s, m = seq(ctx, rows)
    need(s == notes(m), "the notes of a %d-frame chromagram differ from the rule's", case["n"])
    return len(s) > 1


@CHECK.clause("loud", st.lists(st.dictionaries(st.integers(0, 11), st.integers(0, 17).flatmap(lambda k: st.integers(2 ** k // 2, 2 ** k)), max_size=2).map(
    lambda d: sorted(map(list, d.items()))), min_size=1, max_size=2), quick=24, shrink=False)
def loud(case, ctx):
    """A magnitude sounds as many notes as it says, thousands too."""
    rows = [(float(i), [float(dict(map(tuple, f)).get(p, 0)) for p in range(12)]) for i, f in enumerate(case)]
    s, m = seq(ctx, rows, 1)
    w = notes(m)
    need(s == w, "%d notes (%s...), expected %d (%s...)", len(s), s[:5], len(w), w[:5])
    return "over 1000" if len(s) > 1000 else len(s) > 1
