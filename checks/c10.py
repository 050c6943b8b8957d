from chrgen import *

CHECK = Check(
    "C10",
    "Chromagram CSV files: up to 8 frames in any file order, six styles of numbers and of times, LF/CRLF, blank lines, "
    "trailing comma, missing last newline, repeated timestamps.  Non-trivial: at least two frames, or "
    "one frame with at least two different magnitudes.",
    components=["chroma", "chroma!fast"],
    assumptions=["Numbers are compared as 32-bit floats, the precision the reader stores."])

layout = st.fixed_dictionaries({
    "eol": st.sampled_from(["\n", "\n", "\r\n"]), "last": st.booleans(), "trailing": st.booleans(),
    "blank": st.booleans(), "style": st.integers(0, 35)})


def nontrivial(m):
    return len(m) > 1 or any(len(set(v)) > 1 for v in m.values())


def compare(s, m):
    need(s["status"] == 4, "status %s for a readable CSV", s["status"])
    want = [(t, m[t]) for t in sorted(m)]
    got = rows_of(s["cfirst"])
    need([t for t, _ in got] == [t for t, _ in want], "timestamps %s, the file has %s",
         [t for t, _ in got], [t for t, _ in want])
    for (t, g), (_, w) in zip(got, want):
        need(g == w, "frame %s from C reads %s, the file says %s", t, g, w)
    for (t, g), (_, w) in zip(rows_of(s["afirst"]), want):
        need(g == w[9:] + w[:9], "frame %s from A reads %s, the file says %s", t, g, w[9:] + w[:9])
    need(len(rows_of(s["afirst"])) == len(want), "the A-first print has other frames")
    d = rows_of(s["discrete"])
    need([(t, v) for t, v in d] == [(t, [float(math.floor(x)) for x in v]) for t, v in want],
         "discrete frames %s of %s", d, want)


@CHECK.clause("reading", st.fixed_dictionaries({"rows": st.one_of(frames(), frames(value=wide)), "layout": layout}), quick=2500, workers=3)
def reading(case, ctx):
    l = case["layout"]
    toks = tokens(resolve(case["rows"]), l["style"])
    m = reference(toks)
    crlf = l["eol"] == "\r\n"  # (a lone CR is not claimed to be an empty line or token)
    p = write(ctx, text(toks, l["eol"], l["last"], l["trailing"] and not crlf, l["blank"] and not crlf))
    load(ctx, p)
    compare(show(ctx), m)
    return nontrivial(m)


@CHECK.clause("line_order", st.fixed_dictionaries({"rows": frames(), "seed": st.integers(0, 10 ** 6)}),
              quick=800, workers=2)
def line_order(case, ctx):
    """The order of the lines in the file does not matter (distinct timestamps)."""
    rows = {}
    for t, v in resolve(case["rows"]):
        rows[f32(float("%.3f" % t))] = (t, v)
    rows = list(rows.values())
    import random
    other = list(rows)
    random.Random(case["seed"]).shuffle(other)
    res = []
    for r in (rows, other):
        load(ctx, write(ctx, text(tokens(r, 1))))
        s = show(ctx)
        res.append(s)
    need(res[0] == res[1], "two orders of the same lines give %s and %s", res[0], res[1])
    return rows != other


@CHECK.clause("columns", st.fixed_dictionaries({"pc": st.integers(0, 11), "t": st.integers(0, 9999),
                                                "v": st.integers(2, 9)}), quick=150)
def columns(case, ctx):
    """Column i after the timestamp is the magnitude of the i-th pitch class from A."""
    v = [0.0] * 12
    v[case["pc"]] = float(case["v"])
    load(ctx, write(ctx, text(tokens([(case["t"] / 1000.0, v)], 0))))
    s = show(ctx)
    name = ["A", "A#", "B", "C", "C#", "D", "D#", "E", "F", "F#", "G", "G#"][case["pc"]]
    pc = ["C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"].index(name)
    need(s["seq"] == [pc] * (case["v"] - 1), "magnitude %s in %s's column sounds as %s", case["v"], name, s["seq"])
    return True


@CHECK.clause("copies", st.fixed_dictionaries({"rows": frames(), "other": frames(4)}), quick=300)
def copies(case, ctx):
    """Chromagrams are independent objects: reading another file does not change one already read,
    and a copy is equal to its original."""
    ta, tb = tokens(resolve(case["rows"]), 1), tokens(resolve(case["other"]), 1)
    load(ctx, write(ctx, text(ta), "a.csv"), slot=0)
    ctx.bridge("chroma").call("copy", 0, 2)
    load(ctx, write(ctx, text(tb), "b.csv"), slot=1)
    compare(show(ctx, 0), reference(ta))
    compare(show(ctx, 1), reference(tb))
    compare(show(ctx, 2), reference(ta))
    return nontrivial(reference(ta)) and bool(tb)


@CHECK.clause("many_rows", st.fixed_dictionaries({"n": st.one_of(st.integers(300, 9000), st.integers(300, 9000), st.sampled_from([34000, 17000])), "seed": st.integers(0, 10 ** 6), "dt": st.sampled_from([1, 46, 500])}),
              quick=16, workers=2)
def many_rows(case, ctx):
    """Chromagrams of thousands of frames, in any line order."""
    import numpy as np
    r = np.random.default_rng(case["seed"])
    rows = [(i * case["dt"] / 1000.0, v) for i, v in enumerate(np.round(r.random((case["n"], 12)) * 6, 3).tolist())]
    if case["seed"] % 2:
        rows = [rows[i] for i in r.permutation(case["n"])]
    toks = tokens(rows, case["seed"] % 4)
    c = "chroma!fast" if case["n"] > 9000 else "chroma"
    load(ctx, write(ctx, text(toks)), component=c, timeout=120)
    compare(show(ctx, component=c, timeout=120), reference(toks))
    return "over 5000" if case["n"] > 5000 else True


@CHECK.clause("long_numbers", st.fixed_dictionaries({
    "rows": frames(4), "digits": st.lists(st.integers(0, 400), min_size=13, max_size=13), "zeros": st.lists(st.integers(0, 120), min_size=13, max_size=13)}),
    quick=120)
def long_numbers(case, ctx):
    """A number may be written with hundreds of digits."""
    toks = [[(t[:1] * (t[:1] == "-") + "0" * z + t.lstrip("-")) + ("" if "." in t else ".") + "0" * d if "e" not in t else t[:1] * (t[:1] == "-") + "0" * z + t.lstrip("-")
             for t, z, d in zip(r, case["zeros"], case["digits"])] for r in tokens(resolve(case["rows"]), 5)]
    load(ctx, write(ctx, text(toks)))
    compare(show(ctx), reference(toks))
    return max([len(",".join(r)) for r in toks] + [0]) > 1024
