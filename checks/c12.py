import numpy as np

from chrgen import *

CHECK = Check(
    "C12",
    "Chromagrams with timestamps up to 100000 s and magnitudes from denormals to 30, printed by the "
    "program and read back.  Non-trivial: at least two frames with a fractional timestamp or magnitude.",
    components=["chroma"])
anymag = st.one_of(mag, st.floats(0, 30, width=32), st.floats(0, 1, width=32),
                   st.sampled_from([1.99999988079071044921875, 2.9999997615814208984375, 1.401298464324817e-45,
                                    3.9999997615814208984375, 1e-30, 1e-41]))


def plain(ctx, slot, what):
    return ctx.bridge("chroma").call("plain", slot, what)[0]


def wide(rows):
    return [["%.9g" % f32(t)] + ["%.9g" % x for x in v] for t, v in rows]


@CHECK.clause("roundtrip", st.fixed_dictionaries({
    "rows": frames(8, value=anymag), "t0": st.sampled_from([0, 0, 100, 5000, 20000, 90000])}),
    quick=2500, workers=3)
def roundtrip(case, ctx):
    rows = [(t + case["t0"], v) for t, v in resolve(case["rows"])]
    toks = wide(rows)
    need(load(ctx, write(ctx, text(toks))) == 4, "not readable")
    a = show(ctx)
    m = reference(toks)
    want = [(t, v[A:] + v[:A]) for t, v in sorted(m.items())]
    need(rows_of(a["afirst"]) == want, "read %s, printed %s", want[:2], rows_of(a["afirst"])[:2])
    need(rows_of(a["cfirst"]) == sorted(m.items()), "read %s, printed from C %s", sorted(m.items())[:2], rows_of(a["cfirst"])[:2])
    p = plain(ctx, 0, 1)
    need(load(ctx, write(ctx, p, "again.csv"), slot=1) == 4, "the printed chromagram is not readable:\n%s", p)
    b = show(ctx, 1)
    for k in ("afirst", "cfirst", "discrete"):
        need(rows_of(a[k]) == rows_of(b[k]), "printed and read back, %s is %s instead of %s",
             k, rows_of(b[k])[:2], rows_of(a[k])[:2])
    need(a["seq"] == b["seq"], "printed and read back, the notes are %s instead of %s", b["seq"], a["seq"])
    need(plain(ctx, 1, 1) == p, "printing again gives another text")
    return len(m) > 1 and any(x != int(x) for t, v in m.items() for x in [t] + v)


@CHECK.clause("frames_kept", st.fixed_dictionaries({
    "t0": st.integers(0, 90000), "n": st.integers(2, 40), "seed": st.integers(0, 10 ** 6)}), quick=400, workers=2)
def frames_kept(case, ctx):
    """One line per frame, in time order, however far into the recording."""
    import random
    r = random.Random(case["seed"])
    rows = [(case["t0"] + i * 2048 / 44100.0, [round(r.random() * 5, 4) for _ in range(12)])
            for i in range(case["n"])]
    toks = wide(rows)
    m = reference(toks)
    load(ctx, write(ctx, text(toks)))
    for w in (0, 1, 2):
        got = rows_of(plain(ctx, 0, w))
        need([t for t, _ in got] == sorted(m), "print %d: timestamps %s, expected %s", w,
             [t for t, _ in got][:4], sorted(m)[:4])
    return case["t0"] >= 10000


@CHECK.clause("many", st.fixed_dictionaries({"n": st.integers(200, 5000), "seed": st.integers(0, 10 ** 6), "step": st.sampled_from([.001, .05, .1857596, 3])}),
              quick=8, workers=2)
def many(case, ctx):
    """A long chromagram comes back whole."""
    r = np.random.default_rng(case["seed"])
    rows = [(i * case["step"], (r.uniform(0, 4, 12) * (r.random(12) < .6)).tolist()) for i in range(case["n"])]
    toks = wide(rows)
    need(load(ctx, write(ctx, text(toks))) == 4, "not readable")
    m = reference(toks)
    p = plain(ctx, 0, 1)
    need(rows_of(p) == [(t, v[A:] + v[:A]) for t, v in sorted(m.items())], "%d frames are printed as others", len(m))
    need(load(ctx, write(ctx, p, "again.csv"), slot=1) == 4, "the printed chromagram is not readable")
    need(plain(ctx, 1, 1) == p, "printing again gives another text")
    need(show(ctx)["seq"] == show(ctx, 1)["seq"], "printed and read back, the notes differ")
    return True


@CHECK.clause("nothing_when_unread", st.sampled_from(["missing.csv", "no/such/dir/x.csv", ""]), quick=20)
def nothing_when_unread(case, ctx):
    need(load(ctx, os.path.join(ctx.tmp, case, "") if case == "" else os.path.join(ctx.tmp, case)) in (1, 4),
         "status of a missing file")
    s = show(ctx)
    need(not s["afirst"] and not s["cfirst"] and not s["discrete"] and not s["seq"],
         "a chromagram that was not read prints something")
    return True
