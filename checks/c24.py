from nnlsgen import *

CHECK = Check(
    "C24",
    "Tones, chords and scales tuned up to 45 cents either way from A=440, alone and over noise, at several rates and "
    "levels, and arbitrary spectra.  Non-trivial: a tuning more than 3 cents off standard or an arbitrary spectrum "
    "that sounds.",
    components=["nnls!fast", "nnls"],
    assumptions=["The physical clause uses 16384-sample blocks and notes between MIDI 48 and 72, where the bins "
                 "resolve thirds of a semitone."], times=3)


def hz(v):
    return 440 * 2 ** (v / 12)


def run(ctx, z, rate, block, rollon=0, t0=0.0, dt=.25):
    a = Plug(ctx, "chroma", rate, block, slot=0, params=[("rollon", rollon)])
    log = np.array([s[a.outs["logfreqspec"]][0].v for s in a.feed(z, t0, dt)], float)
    p = Plug(ctx, "tuning", rate, block, slot=1, params=[("rollon", rollon)])
    sets = p.feed(z, t0, dt)
    local = [s[p.outs["localtuning"]] for s in sets]
    need(all(list(s) == [p.outs["localtuning"]] and len(l) == 1 for s, l in zip(sets, local)), "features of process")
    f = p.finish()
    need(len(f["tuning"]) == 1 and not f["localtuning"], "%d tunings, %d local ones at the end", len(f["tuning"]), len(f["localtuning"]))
    t = f["tuning"][0]
    v = float(t.v[0])
    need(t.t == 0 and len(t.v) == 1 and abs(t.dur - (t0 + dt * (len(z) - 1))) < 1e-6, "at %s for %s s", t.t, t.dur)
    need(t.label.endswith(" Hz") and abs(float(t.label[:-3]) - v) <= .0501, "%g Hz is labelled %r", v, t.label)
    for i, l in enumerate(local):
        need(abs(l[0].t - t0 - dt * i) < 1e-6 and len(l[0].v) == 1, "local tuning %d is at %s", i, l[0].t)
        need(427.4 < l[0].v[0] < 452.9, "local tuning %g Hz", l[0].v[0])
    need(427.4 < v < 452.9, "tuning %g Hz", v)
    return log, v, [float(l[0].v[0]) for l in local]


@CHECK.clause("physical", st.fixed_dictionaries({
    "cents": st.integers(-45, 45), "notes": st.lists(st.integers(48, 72), min_size=1, max_size=6, unique=True),
    "nh": st.integers(1, 4), "amp": st.sampled_from([.02, .1, .3]), "rate": st.sampled_from([16000, 22050, 32000, 44100]),
    "n": st.integers(1, 4), "seed": st.integers(0, 999), "noise": st.sampled_from([0, 0, .001])}), quick=120, workers=4)
def physical(case, ctx):
    """Music tuned c cents off standard is found c cents off standard."""
    block = 16384
    if case["rate"] > 33000 and min(case["notes"]) < 60:
        raise Discard()
    x = tone_signal([(m + case["cents"] / 100, case["amp"] / len(case["notes"]), case["nh"], .5) for m in case["notes"]], case["rate"],
                    block + 4096 * (case["n"] - 1), case["seed"], case["noise"] * case["amp"])
    _, v, local = run(ctx, stft(x, block, 4096), case["rate"], block)
    for w in [v] + local:
        c = 1200 * np.log2(w / 440)
        d = (c - case["cents"] + 50) % 100 - 50
        need(abs(d) <= 15, "tuned %d cents off, found %.1f", case["cents"], c)
    return abs(case["cents"]) > 3


@CHECK.clause("formula", st.fixed_dictionaries({
    "n": st.integers(1, 12), "seed": st.integers(0, 10 ** 6), "rate": st.sampled_from([8000, 11025, 44100]),
    "block": st.sampled_from([1024, 2048]), "kind": st.sampled_from(["random", "tones", "mixed"]), "rollon": st.sampled_from([0, 0, 2]),
    "t0": st.sampled_from([0, 0, 1.5, 1234.56789]), "dt": st.sampled_from([.125, 2048 / 44100])}),
    quick=200, workers=3)
def formula(case, ctx):
    """The tuning is the direction of the mean spectrum's three interleaved totals; the local one that of their
    decaying totals."""
    r = np.random.default_rng(case["seed"])
    z = []
    for i in range(case["n"]):
        if case["kind"] == "random" or (case["kind"] == "mixed" and r.random() < .4):
            z.append((r.normal(size=case["block"] // 2 + 1) + 1j * r.normal(size=case["block"] // 2 + 1)) * 20 * (r.random() < .8))
        else:
            d = r.uniform(-.4, .4)
            x = .2 * tone_signal([(r.integers(50, 80) + d, 1, 3, .5)], case["rate"], case["block"], int(r.integers(999)))
            z.append(stft(x, case["block"], case["block"])[0])
    log, v, local = run(ctx, np.array(z), case["rate"], case["block"], case["rollon"], case["t0"], case["dt"])
    live = False
    for got, acc in [(v, tuning_sums(log).mean(axis=0))] + list(zip(local, running_tuning(log))):
        pos, mag = tuning_of(acc)
        if acc.sum() == 0:
            need(abs(got - 440) < 1e-3, "silence has tuning %g", got)
        elif mag > 3e-3 * acc.sum() and abs(pos) < .499:
            live = True
            need(abs(got - hz(pos)) < .02 + .02 * acc.sum() / mag * .1, "%.4f Hz, expected %.4f", got, hz(pos))
    return live


@CHECK.clause("level", st.fixed_dictionaries({
    "cents": st.integers(-40, 40), "notes": st.lists(st.integers(50, 75), min_size=1, max_size=4, unique=True),
    "k": st.sampled_from([.5, 2.0, .125]), "seed": st.integers(0, 999)}), quick=40, workers=2)
def level(case, ctx):
    """How loud the music is does not change its tuning, nor does the order of its frames its global tuning."""
    x = .2 / len(case["notes"]) * tone_signal([(m + case["cents"] / 100, 1, 3, .5) for m in case["notes"]], 22050, 8192 * 2, case["seed"])
    z = stft(x, 8192, 2048)
    log, v, local = run(ctx, z, 22050, 8192)
    pos, mag = tuning_of(tuning_sums(log).mean(axis=0))
    if abs(pos) > .49 or mag < .02 * tuning_sums(log).mean(axis=0).sum():
        raise Discard()
    _, v2, local2 = run(ctx, z * case["k"], 22050, 8192)
    _, v3, _ = run(ctx, z[::-1], 22050, 8192)
    need(abs(v - v2) < .02 and max(abs(a - b) for a, b in zip(local, local2)) < .02, "%g Hz becomes %g", v, v2)
    need(abs(v - v3) < .02, "%g Hz, reversed %g", v, v3)
    return abs(case["cents"]) > 3


@CHECK.clause("long", st.fixed_dictionaries({
    "parts": st.lists(st.tuples(st.integers(1, 220), st.integers(-45, 45), st.sampled_from([.01, .1, .3])), min_size=2, max_size=4),
    "midi": st.integers(55, 75), "seed": st.integers(0, 999), "back": st.booleans(), "t0": st.sampled_from([0, 0, 77.7777777])}), quick=24, workers=4)
def long(case, ctx):
    """However long the music, each frame counts the same in the global tuning."""
    rate, block = 11025, 1024
    parts = case["parts"][::-1] if case["back"] else case["parts"]
    z = []
    for n, cents, amp in parts:
        x = amp * tone_signal([(case["midi"] + cents / 100, 1, 3, .5)], rate, block + 256 * (n - 1), case["seed"])
        z.extend(stft(x, block, 256))
    log, v, local = run(ctx, np.array(z), rate, block, t0=case["t0"])
    pos, mag = tuning_of(tuning_sums(log).mean(axis=0))
    total = tuning_sums(log).mean(axis=0).sum()
    if total and mag > 3e-3 * total and abs(pos) < .499:
        need(abs(v - hz(pos)) < .03 + .002 * total / mag, "%.4f Hz over %d frames, expected %.4f", v, len(z), hz(pos))
    for i, acc in enumerate(running_tuning(log)):
        pos, mag = tuning_of(acc)
        if acc.sum() and mag > 3e-3 * acc.sum() and abs(pos) < .499:
            need(abs(local[i] - hz(pos)) < .03 + .002 * acc.sum() / mag, "frame %d: local tuning %.4f Hz, expected %.4f", i, local[i], hz(pos))
    return len(z) > 64
