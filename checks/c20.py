from nnlsgen import *

CHECK = Check(
    "C20",
    "The frequency-to-pitch map at rates 8-96 kHz and block sizes 256-16384 (even ones that are no power of two "
    "included), and spectra of chords, noise, clicks, loud and near-silent frames fed to the plugin.  Non-trivial: a "
    "map with at least 100 non-zero entries; a frame above the silence threshold.",
    components=["nnls!fast", "nnls"],
    assumptions=["Only magnitudes matter to the plugin, so frames are generated as FFTs of Hann-windowed signals or as "
                 "arbitrary complex numbers."], times=2)
rates = st.sampled_from([8000, 11025, 16000, 22050, 32000, 44100, 48000, 96000]) | st.integers(4000, 100000)


@CHECK.clause("map", st.fixed_dictionaries({
    "fs": rates, "block": st.sampled_from([256, 500, 1024, 2048, 4096, 3000, 8192, 16384]), "pick": st.integers(0, 10 ** 6)}),
    quick=60, workers=4)
def map_(case, ctx):
    """Every entry follows from its definition; for large blocks in a sample of columns."""
    ctx.bridge("nnls!fast").call("logfreq", case["fs"], case["block"], fpath(ctx, "out.bin"), timeout=60)
    n = case["block"] // 2
    got = take(ctx).reshape(NNOTE, n).astype(float)
    need(np.isfinite(got).all() and (got >= 0).all(), "entries that are no non-negative numbers")
    r = np.random.default_rng(case["pick"])
    top = min(n, int(3600.0 * case["block"] / case["fs"]) + 3)
    cols = list(range(n)) if n <= 256 else sorted(set(r.integers(0, top, 150).tolist() + r.integers(0, n, 10).tolist()))
    k = kernel(case["fs"], case["block"], cols)
    scale = max(k.max(), 1e-9)
    for c in cols:
        e = np.abs(got[:, c] - k[:, c])
        e[255] *= .05  # the top edge is given to fewer digits
        need(e.max() <= 2e-3 * max(k[:, c].max(), scale * 1e-2), "rate %d, block %d: bin %d of pitch %d is %g, expected %g",
             case["fs"], case["block"], c, e.argmax(), got[e.argmax(), c], k[e.argmax(), c])
    return (k[:, cols] > 0).sum() >= 100


MAPS = {}
frame = st.fixed_dictionaries({
    "kind": st.sampled_from(["tones", "tones", "noise", "random", "quiet", "zero", "loud"]), "seed": st.integers(0, 10 ** 6),
    "amp": st.sampled_from([1.0, .5, .1, .01, .003])})


def make(f, rate, block):
    r = np.random.default_rng(f["seed"])
    if f["kind"] == "tones":
        x = tone_signal([(r.uniform(30, 95), f["amp"] * .3, int(r.integers(1, 6)), .6) for _ in range(r.integers(1, 4))],
                        rate, block, f["seed"])
        return stft(x, block, block)[0]
    if f["kind"] == "noise":
        return stft(f["amp"] * r.uniform(-1, 1, block), block, block)[0]
    z = r.normal(size=block // 2 + 1) + 1j * r.normal(size=block // 2 + 1)
    if f["kind"] == "random":
        return z * f["amp"] * 50
    if f["kind"] == "quiet":
        return z / np.abs(z).max() * 1.98
    if f["kind"] == "loud":
        return z * block * f["amp"]
    return z * 0


@CHECK.clause("frames", st.fixed_dictionaries({
    "rate": st.sampled_from([8000, 11025, 22050, 44100]), "block": st.sampled_from([1024, 2048, 4096]),
    "frames": st.lists(frame, min_size=1, max_size=5), "t0": st.integers(0, 999).map(lambda a: a / 8), "query": st.booleans(),
    "rollon": st.sampled_from([0, 0, .5, 1, 2.5, 5])}), quick=200, workers=4)
def frames(case, ctx):
    """Each frame gives one feature at its own time: the map applied to the magnitudes, a frame that never reaches
    magnitude 2 being silent, a magnitude beyond full scale counting as full scale, and the bass noise
    threshold emptying what it says."""
    p = Plug(ctx, "chroma", case["rate"], case["block"], params=[("rollon", case["rollon"])])
    z = np.array([make(f, case["rate"], case["block"]) for f in case["frames"]])
    z = z.astype(np.complex64).astype(complex)
    sets = p.feed(z, case["t0"], .25)
    k = kernel(case["rate"], case["block"])
    m = magnitudes(z, case["block"], case["rollon"])
    if case["rollon"]:
        # thresholds that a rounding decides are left out
        lo, hi = magnitudes(z, case["block"], case["rollon"] * 1.0005), magnitudes(z, case["block"], case["rollon"] * .9995)
        if not (np.array_equal(lo, hi) and np.array_equal(lo, m)):
            raise Discard()
    want = m @ k.T
    live = 0
    for i, s in enumerate(sets):
        need(list(s) == [p.outs["logfreqspec"]] and len(s[p.outs["logfreqspec"]]) == 1, "frame %d gives %s", i, list(s))
        f = s[p.outs["logfreqspec"]][0]
        need(f.t is not None and abs(f.t - case["t0"] - .25 * i) < 1e-6, "frame %d is at %s", i, f.t)
        need(len(f.v) == NNOTE, "%d values", len(f.v))
        need(np.isfinite(f.v).all() and (f.v >= 0).all(), "values that are no non-negative numbers")
        e = np.abs(f.v - want[i]).max()
        need(e <= 3e-3 * max(want[i].max(), 1e-6), "frame %d (%s): off by %g, the largest value being %g", i,
             case["frames"][i]["kind"], e, want[i].max())
        live += want[i].max() > 0
    # the plugin applies its map to the last small value
    key = (case["rate"], case["block"])
    if key not in MAPS:
        ctx.bridge("nnls!fast").call("logfreq", *key, fpath(ctx, "out.bin"), timeout=60)
        MAPS[key] = take(ctx).reshape(NNOTE, case["block"] // 2).astype(float)
    exact = m @ MAPS[key].T
    for i, s in enumerate(sets):
        v = s[p.outs["logfreqspec"]][0].v
        e = np.abs(v - exact[i]) - (1e-4 * exact[i] + 2e-6 * exact[i].max() + 1e-9)
        need((e <= 0).all(), "frame %d (%s): bin %d is %g, its map gives %g", i, case["frames"][i]["kind"], e.argmax(), v[e.argmax()],
             exact[i][e.argmax()])
    return live > 0


@CHECK.clause("pitch", st.fixed_dictionaries({
    "midi": st.floats(46, 100), "rate": st.sampled_from([16000, 22050, 32000, 44100, 48000]), "amp": st.floats(.01, 1),
    "seed": st.integers(0, 1000)}), quick=100, workers=3)
def pitch(case, ctx):
    """A pure tone is strongest at its own pitch, a third of a semitone per bin from MIDI pitch 20."""
    if 440 * 2 ** ((case["midi"] - 69) / 12) > case["rate"] / 2.2:
        raise Discard()
    p = Plug(ctx, "chroma", case["rate"], 16384)
    x = tone_signal([(case["midi"], case["amp"], 1, 1)], case["rate"], 16384, case["seed"])
    v = p.feed(stft(x, 16384, 16384))[0][p.outs["logfreqspec"]][0].v
    width = 12 * np.log2(1 + case["rate"] / 16384 / (440 * 2 ** ((case["midi"] - 69) / 12)))
    at = 20 + int(np.argmax(v)) / 3
    need(abs(at - case["midi"]) <= 1 / 3 + width, "a tone at pitch %.2f is strongest at %.2f", case["midi"], at)
    return True
