from nnlsgen import *

CHECK = Check(
    "C22",
    "Recordings of 1-8 frames (chords, detuned tones, noise, silence between) under all parameters: note "
    "transcription on and off, whitening 0-1, spectral shape 0.5-0.9, global and local tuning, all four "
    "normalisations, bass threshold.  Each output is judged against the outputs it is derived from.  "
    "Non-trivial: at least one frame that sounds.",
    components=["nnls!fast", "nnls"],
    assumptions=["Single precision: 0.2% to 1% of the frame's largest value is allowed, and frames whose tuning sits on "
                 "the wrap-around are left out."], times=3)

part = st.fixed_dictionaries({
    "kind": st.sampled_from(["chord", "chord", "chord", "chord", "noise", "silence", "faint"]),
    "notes": st.lists(st.one_of(st.integers(33, 92), st.integers(21, 108)), min_size=1, max_size=4, unique=True), "cents": st.integers(-49, 49),
    "amp": st.sampled_from([1, .3, .05]), "nh": st.integers(1, 8), "n": st.integers(1, 3)})
params = st.fixed_dictionaries({
    "useNNLS": st.sampled_from([1, 1, 0]), "whitening": st.one_of(st.sampled_from([0, .3, .7, 1, 1]), st.floats(0, 1, width=32)),
    "s": st.one_of(st.sampled_from([.5, .6, .7, .7, .9]), st.floats(.5, .875, width=32)), "tuningmode": st.sampled_from([0, 0, 1]),
    "chromanormalize": st.integers(0, 3), "rollon": st.sampled_from([0, 0, 0, .5, 1, 2.5, 5])})
case_ = st.fixed_dictionaries({"parts": st.lists(part, min_size=1, max_size=3), "p": params,
                               "rate": st.sampled_from([11025, 16000, 22050, 44100]), "seed": st.integers(0, 10 ** 6),
                               "t0": st.one_of(st.just(1), st.floats(0, 3000))})


def frames_of(case, block=4096):
    out = []
    r = np.random.default_rng(case["seed"])
    for p in case["parts"]:
        n = block + 1024 * (p["n"] - 1)
        if p["kind"] == "chord":
            x = p["amp"] * .2 * tone_signal([(m + p["cents"] / 100, 1, p["nh"], .6) for m in p["notes"]], case["rate"], n, case["seed"])
        elif p["kind"] == "faint":  # a loud offset, hardly any sound
            x = .5 + (1e-5 if p["n"] < 3 else 1e-8) * p["amp"] * tone_signal([(m + p["cents"] / 100, 1, p["nh"], .6) for m in p["notes"]], case["rate"], n, case["seed"])
        elif p["kind"] == "noise":
            x = p["amp"] * r.uniform(-1, 1, n)
        else:
            x = np.zeros(n)
        out.append(stft(x, block, 1024))
    return np.concatenate(out)


def run(ctx, case, normalise=None, component="nnls!fast"):
    p = dict(case["p"])
    if normalise is not None:
        p["chromanormalize"] = normalise
    plug = Plug(ctx, "chroma", case["rate"], 4096, step=1024, params=sorted(p.items()), component=component)
    z = frames_of(case)
    t0 = case.get("t0", 1)
    sets = plug.feed(z, t0, .25)
    log = np.array([s[plug.outs["logfreqspec"]][0].v for s in sets], float)
    f = plug.finish()
    for name, width in (("tunedlogfreqspec", 256), ("semitonespectrum", 84), ("chroma", 12), ("basschroma", 12), ("bothchroma", 24)):
        need(len(f[name]) == len(z), "%d frames of %s for %d blocks", len(f[name]), name, len(z))
        for i, x in enumerate(f[name]):
            need(len(x.v) == width, "%s has %d values", name, len(x.v))
            need(x.t is not None and abs(x.t - t0 - .25 * i) < 3e-8, "%s frame %d is at %s", name, i, x.t)
            need(np.isfinite(x.v).all() and (x.v >= 0).all(), "%s frame %d: %s", name, i, x.v)
    return log, {k: mat(v) for k, v in f.items() if k != "logfreqspec"}


def close(a, b, tol, scale=None):
    return np.abs(a - b).max() <= tol * max(np.abs(b).max() if scale is None else scale, 1e-9)


@CHECK.clause("tuned", case_, quick=250, workers=3)
def tuned(case, ctx):
    """The tuned spectrum is the log-frequency spectrum moved by the recording's (or the frame's running) tuning and
    whitened by its half-octave surroundings."""
    log, f = run(ctx, case)
    sums = tuning_sums(log)
    w = float(np.float32(case["p"]["whitening"]))
    running = running_tuning(log)
    live = False
    pos, mag = tuning_of(sums.mean(axis=0))
    for i in range(len(log)):
        if case["p"]["tuningmode"]:
            pos, mag = tuning_of(running[i])
        ref = running[i] if case["p"]["tuningmode"] else sums.mean(axis=0)
        if ref.sum() > 0 and (abs(pos) > .499 or mag < 1e-3 * ref.sum()):
            raise Discard()
        # a shift on the edge of a whole bin comes out the same from either side
        want = whiten(tune(log[i], pos), w)
        raw = tune(log[i], pos)
        if raw.max() <= 0:
            need(not f["tunedlogfreqspec"][i].any(), "a silent frame has a tuned spectrum")
            continue
        live = True
        got = f["tunedlogfreqspec"][i]
        # bins whose surroundings hardly vary are decided by rounding once they are whitened
        mean = special_conv(raw, HAMMING)
        std = np.sqrt(special_conv((raw - mean) ** 2, HAMMING))
        ok = std > 2e-3 * raw.max()
        need(np.abs(got - want)[ok].max() <= .01 * max(want.max(), 1e-9), "frame %d, bin %d: %g, expected %g", i,
             np.flatnonzero(ok)[np.abs(got - want)[ok].argmax()], got[ok][np.abs(got - want)[ok].argmax()],
             want[ok][np.abs(got - want)[ok].argmax()])
    return live


@CHECK.clause("semitones", case_, quick=250, workers=3)
def semitones(case, ctx):
    """With transcription, each frame's notes are the best non-negative mixture of note profiles for its tuned spectrum,
    among the notes with anything at their own pitch; without, each note is its own three bins."""
    log, f = run(ctx, case)
    d = notedict(np.float32(case["p"]["s"]))
    live = False
    for b, x in zip(f["tunedlogfreqspec"], f["semitonespectrum"]):
        own = b[2:254].reshape(84, 3)
        if not (b > 0).any():
            need(not x.any(), "a silent frame has notes")
            continue
        live = True
        if case["p"]["useNNLS"] == 0:
            need(close(x, own @ [.5, 1, .5], 1e-4), "without transcription: %s, expected %s", x, own @ [.5, 1, .5])
            continue
        sig = own.sum(axis=1) > 0
        need(not x[~sig].any(), "a note sounds where there is nothing: %s", np.flatnonzero((x > 0) & ~sig))
        a = d[:, sig]
        y = x[sig]
        r = b - a @ y
        g = a.T @ r
        size = np.linalg.norm(a, axis=0).max() * (np.linalg.norm(b) + np.abs(a @ y).max())
        bad = np.where(y > 0, np.abs(g), np.maximum(g, 0)) / size
        need(len(bad) == 0 or bad.max() <= 2e-3, "note %d is %g and could be better by a slope of %g",
             np.flatnonzero(sig)[bad.argmax()], y[bad.argmax()], bad.max())
    return live


@CHECK.clause("fold", case_, quick=250, workers=3)
def fold(case, ctx):
    """Chroma and bass chroma are the notes folded to pitch classes from A under the treble and the bass window; the
    stacked output is bass then treble; normalisation divides by the largest, the sum or the length."""
    log, f = run(ctx, case)
    n = case["p"]["chromanormalize"]
    live = False
    for x, c, b, both in zip(f["semitonespectrum"], f["chroma"], f["basschroma"], f["bothchroma"]):
        tc, bc = (x * TREBLE).reshape(7, 12).sum(axis=0), (x * BASS).reshape(7, 12).sum(axis=0)
        st_ = np.concatenate([bc, tc])
        norm = [lambda v: 1.0, lambda v: v.max(), lambda v: v.sum(), lambda v: np.sqrt((v * v).sum())][n]
        for name, got, want in (("chroma", c, tc), ("bass chroma", b, bc), ("stacked chroma", both, st_)):
            z = norm(want)
            want = want / z if z > 0 else want
            need(np.abs(got - want).max() <= 2e-4 * max(1e-6, want.max()) + 3e-6 / (z if z > 1e-30 and n else 1) * (x.max() if n else x.max()),
                 "%s, normalisation %d: %s, expected %s", name, n, got, want)
            live |= want.max() > 0
    return live


@CHECK.clause("local_and_global", case_, quick=60, workers=2)
def independent(case, ctx):
    """Normalisation changes nothing before it, and with it every frame that sounds has norm one."""
    _, a = run(ctx, case, 0)
    n = 1 + case["seed"] % 3
    _, b = run(ctx, case, n)
    for k in ("tunedlogfreqspec", "semitonespectrum"):
        need(np.array_equal(a[k], b[k]), "normalisation changes %s", k)
    live = False
    for k in ("chroma", "basschroma", "bothchroma"):
        for u, v in zip(a[k], b[k]):
            if u.max() > 1e-6:
                live = True
                z = {1: v.max(), 2: v.sum(), 3: np.sqrt((v * v).sum())}[n]
                need(abs(z - 1) < 1e-4, "%s has norm %g", k, z)
                need(np.abs(v / v.max() - u / u.max()).max() < 1e-4, "%s changes its shape", k)
            elif u.max() == 0:
                need(v.max() == 0, "silence became %s", v)
    return live


@CHECK.clause("memory", case_, quick=24, workers=2)
def memory(case, ctx):
    """The whole chain under the sanitizers."""
    _, f = run(ctx, case, component="nnls")
    return f["chroma"].max() > 0


@CHECK.clause("long", st.fixed_dictionaries({
    "parts": st.lists(st.tuples(part, st.one_of(st.integers(20, 300), st.integers(150, 300))).map(lambda x: dict(x[0], n=x[1])), min_size=1, max_size=4),
    "p": st.tuples(params, st.integers(0, 2)).map(lambda x: dict(x[0], tuningmode=min(1, x[1]))),
    "rate": st.sampled_from([11025, 16000]), "seed": st.integers(0, 10 ** 6), "which": st.integers(0, 3)}), quick=40, workers=4)
def long(case, ctx):
    """All of it over hundreds of frames."""
    x = (tuned, semitones, fold, tuned)[case["which"]](case, ctx)
    return "over 300 frames" if x and sum(p["n"] for p in case["parts"]) > 300 else x
