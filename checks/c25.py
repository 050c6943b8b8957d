from nnlsgen import *
import c27

CHECK = Check(
    "C25",
    "Recordings of chord progressions (triads and sevenths over a bass, detuned, noisy, with silences) under every "
    "chord parameter.  Non-trivial: at least one chord other than 'no chord' is reported.",
    components=["nnls!fast", "nnls"],
    assumptions=["The physical clause plays chords of at least a second in the middle register, neighbours sharing at most one note."], times=3)

QUAL = {"": [0, 4, 7], "m": [0, 3, 7], "7": [0, 4, 7, 10], "dim": [0, 3, 6]}
part = st.fixed_dictionaries({
    "kind": st.sampled_from(["chord", "chord", "chord", "noise", "silence"]), "root": st.integers(0, 11),
    "q": st.sampled_from(sorted(QUAL)), "bass": st.booleans(), "n": st.integers(1, 6), "amp": st.sampled_from([1, .3, .05]),
    "off": st.sampled_from([0, 0, 0, 20, -35, 40])})
params = st.fixed_dictionaries({
    "useNNLS": st.sampled_from([1, 1, 0]), "whitening": st.one_of(st.sampled_from([1, 1, .5, .25, 0]), st.floats(0, 1, width=32)),
    "s": st.one_of(st.sampled_from([.6, .7, .8]), st.floats(.5, .875, width=32)),
    "tuningmode": st.sampled_from([0, 0, 1]), "rollon": st.sampled_from([0, 0, .5, 1])})
WEIGHTS = [0, 0, 0, 1, 1, .5, .25]
own_types = st.lists(st.fixed_dictionaries({
    "name": st.sampled_from(["", "m", "7", "sus4", "x-y", "(9)"]), "bass": st.sampled_from([None, None, 0, 4, 7, 10]),
    "tones": st.sampled_from([[0, 4, 7], [0, 3, 7], [0, 5, 7], [0, 7], [0, 3, 6], [0, 4, 7, 10], [0], [0, 2, 4, 7, 9]])
    .map(lambda s: [int(k in s) for k in range(12)]) | st.lists(st.sampled_from(WEIGHTS), min_size=12, max_size=12).filter(any)}),
    min_size=1, max_size=9)
case_ = st.fixed_dictionaries({
    "dict": st.none() | st.none() | own_types,
    "parts": st.lists(part, min_size=1, max_size=4), "p": params, "boostn": st.sampled_from([0, .1, .1, .5, 1]),
    "usehartesyntax": st.integers(0, 1), "rate": st.sampled_from([11025, 22050]), "cents": st.integers(-45, 45),
    "seed": st.integers(0, 10 ** 6), "time": st.one_of(st.just([2, .25]), st.tuples(st.floats(0, 3000), st.sampled_from([.25, 2048 / 44100, .185759637, .01, 3])).map(list))})


def spectra(case, block=4096, step=2048):
    out = []
    r = np.random.default_rng(case["seed"])
    for p in case["parts"]:
        n = block + step * (p["n"] - 1)
        if p["kind"] == "chord":
            m = [60 + (p["root"] + k) % 12 for k in QUAL[p["q"]]] + ([48 + p["root"]] if p["bass"] else [])
            x = p["amp"] * .15 * tone_signal([(k + (case["cents"] + p.get("off", 0)) / 100, 1, 4, .6) for k in m], case["rate"], n, case["seed"])
        elif p["kind"] == "noise":
            x = p["amp"] * r.uniform(-1, 1, n)
        else:
            x = np.zeros(n)
        out.append(stft(x, block, step))
    return np.concatenate(out)


def chords(ctx, case, z, slot=0, component="nnls!fast", block=4096, step=2048):
    q = dict(case["p"], boostn=case["boostn"], usehartesyntax=case["usehartesyntax"])
    ctx.bridge(component).call("vamppath", folder(ctx, case))
    p = Plug(ctx, "chordino", case["rate"], block, step=step, slot=slot, params=sorted(q.items()), component=component)
    need(not any(p.feed(z, *at_(case))[0].values()), "chords before the end")
    f = p.finish()
    ctx.bridge(component).call("vamppath", "/nonexistent")
    return f


def folder(ctx, case):
    """The plugin path: none, or one with the user's own chord.dict."""
    if not case.get("dict"):
        return "/nonexistent"
    d = os.path.join(ctx.tmp, "own")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "chord.dict"), "w") as f:
        for t in case["dict"]:
            bass = [int(i == t["bass"]) for i in range(12)]
            f.write("%s=%s\n" % (t["name"], ",".join("%g" % x for x in bass + t["tones"])))
    return d


def lists(ctx, case):
    names, notes, d = c27.load(ctx, np.float32(case["boostn"]), case["usehartesyntax"], folder(ctx, case))
    need(len(names) == 12 * (len(case["dict"]) if case.get("dict") else 18) + 1, "%d chords", len(names))
    return names, notes, d


def at_(case):
    return case.get("time", [2, .25])


def walk(f, n, case):
    """Frame numbers at which the labels start, from the features."""
    out = []
    for x in f["simplechord"][:-1]:
        t0, dt = at_(case)
        k = (x.t - t0) / dt
        need(x.t is not None and abs(k - round(k)) < 1e-4 and 0 <= round(k) < n, "a chord at %s", x.t)
        out.append((int(round(k)), x.label))
    return out


@CHECK.clause("form", case_, quick=150, workers=3)
def form(case, ctx):
    """Chords start with 'no chord' at the first frame, follow each other in time with different labels and end with
    'N' at the last frame; the notes of each chord sound from its start to the next chord's; one likelihood and one
    change value per frame."""
    z = spectra(case)
    f = chords(ctx, case, z)
    n = len(z)
    names, notes, _ = lists(ctx, case)
    t0, dt = at_(case)
    last = f["simplechord"][-1]
    need(last.label == "N" and abs(last.t - t0 - dt * (n - 1)) < 1e-6, "ends with %s at %s", last.label, last.t)
    seg = walk(f, n, case)
    need(seg[0] == (0, "N"), "starts with %s", seg[0])
    for a, b in zip(seg, seg[1:]):
        need(b[0] > a[0] and (a[1] != b[1] or True), "%s then %s", a, b)
    need(all(s[1] in names for s in seg), "labels %s", seg)
    ends = [s[0] for s in seg[1:]] + [n - 1]
    want = []
    for (at, label), end in zip(seg, ends):
        opts = [sorted(notes[i]) for i, x in enumerate(names) if x == label]
        got = sorted(int(x.v[0]) for x in f["chordnotes"] if abs(x.t - t0 - dt * at) < 1e-6)
        need(got in opts, "%s sounds %s", label, got)
        for x in f["chordnotes"]:
            if abs(x.t - t0 - dt * at) < 1e-6:
                need(x.dur is not None and abs(x.dur - dt * (end - at)) < 1e-6, "a note of %s at %s lasts %s s", label, x.t, x.dur)
        want += got
    need(len(f["chordnotes"]) == len(want), "%d notes, %d belong to chords", len(f["chordnotes"]), len(want))
    for name in ("harmonicchange", "loglikelihood"):
        need(len(f[name]) == n and all(abs(x.t - t0 - dt * i) < 1e-6 and len(x.v) == 1 and np.isfinite(x.v[0])
                                       for i, x in enumerate(f[name])), "%s: %d frames", name, len(f[name]))
    return len(seg) > 1


@CHECK.clause("smoothed", case_, quick=150, workers=3)
def smoothed(case, ctx):
    """The chords are the likeliest sequence for the frame-wise chord saliences of the chroma that the chroma plugin
    finds in the same spectra, starting from 'no chord', staying being 99% likely."""
    z = spectra(case)
    f = chords(ctx, case, z)
    names, notes, d = lists(ctx, case)
    p = Plug(ctx, "chroma", case["rate"], 4096, slot=1, params=sorted(case["p"].items()))
    p.feed(z, *at_(case))
    v = mat(p.finish()["bothchroma"]) @ d.T
    v[:, -1] *= .7
    over = v.max() > 200
    v = 1.3 ** np.clip(v, 0, 200)
    obs = v / v.sum(axis=1, keepdims=True)
    n, c = obs.shape
    stay, go = np.log(.99), np.log(.01 / (c - 1))
    lo = np.log(obs)
    dl = np.full(c, -np.inf)
    dl[-1] = lo[0, -1]
    like = []
    delta = [np.where(np.isfinite(dl), np.exp(dl), 0) / obs[0, -1]]
    prev = 0.0
    for i in range(n):
        if i:
            dl = np.maximum(dl + stay, dl.max() + go) + lo[i]
        tot = dl.max() + np.log(np.exp(dl - dl.max()).sum())
        like.append(tot - prev)
        prev = tot
        delta.append(np.exp(dl - tot))
    delta = delta[1:]
    for i, x in enumerate(f["loglikelihood"]):
        need(abs(x.v[0] - like[i]) <= 2e-3 * max(1, abs(like[i])), "frame %d: log-likelihood %g, expected %g", i, x.v[0], like[i])
    for i, x in enumerate(f["harmonicchange"]):
        want = 0.0
        if i < n - 1:
            den = np.maximum(delta[i + 1], 1e-7)
            want = (delta[i] * np.log(delta[i] / den + 1e-7)).sum()
        need(abs(x.v[0] - want) <= 5e-3 * max(1, abs(want)), "frame %d: change %g, expected %g", i, x.v[0], want)
    # the labels' own path: any chord with the label will do, so take the best over those
    seg = walk(f, n, case)
    lab = np.zeros((n, c), bool)
    for (at, label), end in zip(seg, [s[0] for s in seg[1:]] + [n]):
        for k, x in enumerate(names):
            if x == label:
                lab[at:end, k] = True
    s = np.full(c, -np.inf)
    s[-1] = lo[0, -1]
    s[~lab[0]] = -np.inf
    for i in range(1, n):
        s = np.maximum(s + stay, s.max() + go) + lo[i]
        s[~lab[i]] = -np.inf
    need(s.max() >= dl.max() - 2e-3 * max(1, abs(dl.max())), "the reported chords %s score %g, the best sequence %g", seg, s.max(), dl.max())
    return len(seg) > 1 and ("clipped" if over else True)


@CHECK.clause("physical", st.fixed_dictionaries({
    "seq": st.lists(st.tuples(st.integers(0, 11), st.sampled_from(["", "m"])), min_size=1, max_size=3), "cents": st.integers(-40, 40),
    "harte": st.booleans(), "amp": st.sampled_from([1, .3]), "seed": st.integers(0, 999), "rate": st.sampled_from([22050, 44100])}),
    quick=60, workers=4)
def physical(case, ctx):
    """Sustained triads over their root are labelled as themselves, near their own time."""
    block, step, n = 16384, 2048, 14
    z, seq = [], []
    for root, q in case["seq"]:
        if seq and len({(seq[-1][0] + k) % 12 for k in QUAL[seq[-1][1]]} & {(root + k) % 12 for k in QUAL[q]}) > 1:
            continue  # a short chord may be taken for a neighbour of two common notes
        seq.append((root, q))
        m = [60 + (root + k) % 12 for k in QUAL[q]] + [48 + root]
        x = case["amp"] * .15 * tone_signal([(k + case["cents"] / 100, 1, 4, .6) for k in m], case["rate"], block + step * (n - 1), case["seed"])
        z.append(stft(x, block, step))
    z = np.concatenate(z)
    c = {"p": {}, "boostn": .1, "usehartesyntax": int(case["harte"]), "rate": case["rate"]}
    f = chords(ctx, c, z, block=block, step=step)
    seg = walk(f, len(z), c)
    got = [s for s in seg if s[1] != "N"]
    want = [c27.NOTES_A[(r + 3) % 12] + (q if not case["harte"] else ":min" if q else "") for r, q in seq]
    need([g[1] for g in got] == want, "plays %s, hears %s", want, got)
    for k, (at, label) in enumerate(got):
        need(abs(at - k * n) <= 2, "%s starts at frame %d, heard at %d", label, k * n, at)
    return True


@CHECK.clause("memory", case_, quick=12, workers=2)
def memory(case, ctx):
    f = chords(ctx, case, spectra(case), component="nnls")
    return len(f["simplechord"]) > 2


@CHECK.clause("quick", st.fixed_dictionaries({
    "dict": own_types.map(lambda x: x[:3]) | st.none(), "parts": st.lists(part.map(lambda x: dict(x, n=1)), min_size=2, max_size=8), "p": params,
    "boostn": st.sampled_from([0, .1]), "white": st.sampled_from([.25, .4, .5, .6]), "usehartesyntax": st.integers(0, 1), "rate": st.just(11025),
    "cents": st.integers(-20, 20), "seed": st.integers(0, 10 ** 6), "which": st.integers(0, 1)}), quick=80, workers=2)
def quick(case, ctx):
    """Chords of a single frame, the last too."""
    c = dict(case, p=dict(case["p"], whitening=case["white"]))
    return (form, smoothed)[case["which"]](c, ctx)


@CHECK.clause("many_types", st.fixed_dictionaries({
    "dict": st.lists(own_types, min_size=6, max_size=30).map(lambda x: sum(x, [])), "parts": st.lists(part, min_size=1, max_size=3), "p": params,
    "boostn": st.sampled_from([0, .1]), "usehartesyntax": st.integers(0, 1), "rate": st.just(11025), "cents": st.integers(-20, 20),
    "seed": st.integers(0, 10 ** 6), "which": st.integers(0, 1)}), quick=16, workers=2)
def many_types(case, ctx):
    """With dozens of chord types of the user's own."""
    return (form, smoothed)[case["which"]](case, ctx)


@CHECK.clause("long", st.fixed_dictionaries({
    "dict": st.none(), "parts": st.lists(part, min_size=12, max_size=60) | st.lists(st.tuples(part, st.integers(10, 250)).map(lambda x: dict(x[0], n=x[1])), min_size=2, max_size=5),
    "p": st.tuples(params, st.integers(0, 2)).map(lambda x: dict(x[0], tuningmode=min(1, x[1]), whitening=.5 if x[1] == 2 else x[0]["whitening"])), "boostn": st.sampled_from([0, .1, .1]),
    "usehartesyntax": st.integers(0, 1), "rate": st.just(11025), "cents": st.integers(-45, 45),
    "seed": st.integers(0, 10 ** 6), "which": st.integers(0, 1)}), quick=40, workers=4)
def long(case, ctx):
    """Songs of dozens of chords."""
    x = (form, smoothed)[case["which"]](case, ctx)
    return "over 300 frames" if x and sum(p["n"] for p in case["parts"]) > 300 else x
