from appgen import *

CHECK = Check(
    "C17",
    "The command-line program on generated note sequences (two scales with chromatic notes, up to 24 "
    "notes) given as CSV and as MIDI, with every named profile and transition, and on short recordings.  "
    "Non-trivial: the reference decoding is tie-free.",
    components=["app!fast", "core!fast"],
    assumptions=["Where the reference has an exact tie only the form of the answer is checked."], times=2)
conf = st.fixed_dictionaries({"M": st.sampled_from([None] + MAJ), "m": st.sampled_from([None] + MAJ),
                              "t": st.sampled_from([None] + KTS), "long": st.booleans()})


def options(c):
    o = []
    for k, long in (("M", "--majorprofile"), ("m", "--minorprofile"), ("t", "--keytransition")):
        if c[k]:
            o += [long, c[k]] if c["long"] else ["-" + k, c[k]]
    return o


@CHECK.clause("answer", st.fixed_dictionaries({"obs": notes(), "c": conf, "midi": st.booleans(),
                                              "upper": st.booleans()}), quick=900, workers=5)
def answer(case, ctx):
    obs, c = case["obs"], case["c"]
    if case["midi"]:
        p = write(ctx, notes_midi(obs), "x.MID" if case["upper"] else "x.mid")
    else:
        p = write(ctx, notes_csv(obs), "x.CSV" if case["upper"] else "x.csv")
    r = app(ctx, options(c) + [p])
    need(r.rc == 0, "%s", r.text())
    got = key_of(r.out)
    k, v2, margin = expect(obs, c["M"] or "sapp", c["m"] or "sapp", c["t"] or "exponential10")
    if k is None:
        return False
    need(got == k, "the answer is %s, the model says %s (%s)", DISPLAY[got], DISPLAY[k], M.KEY_NAMES[k])
    return True


@CHECK.clause("own_tables", st.fixed_dictionaries({
    "obs": notes(), "x": st.lists(st.integers(1, 99), min_size=24, max_size=24),
    "t": st.lists(st.integers(1, 99), min_size=24, max_size=24), "base": st.integers(0, 3), "stay": st.integers(1, 9),
    "mul": st.tuples(st.sampled_from([1, 1, 3, 40]), st.sampled_from([1, 1, 3, 40]), st.sampled_from([1, 1, 25])),
    "name": st.sampled_from(["x.csv", "a.b.csv", "x.mid.csv", "d.x/y.csv", ".x.csv", "x..csv", "a b.csv", "x.wav.csv"])}),
    quick=500, workers=5)
def own_tables(case, ctx):
    """Profiles and transitions given as numbers, the music under names with several dots and folders."""
    import c05
    obs = case["obs"]
    os.makedirs(os.path.join(ctx.tmp, "d.x"), exist_ok=True)
    write(ctx, notes_csv(obs), case["name"])
    x, t = [v / 100.0 for v in case["x"]], [v / 100.0 for v in case["t"]]
    if case["base"]:  # near a real profile, so that the local keys move
        x = [a + 0.3 * b * (case["base"] - 1) for a, b in zip(M.PROFILES_MAJOR["sapp"] + M.PROFILES_MINOR["sapp"], x)]
        t[0] += case["stay"]
    a, b, c = case["mul"]  # (weights need be no probabilities)
    x, t = [v * a for v in x[:12]] + [v * b for v in x[12:]], [v * c for v in t]
    T = c05.matrix(c05.parse(ctx.bridge("core!fast").call("transition", 4, "custom", t, 1))[2])
    r = app(ctx, ["-K", " ".join(map(repr, x)), "-T", " ".join(map(repr, t)), case["name"]])
    need(r.rc == 0, "%s", r.text())
    got = key_of(r.out)
    _, path, margin, v2 = M.detect(x[:12], x[12:], T, obs)
    s = sorted(v2)
    if not (margin > 1e-4 and s[-1] - s[-2] > 1e-4):
        return False
    need(got == int(np.argmax(v2)), "the answer is %s, the model says %s", DISPLAY[got], DISPLAY[int(np.argmax(v2))])
    return True


@CHECK.clause("same_music", st.fixed_dictionaries({"obs": notes(), "c": conf, "seed": st.integers(0, 9999)}),
              quick=250, workers=3)
def same_music(case, ctx):
    """The same notes as CSV and as MIDI, and the same request twice, get the same answer."""
    a = app(ctx, options(case["c"]) + [write(ctx, notes_csv(case["obs"]), "x.csv")])
    b = app(ctx, [write(ctx, notes_midi(case["obs"], case["seed"]), "x.mid")] + options(case["c"]))
    need((a.rc, a.out) == (b.rc, b.out), "CSV: %s; MIDI: %s", a.text(), b.text())
    return len(set(case["obs"])) > 2


@CHECK.clause("audio", st.fixed_dictionaries({
    "seed": st.integers(0, 10 ** 6), "tonic": st.integers(0, 11), "sr": st.sampled_from([16000, 22050, 44100])}),
    quick=24, workers=4)
def audio(case, ctx):
    """A recording is answered like its own chromagram: -c, then the CSV."""
    import audiogen as AG
    r = random.Random(case["seed"])
    x = np.concatenate([AG.chord([48 + case["tonic"] + d for d in r.choice([(0, 4, 7), (5, 9, 12), (7, 11, 14)])],
                                 case["sr"], 20000, 0, .5, 6, i) for i in range(r.randint(1, 3))])
    w = write(ctx, AG.encode(AG.q15(x).reshape(-1, 1), case["sr"]), "r.wav")
    direct = app(ctx, [w])
    chroma = app(ctx, ["-c", w])
    need(chroma.rc == 0 and len(chroma.out.splitlines()) > 1, "%s", chroma.text())
    c = write(ctx, chroma.out, "r.csv")
    via = app(ctx, [c])
    need((direct.rc, direct.out) == (via.rc, via.out), "recording: %s; its chromagram: %s", direct.text(), via.text())
    if direct.rc == 0:
        key_of(direct.out)
    return direct.rc == 0


@CHECK.clause("long", st.fixed_dictionaries({"n": st.integers(60, 4000), "keys": st.integers(1, 100), "c": conf, "midi": st.booleans(),
                                            "seed": st.integers(0, 10 ** 6)}), quick=60, workers=3)
def long(case, ctx):
    """Long pieces through many keys."""
    r, c = random.Random(case["seed"]), case["c"]
    obs = []
    for _ in range(case["keys"]):
        tonic, sc = r.randrange(12), r.choice(SCALES)
        obs += [(r.choice(sc) + tonic) % 12 if r.random() < .9 else r.randrange(12) for _ in range(1 + case["n"] // case["keys"])]
    p = write(ctx, notes_midi(obs, case["seed"]), "x.mid") if case["midi"] else write(ctx, notes_csv(obs), "x.csv")
    q = app(ctx, options(c) + [p])
    need(q.rc == 0, "%s", q.text())
    got = key_of(q.out)
    k, v2, margin = expect(obs, c["M"] or "sapp", c["m"] or "sapp", c["t"] or "exponential10")
    if k is None:
        return False
    need(got == k, "the answer to %d notes is %s, the model says %s (%s)", len(obs), DISPLAY[got], DISPLAY[k], M.KEY_NAMES[k])
    return "over 1000" if len(obs) > 1000 else True
