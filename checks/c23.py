from nnlsgen import *

CHECK = Check(
    "C23",
    "The three plugins under every parameter combination: runs before a reset, two instances interleaved "
    "block by block, hosts that never query outputs, plugins given nothing, channel counts, parameter values.  "
    "Non-trivial: at least two frames that sound, or a parameter actually changed.",
    components=["nnls!fast", "nnls"],
    assumptions=["Per the Vamp SDK the host initialises a plugin once and sets no parameter afterwards."], times=4)
KINDS = ["chroma", "chordino", "tuning"]
DEFAULTS = {"useNNLS": (0, 1, 1), "rollon": (0, 5, 0), "tuningmode": (0, 1, 0), "whitening": (0, 1, 1), "s": (.5, .9, .7),
            "chromanormalize": (0, 3, 0), "boostn": (0, 1, .1), "usehartesyntax": (0, 1, 0)}
OF = {"chroma": ["useNNLS", "rollon", "tuningmode", "whitening", "s", "chromanormalize"], "tuning": ["rollon"],
      "chordino": ["useNNLS", "rollon", "tuningmode", "whitening", "s", "boostn", "usehartesyntax"]}

params = st.fixed_dictionaries({
    "useNNLS": st.sampled_from([1, 0]), "whitening": st.sampled_from([0, .5, 1]), "s": st.sampled_from([.5, .7, .9]),
    "tuningmode": st.sampled_from([0, 1]), "rollon": st.sampled_from([0, 1]), "chromanormalize": st.integers(0, 3),
    "boostn": st.sampled_from([0, .1, 1]), "usehartesyntax": st.sampled_from([0, 1])})
music = st.lists(st.fixed_dictionaries({"seed": st.integers(0, 10 ** 6), "kind": st.sampled_from(["chord", "chord", "noise", "zero"])}),
                 min_size=1, max_size=5)


def frames(m, block, rate):
    out = []
    for f in m:
        r = np.random.default_rng(f["seed"])
        if f["kind"] == "chord":
            root, d = r.integers(36, 72), r.uniform(-.4, .4)
            x = .2 * tone_signal([(root + d + k, 1, 4, .6) for k in ((0, 4, 7) if r.random() < .5 else (0, 3, 7))], rate, block, f["seed"])
        elif f["kind"] == "noise":
            x = .3 * r.uniform(-1, 1, block)
        else:
            x = np.zeros(block)
        out.append(stft(x, block, block)[0])
    return np.array(out)


def dump(sets):
    """Comparable form of a list of feature sets."""
    return [sorted((o, [(f.t, f.dur, f.label, f.v.tobytes()) for f in fs]) for o, fs in s.items()) for s in sets]


def usable(kind, p):
    return sorted((k, v) for k, v in p.items() if k in OF[kind])


def whole(ctx, kind, p, m, slot=0, rate=11025, block=2048, query=True, component="nnls!fast"):
    pl = Plug(ctx, kind, rate, block, slot=slot, params=usable(kind, p), query=query, component=component)
    a = pl.feed(frames(m, block, rate), .5, .25)
    if not query:
        pl.query()
    return dump(a + [pl.finish()])


@CHECK.clause("reset", st.fixed_dictionaries({
    "kind": st.sampled_from(KINDS), "p": params, "before": music, "finish": st.booleans(), "music": music, "times": st.integers(1, 2)}),
    quick=150, workers=3)
def reset(case, ctx):
    """After a reset a plugin answers like a new one, whatever it heard before."""
    k = case["kind"]
    want = whole(ctx, k, case["p"], case["music"], slot=0)
    pl = Plug(ctx, k, 11025, 2048, slot=1, params=usable(k, case["p"]))
    for _ in range(case["times"]):
        pl.feed(frames(case["before"], 2048, 11025), 90.0, .25)
        if case["finish"]:
            pl.finish()
        pl.reset()
    got = dump(pl.feed(frames(case["music"], 2048, 11025), .5, .25) + [pl.finish()])
    need(got == want, "%s answers otherwise after a reset", k)
    return len(case["music"]) > 1


@CHECK.clause("instances", st.fixed_dictionaries({
    "a": st.sampled_from(KINDS), "b": st.sampled_from(KINDS), "pa": params, "pb": params, "ma": music, "mb": music,
    "order": st.integers(0, 10 ** 6)}), quick=120, workers=3)
def instances(case, ctx):
    """Two plugins at work at once answer as each does alone."""
    alone = [whole(ctx, case["a"], case["pa"], case["ma"], 0, 11025, 2048),
             whole(ctx, case["b"], case["pb"], case["mb"], 0, 8000, 1024)]
    two = [Plug(ctx, case["a"], 11025, 2048, slot=1, params=usable(case["a"], case["pa"])),
           Plug(ctx, case["b"], 8000, 1024, slot=2, params=usable(case["b"], case["pb"]))]
    z = [frames(case["ma"], 2048, 11025), frames(case["mb"], 1024, 8000)]
    got, at = [[], []], [0, 0]
    r = np.random.default_rng(case["order"])
    while at[0] < len(z[0]) or at[1] < len(z[1]):
        i = int(r.integers(2))
        if at[i] >= len(z[i]):
            i = 1 - i
        got[i] += two[i].feed(z[i][at[i]:at[i] + 1], .5 + .25 * at[i], .25)
        at[i] += 1
    for i in ((0, 1) if case["order"] % 2 else (1, 0)):
        got[i].append(two[i].finish())
    for i in (0, 1):
        need(dump(got[i]) == alone[i], "%s answers otherwise beside %s", case["ab"[i]], case["ba"[i]])
    return len(case["ma"]) > 1 and len(case["mb"]) > 1


@CHECK.clause("long", st.fixed_dictionaries({
    "kind": st.sampled_from(KINDS), "p": params, "before": st.integers(0, 300), "n": st.integers(20, 300), "seed": st.integers(0, 10 ** 6)}),
    quick=16, workers=2)
def long(case, ctx):
    """After hundreds of frames too, a reset plugin answers like a new one, and beside another as alone."""
    def song(n, seed):
        r = np.random.default_rng(seed)
        bank = frames([{"seed": int(s), "kind": "chord" if s % 4 else ("zero" if s % 8 else "noise")} for s in r.integers(0, 9999, 9)], 2048, 11025)
        return bank[np.repeat(r.integers(0, 9, n // 3 + 1), 3)[:n]]
    k, p = case["kind"], usable(case["kind"], case["p"])
    m, x = song(case["n"], case["seed"]), song(case["before"], case["seed"] + 1)
    one = Plug(ctx, k, 11025, 2048, slot=0, params=p)
    want = dump(one.feed(m, .5, .25) + [one.finish()])
    two, other = Plug(ctx, k, 11025, 2048, slot=1, params=p), Plug(ctx, k, 11025, 2048, slot=2, params=p)
    if len(x):
        two.feed(x, 90.0, .25)
    two.reset()
    got = two.feed(m[:len(m) // 2], .5, .25)
    if len(x):
        other.feed(x, .5, .25)
    got += two.feed(m[len(m) // 2:], .5 + .25 * (len(m) // 2), .25)
    other.finish()
    need(dump(got + [two.finish()]) == want, "%s answers otherwise after a reset, beside another", k)
    return case["before"] > 0


@CHECK.clause("query", st.fixed_dictionaries({"kind": st.sampled_from(KINDS), "p": params, "music": music}), quick=30)
def query(case, ctx):
    """A host that never asks for the outputs gets the same features, in the order the outputs are listed."""
    a = whole(ctx, case["kind"], case["p"], case["music"])
    b = whole(ctx, case["kind"], case["p"], case["music"], query=False, component="nnls")
    strip = lambda d: [[(o, [(t, du, l, len(v)) for t, du, l, v in fs]) for o, fs in s] for s in d]
    need(strip(a[:-1]) == strip(b[:-1]) and len(a[-1]) == len(b[-1]), "features differ")
    for (o, x), (q, y) in zip(a[-1], b[-1]):
        need(o == q and len(x) == len(y) and [f[0] for f in x] == [f[0] for f in y], "output %s differs", o)
    return len(case["music"]) > 1


@CHECK.clause("nothing", st.fixed_dictionaries({"kind": st.sampled_from(KINDS), "p": params, "after": st.booleans(), "music": music}),
              quick=30)
def nothing(case, ctx):
    """A plugin that heard nothing reports nothing."""
    pl = Plug(ctx, case["kind"], 11025, 2048, params=usable(case["kind"], case["p"]), component="nnls")
    if case["after"]:
        pl.feed(frames(case["music"], 2048, 11025))
        pl.reset()
    need(not any(pl.finish().values()), "features out of nothing")
    return True


@CHECK.clause("silence", st.fixed_dictionaries({"kind": st.sampled_from(KINDS), "p": params, "n": st.integers(1, 4)}), quick=30)
def silence(case, ctx):
    """Silence gives no pitch class, no chord and the standard tuning."""
    pl = Plug(ctx, case["kind"], 11025, 2048, params=usable(case["kind"], case["p"]), component="nnls")
    pl.feed(np.zeros((case["n"], 1025)), 0, .25)
    f = pl.finish()
    if case["kind"] == "chroma":
        need(all(not x.v.any() for v in f.values() for x in v), "silence sounds")
    elif case["kind"] == "chordino":
        need([x.label for x in f["simplechord"]] == ["N", "N"] and not f["chordnotes"], "silence has chords %s",
             [x.label for x in f["simplechord"]])
    else:
        need(len(f["tuning"]) == 1 and abs(f["tuning"][0].v[0] - 440) < 1e-3, "silence has tuning %s", f["tuning"][0].v)
    return True


@CHECK.clause("parameters", st.fixed_dictionaries({
    "kind": st.sampled_from(KINDS), "set": st.dictionaries(st.sampled_from(sorted(DEFAULTS)), st.floats(0, 1), max_size=8),
    "unknown": st.booleans()}), quick=150)
def parameters(case, ctx):
    """The listed parameters start at their defaults and keep what they are set to; unknown ones are ignored."""
    b = ctx.bridge("nnls")
    b.call("new", 0, case["kind"], 44100.0)
    r = b.call("params", 0)
    got = {r[1 + 6 * i]: r[2 + 6 * i:7 + 6 * i] for i in range(r[0])}
    need(sorted(got) == sorted(OF[case["kind"]]), "parameters %s", sorted(got))
    for k, (lo, hi, de, q, now) in got.items():
        need(np.allclose([lo, hi, de], DEFAULTS[k]) and abs(now - de) < 1e-7, "%s: %s to %s, default %s, starts at %s", k, lo, hi, de, now)
    now = {k: v[4] for k, v in got.items()}
    for k, u in sorted(case["set"].items()):
        lo, hi, _ = DEFAULTS[k]
        v = float(np.float32(lo + u * (hi - lo)))
        if k in ("useNNLS", "tuningmode", "chromanormalize", "usehartesyntax"):
            v = float(round(v))
        b.call("set", 0, k, v)
        if k in now:
            now[k] = v
    if case["unknown"]:
        b.call("set", 0, "nothing", 1.0)
        need(b.call("get", 0, "nothing")[0] == 0, "an unknown parameter has a value")
    for k, v in now.items():
        need(b.call("get", 0, k)[0] == v, "%s was set to %s, is %s", k, v, b.call("get", 0, k)[0])
    return bool(case["set"])


@CHECK.clause("shape", st.fixed_dictionaries({
    "kind": st.sampled_from(KINDS), "rate": st.sampled_from([8000, 22050, 44100, 96000]),
    "step": st.sampled_from([512, 1024, 2048]), "ch": st.integers(0, 5)}), quick=40)
def shape(case, ctx):
    """One channel only; outputs described with their widths, names and rates."""
    b = ctx.bridge("nnls")
    pref = b.call("new", 0, case["kind"], float(case["rate"]))
    need(pref == [16384, 8192 if case["kind"] == "tuning" else 2048], "prefers %s", pref)
    need((b.call("init", 0, case["ch"], case["step"], 1024)[0] == 1) == (case["ch"] == 1), "initialise with %d channels", case["ch"])
    if case["ch"] != 1:
        return True
    r = b.call("outs", 0)
    i, seen = 1, {}
    for _ in range(r[0]):
        n = r[i + 2]
        seen[r[i]] = (r[i + 1], r[i + 3:i + 3 + n], r[i + 3 + n])
        i += 4 + n
    want = {"chroma": {"logfreqspec": 256, "tunedlogfreqspec": 256, "semitonespectrum": 84, "chroma": 12, "basschroma": 12, "bothchroma": 24},
            "chordino": {"simplechord": 0, "chordnotes": 1, "harmonicchange": 1, "loglikelihood": 1},
            "tuning": {"tuning": 1, "localtuning": 1}}[case["kind"]]
    need({k: v[0] for k, v in seen.items()} == want, "outputs %s", seen)
    for k, (w, names, rate) in seen.items():
        if k != "tuning":
            need(abs(rate - case["rate"] / case["step"]) < 1e-3 * rate, "%s has %g frames a second", k, rate)
        if k in ("chroma", "basschroma"):
            need(names == NOTES_A, "%s bins are named %s", k, names)
        if k == "bothchroma":
            need([x.split()[0] for x in names] == NOTES_A * 2 and [("bass" in x) for x in names] == [True] * 12 + [False] * 12,
                 "bins are named %s", names)
    return True
