from audiogen import *

CHECK = Check(
    "C14",
    "Recordings of chords, noise, clicks and silence (up to 1.1 s at 44.1 kHz, nine sample rates, seven "
    "sample formats, 1-6 channels) and damaged files.  Non-trivial: the chromagram has a non-zero value, "
    "or the file is damaged.",
    components=["chroma!fast", "chroma"],
    assumptions=["Samples are multiples of 2^-15, which every tested format and every tested down-mix "
                 "represents exactly; chroma values are compared within 1e-4 relative."])


def same(a, b, what):
    need(a[0] == b[0], "%s: status %s and %s", what, a[0], b[0])
    need(len(a[1]) == len(b[1]), "%s: %d and %d frames", what, len(a[1]), len(b[1]))
    need(all(abs(x - y) <= 1e-5 * max(1, abs(x)) for x, y in zip(a[1], b[1])), "%s: timestamps differ", what)
    if len(a[1]):
        d = np.abs(a[2] - b[2])
        tol = 1e-4 * np.maximum(np.abs(a[2]).max(axis=1, keepdims=True), 1e-3)
        need((d <= tol).all(), "%s: chroma differs by up to %s", what, d.max())


@CHECK.clause("well_formed", piece(), quick=250, workers=3)
def well_formed(case, ctx):
    x, sr = render(case), case["sr"]
    s, t, v, seq = spectrum(ctx, encode(x.reshape(-1, 1), sr))
    need(s == 4, "status %s for a readable recording", s)
    need(len(t) > 0, "no frames")
    need(np.isfinite(v).all() and (v >= 0).all(), "chroma values are not finite and non-negative: %s", v.min())
    for i, y in enumerate(t):
        need(abs(y - i * HOP / sr) <= 1e-6 + 1e-6 * y, "frame %d is at %s s, not %s", i, y, i * HOP / sr)
    need(t[-1] + BLOCK / sr >= len(x) / sr - 1e-6, "the frames end before the recording does")
    need(t[-1] < (len(x) + 2 * BLOCK) / sr, "frames far beyond the recording")
    need(seq == notes({a: list(map(float, b)) for a, b in zip(t, v)}), "the notes do not follow from the frames")
    return bool((v > 0).any())


@CHECK.clause("channels", st.fixed_dictionaries({
    "piece": piece(2), "ch": st.sampled_from([2, 2, 4]), "how": st.sampled_from(["same", "mean"])}),
    quick=120, workers=2)
def channels(case, ctx):
    """A recording with several channels is heard as their mean."""
    x, ch = render(case["piece"]), case["ch"]
    sr = case["piece"]["sr"]
    if case["how"] == "same":
        y = np.repeat(x.reshape(-1, 1), ch, axis=1)
        mono = x
    else:
        r = np.random.default_rng(case["piece"]["seed"] + 1)
        x = x // 2
        d = r.integers(-8000, 8000, (len(x), ch // 2))
        y = np.concatenate([x.reshape(-1, 1) + d, x.reshape(-1, 1) - d], axis=1)
        mono = x
    a = spectrum(ctx, encode(mono.reshape(-1, 1), sr))
    b = spectrum(ctx, encode(y, sr))
    same(a, b, "%d channels" % ch)
    return bool(len(a[1]) and (a[2] > 0).any())


@CHECK.clause("silent_channels", st.fixed_dictionaries({"piece": piece(2), "ch": st.integers(2, 6),
                                                       "at": st.integers(0, 5)}), quick=80, workers=2)
def silent_channels(case, ctx):
    """Every channel counts, and counts the same."""
    x, ch, sr = render(case["piece"]), case["ch"], case["piece"]["sr"]
    res = []
    for at in (0, case["at"] % ch):
        y = np.zeros((len(x), ch), np.int64)
        y[:, at] = x
        res.append(spectrum(ctx, encode(y, sr)))
    same(res[0], res[1], "sound in channel 0 or %d of %d" % (case["at"] % ch, ch))
    return bool(len(res[0][1]) and (res[0][2] > 0).any() and case["at"] % ch)


@CHECK.clause("formats", st.fixed_dictionaries({"piece": piece(2), "kind": st.sampled_from(KINDS[1:]),
                                               "ch": st.integers(1, 2)}), quick=120, workers=2)
def formats(case, ctx):
    x, sr, k = render(case["piece"]), case["piece"]["sr"], case["kind"]
    y = np.repeat(x.reshape(-1, 1), case["ch"], axis=1)
    a = spectrum(ctx, encode(y, sr))
    b = spectrum(ctx, encode(y, sr, k), "a" + EXT.get(k, ".wav"))
    same(a, b, "pcm16 and " + k)
    need(a[3] == b[3], "pcm16 and %s give other notes", k)
    return bool(len(a[1]) and (a[2] > 0).any())


@CHECK.clause("silence", st.fixed_dictionaries({"n": st.integers(0, 3 * BLOCK), "ch": st.integers(1, 3),
                                               "sr": st.sampled_from(RATES)}), quick=50)
def silence(case, ctx):
    s, t, v, seq = spectrum(ctx, encode(np.zeros((case["n"], case["ch"]), np.int64), case["sr"]))
    need(s == 4, "status %s for silence", s)
    need(not v.any() and seq == [], "silence sounds: %s", seq)
    return case["n"] > 0


@CHECK.clause("independent", st.fixed_dictionaries({"a": piece(2), "b": piece(2),
                                                   "fill": st.sampled_from([0, 1, -1, 0x40002, 0x7fffffff])}),
              quick=60, workers=2)
def independent(case, ctx):
    """What was analysed before, or happens to lie in memory, does not matter."""
    da = encode(render(case["a"]).reshape(-1, 1), case["a"]["sr"])
    db = encode(render(case["b"]).reshape(-1, 1), case["b"]["sr"])
    r1 = spectrum(ctx, da, "a.wav", 0)
    spectrum(ctx, db, "b.wav", 1, filler=case["fill"])
    r2 = spectrum(ctx, da, "a2.wav", 2, filler=case["fill"])
    again = show(ctx, 0, "chroma!fast")
    same(r1, r2, "the same recording twice")
    need(again["seq"] == r1[3], "an earlier chromagram changed")
    return bool(len(r1[1]) and (r1[2] > 0).any())


@CHECK.clause("gain", st.fixed_dictionaries({
    "notes": st.lists(st.integers(48, 72), min_size=1, max_size=3), "sr": st.sampled_from(RATES),
    "blocks": st.integers(1, 3), "nh": st.integers(2, 8), "seed": st.integers(0, 999),
    "halvings": st.integers(1, 4)}), quick=60, workers=2)
def gain(case, ctx):
    """Playing the recording softer (not silently) does not change what is heard."""
    x = q15(chord(case["notes"], case["sr"], case["blocks"] * BLOCK, 0, 0.6, case["nh"], case["seed"]))
    x = (x // 16) * 16
    a = spectrum(ctx, encode(x.reshape(-1, 1), case["sr"]))
    b = spectrum(ctx, encode((x // 2 ** case["halvings"]).reshape(-1, 1), case["sr"]))
    same(a, b, "gain 1/%d" % 2 ** case["halvings"])
    return True


@CHECK.clause("damaged", st.fixed_dictionaries({
    "piece": piece(1), "kind": st.sampled_from(KINDS), "cut": st.integers(0, 5000),
    "edits": st.lists(st.tuples(st.integers(0, 90), st.integers(0, 255)).map(list), max_size=5),
    "mode": st.sampled_from(["cut", "edit", "both", "noise"])}), quick=250, workers=3)
def damaged(case, ctx):
    """Truncated or corrupted files give an error status or a chromagram, never a crash or a hang."""
    x = render(case["piece"])[:6000]
    d = bytearray(encode(x.reshape(-1, 1), case["piece"]["sr"], case["kind"]))
    if case["mode"] == "noise":
        d = bytearray(np.random.default_rng(case["cut"]).integers(0, 256, case["cut"]).astype(np.uint8).tobytes())
    if case["mode"] in ("cut", "both"):
        d = d[:case["cut"] % (len(d) + 1)]
    if case["mode"] in ("edit", "both"):
        for p, v in case["edits"]:
            if p < len(d) and not 22 <= p < 34:  # (the rate and channel count are left alone)
                d[p] = v
    s, t, v, seq = spectrum(ctx, bytes(d), "d" + EXT.get(case["kind"], ".wav"), component="chroma",
                            filler=0x40002 if case["cut"] % 2 else 0)
    need(s in (1, 2, 4), "status %s", s)
    if s != 4:
        need(not len(t) and not seq, "an unreadable recording has a chromagram")
    if case["kind"] == "au":
        return True  # (libsndfile takes a headerless .au file as raw samples)
    if len(d) < 12 or case["mode"] == "noise" and bytes(d[:1]) not in b"RF.fOc":
        need(s == 1, "status %s for a file that is no recording", s)
    return True


@CHECK.clause("long", st.fixed_dictionaries({"piece": piece(2), "gap": st.integers(1, 90), "reps": st.integers(2, 4)}), quick=12, workers=4)
def long(case, ctx):
    """Sound after minutes of silence is heard as it was before, in its own frames."""
    x, sr = render(case["piece"]), case["piece"]["sr"]
    x = np.concatenate([x, np.zeros(-len(x) % BLOCK + BLOCK, np.int64)])
    y = np.concatenate([np.concatenate([x, np.zeros(case["gap"] * BLOCK, np.int64)]) for _ in range(case["reps"])])
    s, t, v, seq = spectrum(ctx, encode(y.reshape(-1, 1), sr))
    need(s == 4, "status %s", s)
    k = (len(x) // BLOCK + case["gap"]) * 8
    n = len(x) // HOP
    for i, q in enumerate(t):
        need(abs(q - i * HOP / sr) <= 1e-6 + 1e-6 * q, "frame %d is at %s s, not %s", i, q, i * HOP / sr)
    need(t[-1] + BLOCK / sr >= len(y) / sr - 1e-6, "the frames end before the recording does")
    need(seq == notes({a: list(map(float, b)) for a, b in zip(t, v)}), "the notes do not follow from the frames")
    # (the frames before the second occurrence begin to hear it half a block early, as the first's do)
    a, b = v[:n], v[(case["reps"] - 1) * k:][:n]
    need(len(b) == n and (np.abs(a - b) <= 1e-3 * np.maximum(np.abs(a).max(axis=1, keepdims=True), 1e-3)).all(),
         "heard again after %d frames it differs by %s", (case["reps"] - 1) * k, np.abs(a - b).max() if len(b) == n else "its length")
    return ("over 500 frames" if len(t) > 500 else True) if (v > 0).any() else False


@CHECK.clause("last_samples", st.fixed_dictionaries({
    "piece": piece(2), "blocks": st.integers(0, 3), "n": st.sampled_from([1, 1, 1, 2, 3, 2048, 8192, 16382, 16383])}), quick=40, workers=2)
def last_samples(case, ctx):
    """Wherever the recording ends, be it with one sample in a block of its own, the rest of the block is silence."""
    x, sr = render(case["piece"]), case["piece"]["sr"]
    x = np.concatenate([x, x, x])[:case["blocks"] * BLOCK + case["n"]]
    if len(x) % BLOCK != case["n"]:
        x = np.concatenate([x, np.full((case["n"] - len(x)) % BLOCK, 9, np.int64)])
    y = np.concatenate([x, np.zeros(-len(x) % BLOCK, np.int64)])
    a = spectrum(ctx, encode(x.reshape(-1, 1), sr))
    same(a, spectrum(ctx, encode(y.reshape(-1, 1), sr)), "%d samples, and with silence up to %d" % (len(x), len(y)))
    return bool((a[2] > 0).any())
