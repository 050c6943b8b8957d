from audiogen import *

CHECK = Check(
    "C15",
    "Synthesised notes and chords (MIDI 48-72, 4-8 harmonics, concert pitch +-30 cents, six sample "
    "rates, full scale down to -42 dB), and sequences of two chords.  Non-trivial: the recording has at least one full frame; for "
    "sequences, the two chords differ.",
    components=["chroma!fast"],
    assumptions=["The claim is limited to harmonic tones between C3 and C5; outside that range the "
                 "approximate transcription is not exact on isolated tones."], times=2)
chords = st.lists(st.integers(48, 72), min_size=1, max_size=3, unique_by=lambda m: m % 12)
NAMES = ["C", "C#", "D", "D#", "E", "F", "F#", "G", "G#", "A", "A#", "B"]


def top(v, k):
    return set(np.argsort(-v)[:k].tolist())


@CHECK.clause("pitch", st.fixed_dictionaries({
    "notes": chords, "sr": st.sampled_from(HIGH_RATES), "cents": st.integers(-30, 30),
    "decay": st.floats(0.3125, 0.75, width=32), "nh": st.integers(4, 8), "seed": st.integers(0, 10 ** 6),
    "extra": st.integers(0, 4), "level": st.integers(0, 7)}), quick=260, workers=4)
def pitch(case, ctx):
    """The strongest pitch classes of the chromagram are the ones that sound."""
    sr = case["sr"]
    n = 3 * BLOCK + case["extra"] * 1000
    # from full scale down to -42 dB
    x = chord(case["notes"], case["sr"], n, case["cents"], case["decay"], case["nh"], case["seed"], 2.0 ** -case["level"])
    s, t, v, _ = spectrum(ctx, encode_float(x.reshape(-1, 1), case["sr"]))
    need(s == 4, "status %s", s)
    full = [i for i, y in enumerate(t) if y * sr >= BLOCK // 2 - 1 and y * sr + BLOCK // 2 <= n + 1]
    tot = v[full].sum(axis=0)
    want = {m % 12 for m in case["notes"]}
    need(top(tot, len(want)) == want, "%s sounds, the chromagram (from C) is %s",
         [NAMES[m] for m in sorted(want)], np.round(tot, 2).tolist())
    return True


@CHECK.clause("when", st.fixed_dictionaries({
    "a": chords, "b": chords, "sr": st.sampled_from(HIGH_RATES), "cents": st.integers(-20, 20),
    "na": st.integers(2, 4), "nb": st.integers(2, 4), "level": st.integers(0, 6), "nh": st.integers(4, 8), "seed": st.integers(0, 10 ** 6)}),
    quick=130, workers=4)
def when(case, ctx):
    """A chord is heard in the frames centred (to half a window) in the time it sounds in."""
    na, nb, sr = case["na"] * BLOCK // 2 + BLOCK // 2, case["nb"] * BLOCK // 2 + BLOCK // 2, case["sr"]
    amp = 0.75 * 2.0 ** -case["level"]
    x = np.concatenate([chord(case["a"], sr, na, case["cents"], .5, case["nh"], case["seed"], amp),
                        chord(case["b"], sr, nb, case["cents"], .5, case["nh"], case["seed"] + 1, amp)])
    s, t, v, _ = spectrum(ctx, encode_float(x.reshape(-1, 1), sr))
    need(s == 4, "status %s", s)
    for lo, hi, c in ((0, na, case["a"]), (na, na + nb, case["b"])):
        full = [i for i, y in enumerate(t) if y * sr >= lo + BLOCK // 2 - 1 and y * sr + BLOCK // 2 <= hi + 1]
        need(full, "no frame covers samples %d to %d", lo, hi)
        tot = v[full].sum(axis=0)
        want = {m % 12 for m in c}
        need(top(tot, len(want)) == want, "%s sounds from %.2f to %.2f s, those frames (from C) are %s",
             [NAMES[m] for m in sorted(want)], lo / sr, hi / sr, np.round(tot, 2).tolist())
    return {m % 12 for m in case["a"]} != {m % 12 for m in case["b"]}
