import re

import appgen
import c27
from audiogen import *
from nnlsgen import Plug, stft

CHECK = Check(
    "C28",
    "Recordings of chord progressions, noise, clicks and silence in every container, mono to six channels, run through "
    "the chord and chroma extractor programs; unreadable files and wrong argument counts.  Non-trivial: a chord other "
    "than 'no chord', or a chroma value above zero.",
    components=["chromaextract!fast", "chordextract!fast", "chromaextract", "chordextract", "chroma!fast", "nnls!fast", "app!fast"],
    assumptions=["Chord times are compared within one frame and chord lists exactly for sustained chords whose neighbours share at most one note."], times=2)
TIME = re.compile(r"^ ?(-?\d+\.\d{9})$")


def prog(ctx, name, args, sanitized=False):
    c = name if sanitized else name + "!fast"
    env = dict(os.environ)
    env.update(appgen.BR.ENV)
    try:
        p = subprocess.run([build.ensure_cached(c)] + args, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, env=env, timeout=120, cwd=ctx.tmp)
    except subprocess.TimeoutExpired:
        raise BridgeTimeout("%s %s: no answer within 120 s" % (name, args))
    r = appgen.Run(p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace"))
    if r.rc < 0 or r.rc in (99, 134) or "runtime error" in r.err or "AddressSanitizer" in r.err:
        raise Violation("%s %s crashed: %s" % (name, args, r.text()))
    return r


def chroma_table(text):
    t, v = [], []
    for line in text.splitlines():
        p = line.split(",")
        m = TIME.match(p[0])
        need(m and len(p) == 14 and p[13] == "", "the line %r is no time and twelve values", line)
        t.append(float(m.group(1)))
        v.append([float(x) for x in p[1:13]])
    return t, np.array(v).reshape(-1, 12)


def chord_list(text):
    out = []
    for line in text.splitlines():
        m = re.match(r"^ ?(-?\d+\.\d{9}): (\S+)$", line)
        need(m, "the line %r is no time and chord", line)
        out.append((float(m.group(1)), m.group(2)))
    return out


def spread(x, ch, seed=0):
    """Channels that all differ and whose mean is x, though no mean of some of them is."""
    y = np.repeat(x.reshape(-1, 1), ch, axis=1)
    if ch > 1:
        # one channel is off by ch - 1 times what the others are off by
        room = (32767 - np.abs(x.astype(np.int64))).clip(0)
        d = np.minimum(room // (ch - 1), 3000) * np.where((np.arange(len(x)) + seed) // (7 + seed % 20) % 2, 1, -1)
        at = seed % ch
        for c in range(ch):
            y[:, c] += (d * (ch - 1) if c == at else -d).astype(y.dtype)
    return y


@CHECK.clause("chroma", st.fixed_dictionaries({"piece": piece(3), "kind": st.sampled_from(KINDS), "ch": st.sampled_from([1, 2, 4]), "seed": st.integers(0, 999),
                                                 "edge": st.sampled_from([0, 0, 1, 2, 3, 3, 4])}),
              quick=120, workers=4)
def chroma(case, ctx):
    """One line per frame: the time and the twelve values the program's own front end finds, from A."""
    x, sr, k = render(case["piece"]), case["piece"]["sr"], case["kind"]
    if case["edge"] and len(x) > BLOCK:
        x = x[:len(x) // BLOCK * BLOCK + case["edge"] - 2]
    y = spread(x, case["ch"], case["seed"])
    s, t, v, seq = spectrum(ctx, encode(x.reshape(-1, 1), sr))
    r = prog(ctx, "chromaextract", [write(ctx, encode(y, sr, k), "b" + EXT.get(k, ".wav"))])
    need(r.rc == 0, "%s", r.text())
    t2, v2 = chroma_table(r.out)
    need(len(t) == len(t2), "%d frames, the front end has %d", len(t2), len(t))
    need(np.allclose(t, t2, rtol=1e-6, atol=1e-6), "times %s, the front end has %s", t2[:4], t[:4])
    want = np.roll(v, 3, axis=1)
    tol = 1e-4 * np.maximum(np.abs(want).max(axis=1, keepdims=True), 1e-3) if len(want) else 0
    need((np.abs(want - v2) <= tol).all(), "values differ from the front end's")
    return bool((v2 > 0).any())


@CHECK.clause("reading", st.fixed_dictionaries({"piece": piece(3)}), quick=60, workers=2)
def reading(case, ctx):
    """What the chroma extractor prints is a chromagram file."""
    x, sr = render(case["piece"]), case["piece"]["sr"]
    r = prog(ctx, "chromaextract", [write(ctx, encode(x.reshape(-1, 1), sr), "a.wav")])
    t, v = chroma_table(r.out)
    p = write(ctx, r.out, "c.csv")
    need(load(ctx, p, component="chroma!fast") == 4, "the printed chroma is not a chromagram file")
    rows = rows_of(show(ctx, 0, "chroma!fast")["cfirst"])
    need(len({np.float32(q) for q in t}) != len(t) or len(rows) == len(t), "%d lines, %d rows", len(t), len(rows))
    if len(rows) == len(t):
        got = np.array([q for _, q in rows])
        need(np.allclose([q for q, _ in rows], t, rtol=1e-6, atol=1e-9) and np.allclose(np.roll(got, 3, axis=1), v, rtol=1e-6, atol=1e-30),
             "the printed chroma reads as something else")
    return bool((v > 0).any())


QUAL = {"": [0, 4, 7], "m": [0, 3, 7]}
prog_ = st.fixed_dictionaries({
    "seq": st.lists(st.tuples(st.integers(0, 11), st.sampled_from(["", "m"])), min_size=1, max_size=4)
    | st.lists(st.tuples(st.integers(0, 11), st.sampled_from(["", "m"])), min_size=5, max_size=9),
    "cents": st.integers(-30, 30), "secs": st.sampled_from([1.6, 2.1]), "seed": st.integers(0, 999),
    "sr": st.sampled_from([22050, 44100, 48000]), "kind": st.sampled_from(KINDS), "ch": st.sampled_from([1, 2, 3]), "cut": st.integers(0, 3000)})


def alike(a, b):
    """Chords of two common notes: a short one may be taken for its neighbour, as the smoother weighs changes."""
    return len({(a[0] + k) % 12 for k in QUAL[a[1]]} & {(b[0] + k) % 12 for k in QUAL[b[1]]}) > 1


def progression(case):
    out, seq = [], []
    n = int(case["secs"] * case["sr"])
    for root, q in case["seq"]:
        if seq and alike(seq[-1], (root, q)):
            continue
        seq.append((root, q))
        m = [60 + (root + k) % 12 for k in QUAL[q]] + [48 + root]
        out.append(chord(m, case["sr"], n, case["cents"], .6, 4, case["seed"], .5))
    x = np.concatenate(out)
    return q15(x[:len(x) - case["cut"]]), seq


@CHECK.clause("late", st.fixed_dictionaries({
    "seq": st.lists(st.tuples(st.integers(0, 11), st.sampled_from(["", "m"])), min_size=2, max_size=4).filter(lambda s: not alike(s[0], s[-1])),
    "gap": st.integers(20, 320), "cents": st.integers(-30, 30), "secs": st.just(2.1), "seed": st.integers(0, 999), "sr": st.sampled_from([16000, 22050]),
    "cut": st.just(0)}), quick=6, workers=6)
def late(case, ctx):
    """Chords minutes later are listed as they were the first time."""
    x, seq = progression(case)
    if alike(seq[0], seq[-1]):
        raise Discard()
    sr, at = case["sr"], len(x) + case["gap"] * BLOCK
    y = np.concatenate([x, np.zeros(case["gap"] * BLOCK, x.dtype), x])
    got = chord_list(prog(ctx, "chordextract", [write(ctx, encode(y.reshape(-1, 1), sr), "a.wav")]).out)
    n = int(case["secs"] * sr)
    want = [((off + k * n) / sr, c27.NOTES_A[(root + 3) % 12] + q) for off in (0, at) for k, (root, q) in enumerate(seq)]
    heard = [g for g in got[:-1] if g[1] != "N"]
    need([w[1] for w in want] == [h[1] for h in heard], "plays %s, hears %s", want, got)
    tol = .5 * BLOCK / sr + .1
    for k, (w, h) in enumerate(zip(want, heard)):
        # (silence says nothing about the chord: the change may be anywhere in it)
        need((len(x) / sr if k == len(seq) else w[0]) - tol < h[0] < w[0] + tol, "%s starts at %s, heard at %s", w[1], w[0], h[0])
    need(abs(got[-1][0] - len(y) / sr) < (BLOCK + 2 * HOP) / sr, "the list ends at %s of %s s", got[-1][0], len(y) / sr)
    return "over 4 million samples" if len(y) > 4e6 else True


@CHECK.clause("song", st.fixed_dictionaries({
    "seq": st.lists(st.tuples(st.integers(0, 11), st.sampled_from(["", "m"])), min_size=10, max_size=40), "cents": st.integers(-30, 30),
    "secs": st.just(2.1), "seed": st.integers(0, 999), "sr": st.sampled_from([16000, 22050]), "kind": st.sampled_from(KINDS),
    "ch": st.sampled_from([1, 2]), "cut": st.integers(0, 3000)}), quick=8, workers=4)
def song(case, ctx):
    """A song of dozens of chords."""
    return chords(case, ctx)


@CHECK.clause("chords", prog_, quick=40, workers=6)
def chords(case, ctx):
    """Sustained triads come out as themselves at their own times, whatever the container and channels."""
    x, seq = progression(case)
    y = spread(x, case["ch"], case["seed"])
    r = prog(ctx, "chordextract", [write(ctx, encode(y, case["sr"], case["kind"]), "b" + EXT.get(case["kind"], ".wav"))])
    need(r.rc == 0, "%s", r.text())
    got = chord_list(r.out)
    need(got and got[0][1] == "N" and got[-1][1] == "N", "the list starts or ends otherwise than with N: %s", got)
    need(all(a[0] < b[0] for a, b in zip(got[:-1], got[1:-1])) and got[-2][0] <= got[-1][0], "times run backwards: %s", got)
    need(abs(got[-1][0] - len(x) / case["sr"]) < (BLOCK + 2 * HOP) / case["sr"] and abs(got[0][0]) < HOP / case["sr"],
         "the list spans %s to %s s of %s s", got[0][0], got[-1][0], len(x) / case["sr"])
    played = [(k * case["secs"], c27.NOTES_A[(root + 3) % 12] + q) for k, (root, q) in enumerate(seq)]
    heard = [g for g in got[:-1] if g[1] != "N"]
    need([w[1] for w in played] == [h[1] for h in heard], "plays %s, hears %s", played, got)
    for w, h in zip(played, heard):
        need(abs(w[0] - h[0]) < .5 * BLOCK / case["sr"] + .1, "%s starts at %s, heard at %s", w[1], w[0], h[0])
    return bool(played)


prog2_ = st.fixed_dictionaries({
    "parts": st.lists(st.fixed_dictionaries({"notes": st.lists(st.integers(36, 84), min_size=0, max_size=4), "n": st.integers(4000, 60000),
                                             "nh": st.integers(1, 5), "noise": st.sampled_from([0, 0, .02])}), min_size=1, max_size=4),
    "sr": st.sampled_from([11025, 22050, 44100, 48000, 88200]), "seed": st.integers(0, 999), "ch": st.sampled_from([1, 1, 2, 3, 4, 6]), "edge": st.sampled_from([0, 0, 1, 2, 3, 3, 4])})


@CHECK.clause("same_plugin", prog2_, quick=60, workers=3)
def same_plugin(case, ctx):
    """The chord program and a host that feeds the plugin the recording's spectra get the same chords."""
    sr, r = case["sr"], np.random.default_rng(case["seed"])
    x = q15(np.concatenate([.5 * chord(p["notes"], sr, p["n"], 0, .6, p["nh"], case["seed"], .5) + p["noise"] * r.uniform(-1, 1, p["n"])
                            for p in case["parts"]]))
    if case["edge"] and len(x) > BLOCK:
        x = x[:len(x) // BLOCK * BLOCK + case["edge"] - 2]
    r = prog(ctx, "chordextract", [write(ctx, encode(spread(x, case["ch"], case["seed"]), sr), "a.wav")])
    need(r.rc == 0, "%s", r.text())
    got = chord_list(r.out)
    blocks = (len(x) + BLOCK - 1) // BLOCK
    pad = np.zeros(BLOCK * (blocks + 3))
    pad[BLOCK // 2:BLOCK // 2 + len(x)] = x / 32768
    z = stft(pad, BLOCK, HOP)[:8 * (blocks - 1) + 2]  # what buffering passes on for whole blocks plus the flush

    def plugin(z):
        pl = Plug(ctx, "chordino", sr, BLOCK)
        pl.feed(z, 0.0, HOP / sr)
        return [(f.t, f.label) for f in pl.finish()["simplechord"]]

    def equal(a, b):
        return [l for _, l in a] == [l for _, l in b] and all(abs(p[0] - q[0]) < 1e-5 for p, q in zip(a, b))
    want = plugin(z)
    if not equal(got, want):
        g = np.random.default_rng(1)
        if any(not equal(want, plugin(z * (1 + 1e-5 * g.standard_normal(z.shape)))) for _ in range(4)):
            raise Discard()  # a tie that rounding decides
        raise Violation("the program reports %s, the plugin %s" % (got, want))
    return sum(l != "N" for _, l in got) > 0


@CHECK.clause("errors", st.fixed_dictionaries({
    "prog": st.sampled_from(["chordextract", "chromaextract"]),
    "how": st.sampled_from(["none", "two", "missing", "directory", "text", "empty", "cut", "header", "flip", "zero"]),
    "at": st.integers(0, 10 ** 6), "seed": st.integers(0, 10 ** 6)}), quick=100, workers=2)
def errors(case, ctx):
    """Wrong use gives the usage and 2, a file that is no audio 1, neither with a result; damage never a crash."""
    r = np.random.default_rng(case["seed"])
    x = r.integers(-9000, 9000, (r.integers(1, 4000), 1))
    data, h = encode(x, 16000), case["how"]
    p = write(ctx, data, "a.wav")
    if h in ("none", "two"):
        q = prog(ctx, case["prog"], [] if h == "none" else [p, p], True)
        need(q.rc == 2 and q.out == "" and "usage" in q.err, "%s", q.text())
        return True
    if h == "missing":
        p += "x"
    elif h == "directory":
        p = ctx.tmp
    elif h == "text":
        p = write(ctx, "once upon a time\n" * 10, "t.wav")
    elif h == "empty":
        p = write(ctx, b"", "t.wav")
    if h in ("missing", "directory", "text", "empty"):
        q = prog(ctx, case["prog"], [p], True)
        need(q.rc == 1 and q.out == "" and q.err, "%s for %s", q.text(), h)
        return True
    b = bytearray(data)
    if h == "cut":
        b = b[:case["at"] % len(b)]
    elif h == "zero":
        b = bytearray(encode(x[:0], 16000))
    else:
        for _ in range(3):
            b[int(r.integers(0, 44 if h == "header" else len(b)))] ^= 1 << int(r.integers(0, 8))
    q = prog(ctx, case["prog"], [write(ctx, bytes(b), "d.wav")], True)
    need(q.rc in (0, 1) and (q.rc == 0 or q.out == ""), "%s", q.text())
    if q.rc == 0:
        (chord_list if case["prog"] == "chordextract" else chroma_table)(q.out)
    return True


@CHECK.clause("long", st.fixed_dictionaries({"piece": piece(2), "gap": st.integers(1, 90), "reps": st.integers(2, 4)}), quick=8, workers=4)
def long(case, ctx):
    """Sound after minutes of silence is heard as it was before, in its own frames."""
    x, sr = render(case["piece"]), case["piece"]["sr"]
    x = np.concatenate([x, np.zeros(-len(x) % BLOCK + BLOCK, np.int64)])
    y = np.concatenate([np.concatenate([x, np.zeros(case["gap"] * BLOCK, np.int64)]) for _ in range(case["reps"])])
    r = prog(ctx, "chromaextract", [write(ctx, encode(y.reshape(-1, 1), sr), "a.wav")])
    need(r.rc == 0, "%s", r.text())
    t, v = chroma_table(r.out)
    k, n = (case["reps"] - 1) * (len(x) // BLOCK + case["gap"]) * 8, len(x) // HOP
    need(all(abs(q - i * HOP / sr) <= 1e-6 + 1e-6 * q for i, q in enumerate(t)), "times %s", t[-3:])
    a, b = v[:n], v[k:][:n]
    need(len(b) == n and (np.abs(a - b) <= 1e-3 * np.maximum(np.abs(a).max(axis=1, keepdims=True), 1e-3)).all(),
         "heard again after %d frames it differs", k)
    return ("over 500 frames" if len(t) > 500 else True) if (v > 0).any() else False
