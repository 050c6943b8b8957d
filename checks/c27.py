import re
import shutil

from nnlsgen import *

CHECK = Check(
    "C27",
    "The built-in chord dictionary in both syntaxes at any 'no chord' boost, and generated chord.dict files "
    "(1-12 types, comments, blank lines, fractional weights) found on generated search paths.  Non-trivial: at "
    "least one chord with a bass note of its own, or a custom file.",
    components=["nnls"], times=6)
PLAIN = ["", "", "m", "m", "m7b5", "m7b5", "6", "7", "maj7", "m7", "m6", "", "", "dim", "aug", "", "", "7"]
HARTE = ["", "", ":min", ":min", ":hdim7", ":hdim7", ":maj6", ":7", ":maj7", ":min7", ":min6", "", "", ":dim", ":aug", "", "", ":7"]
TONES = {"": [0, 4, 7], "m": [0, 3, 7], "m7b5": [0, 3, 6, 10], "6": [0, 4, 7, 9], "7": [0, 4, 7, 10], "maj7": [0, 4, 7, 11],
         "m7": [0, 3, 7, 10], "m6": [0, 3, 7, 9], "dim": [0, 3, 6], "aug": [0, 4, 8]}
BASSOF = [0, None, 0, None, 10, 0, 0, 0, 0, 0, 0, 4, 7, 0, 0, 2, 10, 4]
DEGREE = {"2": 2, "b3": 3, "3": 4, "4": 5, "5": 7, "6": 9, "b7": 10, "7": 11}
LETTER = {"C": 3, "D": 5, "E": 7, "F": 8, "G": 10, "A": 0, "B": 2}


def pc(name):
    return (LETTER[name[0]] + name.count("#") - name[1:].count("b")) % 12


def load(ctx, boost=.1, harte=0, path="/nonexistent"):
    r = ctx.bridge("nnls").call("chorddict", float(boost), float(harte), path, fpath(ctx, "out.bin"))
    n = r[0]
    names = r[1:1 + n]
    need(r[1 + n] == n, "%d note lists for %d chords", r[1 + n], n)
    i, notes = 2 + n, []
    for _ in range(n):
        notes.append(r[i + 1:i + 1 + r[i]])
        i += 1 + r[i]
    v = take(ctx).astype(float)
    need(len(v) == 24 * n, "%d values for %d chords", len(v), n)
    return names, notes, v.reshape(n, 24)


def judge(names, notes, v, types, boost, harte):
    """types: (name, 12 bass values, 12 chord values), root first."""
    need(len(names) == 12 * len(types) + 1 and names[-1] == "N" and notes[-1] == [], "%d chords for %d types", len(names), len(types))
    k = 0
    for name, bass, tones in types:
        for root in range(12):
            label, nn, x = names[k], notes[k], v[k]
            k += 1
            head, _, slash = label.partition("/")
            own = [i for i in range(1, 12) if bass[i] > .99]
            need(head == NOTES_A[root] + name, "chord %d is labelled %r, expected %r", k - 1, head, NOTES_A[root] + name)
            if own and slash:
                at = DEGREE[slash] if harte else (pc(slash) - root) % 12
                need(at == own[-1], "%s: the bass is %d semitones above the root", label, own[-1])
            if own and own[-1] in (2, 4, 5, 7, 9, 10, 11):
                need(slash, "%s lacks its bass note", label)
            if not own:
                need(not slash, "%s names a bass note", label)
            want = np.zeros(24)
            for i in range(12):
                j = (i - root) % 12
                want[i] = 1 if bass[j] == 1 else (.5 if tones[j] == 1 else 0)
                want[12 + i] = tones[j]
            norm = np.sqrt((want ** 2).sum() / 24)
            need(np.abs(x - want / norm).max() <= 1e-5, "%s: %s, expected %s", label, x, want / norm)
            pcs = {(m - 45) % 12 for m in nn}
            full = {(i + root) % 12 for i in range(12) if tones[i] > 0} | {(i + root) % 12 for i in range(12) if bass[i] == 1}
            need(pcs == full | (set() if slash else {root}), "%s has the notes %s", label, nn)
            need(all(45 <= m < 45 + 12 or 63 <= m < 75 for m in nn), "%s has the notes %s", label, nn)
            upper = [m for m in nn if m >= 63]
            need(len(upper) == sum(t > 0 for t in tones), "%s has the notes %s", label, nn)
    want = np.array([.5] * 12 + [1.0] * 12)
    want /= np.sqrt((want ** 2).sum() / 24) / (1 + boost)
    need(np.abs(v[-1] - want).max() <= 1e-4, "N: %s, expected %s", v[-1], want)


@CHECK.clause("builtin", st.fixed_dictionaries({"boost": st.floats(0, 1), "harte": st.integers(0, 1)}), quick=60)
def builtin(case, ctx):
    """Every chord in all twelve transpositions: its label says its root, type and bass, its profile has unit power on
    its own pitch classes, its notes are its pitch classes; 'no chord' is flat and boosted as asked."""
    names, notes, v = load(ctx, np.float32(case["boost"]), case["harte"])
    types = []
    for i, n in enumerate(HARTE if case["harte"] else PLAIN):
        bass = [0] * 12
        if BASSOF[i] is not None:
            bass[BASSOF[i]] = 1
        tones = [int(k in TONES[PLAIN[i]]) for k in range(12)]
        types.append((n, bass, tones))
    judge(names, notes, v, types, float(np.float32(case["boost"])), case["harte"])
    return True


weights = st.lists(st.sampled_from([0, 0, 0, 0, 1, 1, 1, .5, .25, .98, 1.5, 2, -1]), min_size=12, max_size=12).filter(any)


@CHECK.clause("custom", st.fixed_dictionaries({
    "types": st.lists(st.fixed_dictionaries({"name": st.sampled_from(["", "m", "7", "sus4", "x-y", ":min(9)", "aug", "h", "7#9", "m#5"]),
                                             "bass": st.sampled_from([None, 0, 2, 4, 5, 7, 9, 10, 11]), "tones": weights,
                                             "weak": st.lists(st.tuples(st.integers(0, 11), st.sampled_from([.5, .75, .9, -1, 2])).map(list), max_size=2)}),
                      min_size=1, max_size=40),
    "boost": st.floats(0, 1), "harte": st.integers(0, 1), "sep": st.sampled_from([",", ", ", ";"]), "noise": st.booleans(),
    "path": st.sampled_from(["{d}", "/nonexistent:{d}", "{d}:/nonexistent", "{d}/no:/x:{d}", "/1:/2:/3:{d}:/4", "/1:/2:/3:/4:{d}", "{d}:{e}", "HOME", "HOME.", "HOME.void"])}), quick=150)
def custom(case, ctx):
    """A chord.dict on the plugin path replaces the built-in types, in its own order and with its own weights."""
    d = os.path.join(ctx.tmp, "vamp")
    os.makedirs(d, exist_ok=True)
    lines, types = [], []
    for t in case["types"]:
        bass = [0] * 12
        if t["bass"] is not None:
            bass[t["bass"]] = 1
        for i, w in t["weak"]:  # a bass weight that makes no bass note
            bass[i] = bass[i] or w
        if case["noise"]:
            lines += ["# a comment = 1,2", ""]
        lines.append(t["name"] + "=" + case["sep"].join("%g" % x for x in bass + t["tones"]))
        types.append((t["name"], bass, t["tones"]))
    with open(os.path.join(d, "chord.dict"), "w") as f:
        f.write("\n".join(lines) + "\n")
    e = os.path.join(ctx.tmp, "other")
    os.makedirs(e, exist_ok=True)
    with open(os.path.join(e, "chord.dict"), "w") as f:
        f.write("wrong=" + ",".join("1" * 24) + "\n")
    path = case["path"]
    if path.startswith("HOME"):  # (the path of a host that sets none: vamp or .vamp in the home folder)
        h = os.path.join(ctx.tmp, path)
        for n in ("vamp", ".vamp"):
            os.makedirs(os.path.join(h, n), exist_ok=True)
        shutil.copy(os.path.join(d, "chord.dict"), os.path.join(h, ".vamp" if path == "HOME." else "vamp"))
        path = ("VOID=" if path == "HOME.void" else "HOME=") + h
    names, notes, v = load(ctx, np.float32(case["boost"]), case["harte"], path.format(d=d, e=e))
    judge(names, notes, v, types, float(np.float32(case["boost"])), case["harte"])
    return True


@CHECK.clause("transposed", st.fixed_dictionaries({"harte": st.integers(0, 1), "boost": st.floats(0, 1)}), quick=20)
def transposed(case, ctx):
    """Chords of one type are one another's transpositions, and no two chords share label and profile."""
    names, notes, v = load(ctx, np.float32(case["boost"]), case["harte"])
    for k in range(0, len(names) - 1, 12):
        for r in range(12):
            need(np.abs(np.roll(v[k][:12], r) - v[k + r][:12]).max() < 1e-6 and np.abs(np.roll(v[k][12:], r) - v[k + r][12:]).max() < 1e-6,
                 "%s is not %s transposed", names[k + r], names[k])
    need(len({(n, x.tobytes()) for n, x in zip(names, v)}) == len(names), "a chord appears twice")
    return True
