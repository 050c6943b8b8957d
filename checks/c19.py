from appgen import *

CHECK = Check(
    "C19",
    "-e on files named with every key spelling, invalid labels, extra underscores and dots, music in every "
    "key; and -p on the same music.  Non-trivial: a label that names a key, or for -p a tie-free decoding.",
    components=["app!fast"])
LABELS = sorted(M.KEY_SPELLINGS)


def score(gt, got):
    if gt is None:
        return 0.0
    if got == gt:
        return 1.0
    if got == M.fifth(gt):
        return 0.5
    if got == M.relative(gt):
        return 0.3
    if got == M.parallel(gt):
        return 0.2
    return 0.0


def clear(k, reps):
    sc = SCALES[0] if k < 12 else SCALES[2]
    tri = [sc[0], sc[2], sc[4], sc[0]]
    return [(x + k) % 12 for x in (tri + sc + tri) * reps]


music = st.one_of(notes(16), st.tuples(st.integers(0, 23), st.integers(1, 3)).map(lambda a: clear(*a)))


@CHECK.clause("evaluate", st.fixed_dictionaries({
    "label": st.one_of(st.sampled_from(LABELS), st.sampled_from(LABELS), st.sampled_from(["H", "", "cm", "C##", "12", "Cmajor", "C.1", "a.b", "C.", ".C", "g.csv", "D.mid", "a-C", "x c", "C-1", "-D", "e ", "♯C", "Am", "C,", "(G)", "A\tb"])),
    "prefix": st.sampled_from(["x", "01", "a_b", "a.b", "wtc1_01", "_", "a.b_c", "x_C", "op.9_g", "k-G", "x C", "a-b_c-d"]), "music": music,
    "folder": st.sampled_from(["", "", "", "d/", "d_C/", "d.e/", "./", "d_Am.x/../d/", "caf\u00e9 1/", "/"]), "midi": st.booleans()}), quick=500, workers=4)
def evaluate(case, ctx):
    n = case["folder"] + case["prefix"] + "_" + case["label"] + (".mid" if case["midi"] else ".csv")
    for d in ("d", "d_C", "d.e", "d_Am.x", "caf\u00e9 1"):
        os.makedirs(os.path.join(ctx.tmp, d), exist_ok=True)
    if case["folder"] == "/":
        n = os.path.join(ctx.tmp, n[1:])
    write(ctx, notes_midi(case["music"]) if case["midi"] else notes_csv(case["music"]), n)
    plain = app(ctx, [n])
    got = key_of(plain.out)
    r = app(ctx, ["-e", n])
    gt = M.KEY_SPELLINGS.get(case["label"])
    need(r.rc == 0 and abs(float(r.out) - score(gt, got)) < 1e-6 and r.out.endswith("\n"), "%s heard in %s%s: %s", n, DISPLAY[got],
         "" if got < 12 else " minor", r.text())
    return gt is not None


@CHECK.clause("related", st.fixed_dictionaries({
    "key": st.integers(0, 23), "rel": st.sampled_from(["same", "fifth", "fourth", "relative", "parallel", "far"]),
    "n": st.integers(1, 11), "flat": st.booleans()}), quick=300, workers=4)
def related(case, ctx):
    """Music clearly in one key against a label at a chosen relation to it."""
    k = case["key"]
    write(ctx, notes_csv(clear(k, 3)), "q.csv")
    got = key_of(app(ctx, ["-M", "krumhansl_kessler", "-m", "krumhansl_kessler", "q.csv"]).out)
    gt = {"same": got, "fifth": M.fifth(got, -1), "fourth": M.fifth(got, 1), "relative": M.relative(got),
          "parallel": M.parallel(got), "far": M.transpose_key(got, case["n"])}[case["rel"]]
    lab = sorted(s for s, v in M.KEY_SPELLINGS.items() if v == gt)
    n = "p_" + (lab[-1] if case["flat"] else lab[0]) + ".csv"
    write(ctx, notes_csv(clear(k, 3)), n)
    r = app(ctx, ["-M", "krumhansl_kessler", "--evaluate", "-m", "krumhansl_kessler", n])
    need(r.rc == 0 and abs(float(r.out) - score(gt, got)) < 1e-6 and r.out.endswith("\n"), "%s heard in %s%s: %s", n, DISPLAY[got],
         "" if got < 12 else " minor", r.text())
    return True


@CHECK.clause("long", st.fixed_dictionaries({
    "n": st.integers(40, 1500), "seed": st.integers(0, 10 ** 6), "keys": st.integers(1, 5), "label": st.sampled_from(LABELS),
    "M": st.sampled_from(MAJ), "m": st.sampled_from(MAJ), "t": st.sampled_from(KTS)}), quick=40, workers=3)
def long(case, ctx):
    """Of long music too: the score of its key, and all 24 scores, however low."""
    r = np.random.default_rng(case["seed"])
    ks, part = r.integers(0, 24, case["keys"]), -(-case["n"] // case["keys"])
    obs = [int(x) for k in ks for x in r.choice(clear(int(k), 1), part)][:case["n"]]
    n = "l_" + case["label"] + ".mid"
    write(ctx, notes_midi(obs), n)
    o = ["-M", case["M"], "-m", case["m"], "-t", case["t"]]
    got = key_of(app(ctx, o + [n]).out)
    e = app(ctx, ["-e"] + o + [n])
    gt = M.KEY_SPELLINGS[case["label"]]
    need(e.rc == 0 and abs(float(e.out) - score(gt, got)) < 1e-6, "%s heard in %s: %s", n, DISPLAY[got], e.text())
    v = [float(x) for x in app(ctx, ["-p"] + o + [n]).out.split()]
    need(len(v) == 24 and v[got] >= max(v) - 1e-4 * abs(max(v)), "%s is reported, the scores are %s", DISPLAY[got], v)
    k, v2, margin = expect(obs, case["M"], case["m"], case["t"])
    if margin <= 1e-4:
        return False
    need(all(abs(a - b) <= 1e-3 + 1e-4 * abs(b) for a, b in zip(v, v2)), "scores %s, the model says %s", v, v2.tolist())
    return True


@CHECK.clause("no_label", st.sampled_from(["x.csv", "abc.csv", "C.csv", "x-C.csv", "x C.csv", "a.C.csv", "(C).csv"]), quick=5)
def no_label(case, ctx):
    write(ctx, notes_csv([0, 4, 7]), case)
    r = app(ctx, ["-e", case])
    need(r.rc == 0 and r.out == "", "%s", r.text())
    return True


@CHECK.clause("probabilities", st.fixed_dictionaries({
    "music": music, "M": st.sampled_from(MAJ), "m": st.sampled_from(MAJ), "t": st.sampled_from(KTS),
    "long": st.booleans()}), quick=400, workers=4)
def probabilities(case, ctx):
    """-p prints one score per key, C to B then c to b, the reported key's the highest."""
    write(ctx, notes_csv(case["music"]), "x.csv")
    o = ["-M", case["M"], "-m", case["m"], "-t", case["t"]]
    got = key_of(app(ctx, o + ["x.csv"]).out)
    r = app(ctx, o + ["--probabilities" if case["long"] else "-p", "x.csv"])
    v = [float(x) for x in r.out.split()]
    need(r.rc == 0 and len(v) == 24 and r.out.count("\n") == 1 and r.out[-1] == "\n", "%s", r.text())
    need(v[got] >= max(v) - 1e-4 * max(1, abs(max(v))), "%s is reported, its score %s, the best %s", DISPLAY[got], v[got], max(v))
    k, v2, margin = expect(case["music"], case["M"], case["m"], case["t"])
    if margin <= 1e-4:
        return False
    need(all(abs(a - b) <= 1e-3 + 1e-4 * abs(b) for a, b in zip(v, v2)), "scores %s, the model says %s", v, v2.tolist())
    return True
