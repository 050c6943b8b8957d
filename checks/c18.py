from appgen import *

CHECK = Check(
    "C18",
    "Command lines: custom profiles and transitions equal to named ones and arbitrary ones, wrong counts, "
    "-f for every format on every file name, file names without extension or with unknown ones, unknown "
    "options and values, arbitrary argument lists, unreadable and empty inputs.  Non-trivial: every case "
    "except a plain accepted command line.",
    components=["app!fast", "app", "core!fast"],
    assumptions=["The optparse submodule is absent; the program runs on a stand-in with its documented "
                 "behaviour (stubs/optparse)."])


def nums(v, sep=" "):
    return sep.join(repr(float(x)) for x in v)


@CHECK.clause("custom_named", st.fixed_dictionaries({
    "obs": notes(), "M": st.sampled_from(MAJ), "m": st.sampled_from(MAJ), "t": st.sampled_from(KTS),
    "sep": st.sampled_from([" ", "  ", "\t", "\n"]), "which": st.integers(1, 3),
    "beside": st.lists(st.tuples(st.sampled_from(["-M", "-m", "-t"]), st.integers(0, 9)).map(list), max_size=2)}),
    quick=300, workers=4)
def custom_named(case, ctx):
    """Giving a named table's own numbers gives the same scores as naming it, whatever is named beside them."""
    p = write(ctx, notes_csv(case["obs"]), "x.csv")
    named = ["-M", case["M"], "-m", case["m"], "-t", case["t"]]
    cust = list(named)
    if case["which"] & 1:
        cust = ["-K", nums(M.PROFILES_MAJOR[case["M"]] + M.PROFILES_MINOR[case["m"]], case["sep"])] + cust[4:]
    if case["which"] & 2:
        cust = [x for x in cust if x not in ("-t", case["t"])] + ["-T", nums(M.TRANSITIONS[case["t"]], case["sep"])]
    for o, i in case["beside"]:
        if o not in cust:  # (a named table beside the numbers: the numbers count)
            names = KTS if o == "-t" else MAJ
            cust = [o, names[i % len(names)]] + cust if i % 2 else cust + [o, names[i % len(names)]]
    a, b = app(ctx, ["-p"] + named + [p]), app(ctx, ["-p"] + cust + [p])
    need(a.rc == 0 and b.rc == 0, "%s / %s", a.text(), b.text())
    k, v2, margin = expect(case["obs"], case["M"], case["m"], case["t"])
    if margin <= 1e-4:
        return False
    x, y = [float(z) for z in a.out.split()], [float(z) for z in b.out.split()]
    need(len(x) == len(y) == 24 and all(abs(s - t) <= 1e-3 + 1e-4 * abs(s) for s, t in zip(x, y)),
         "named: %s, given as numbers: %s", a.out, b.out)
    return True


@CHECK.clause("custom_profile", st.fixed_dictionaries({
    "obs": notes(), "x": st.lists(st.integers(1, 99), min_size=24, max_size=24), "t": st.sampled_from(KTS),
    "eq": st.booleans()}), quick=300, workers=4)
def custom_profile(case, ctx):
    p = write(ctx, notes_csv(case["obs"]), "x.csv")
    x = [v / 100.0 for v in case["x"]]
    r = app(ctx, (["--customkeyprofiles=" + nums(x)] if case["eq"] else ["-K", nums(x)]) + ["-t", case["t"], p])
    need(r.rc == 0, "%s", r.text())
    got = key_of(r.out)
    k, v2, margin = expect(case["obs"], x[:12], x[12:], case["t"])
    if k is None:
        return False
    need(got == k, "with the given profiles the answer is %s, the model says %s", DISPLAY[got], DISPLAY[k])
    return True


@CHECK.clause("wrong_count", st.fixed_dictionaries({
    "n": st.one_of(st.integers(0, 23), st.integers(25, 60), st.just(5000)), "opt": st.sampled_from(["-K", "-T"]),
    "tail": st.sampled_from(["", " x", " 1,2"])}), quick=150, workers=2)
def wrong_count(case, ctx):
    """Anything but 24 numbers is refused with a message that says how many were found."""
    p = write(ctx, notes_csv([0, 4, 7, 0]), "x.csv")
    n = case["n"]
    r = app(ctx, [case["opt"], nums([(i % 9 + 1) / 100.0 for i in range(n)]) + (case["tail"] if n < 24 else ""), p],
            component="app")
    if case["tail"] == " 1,2" and n == 23:
        return False
    m = n + (1 if case["tail"] == " 1,2" and n < 24 else 0)
    need("major" not in r.out.split("\n")[0] and "24" in r.out.split("\n")[0] and str(m) in r.out.split("\n")[0],
         "%d values with %s: %s", m, case["opt"], r.text())
    need(not any(DISPLAY[k] + "\tm" in r.out for k in range(24)), "a key is reported: %s", r.text())
    return True


@CHECK.clause("format", st.fixed_dictionaries({
    "obs": notes(12), "fmt": st.sampled_from(["csv", "midi", "wav"]),
    "name": st.sampled_from(["x", "x.txt", "x.csv", "x.mid", "x.wav", "x.", ".x", "a.b.c", "x.csv.bak"]),
    "long": st.booleans()}), quick=250, workers=3)
def format_(case, ctx):
    """-f decides how the file is read, whatever it is called."""
    if case["fmt"] == "wav":
        import audiogen as AG
        data = AG.encode(AG.q15(AG.chord([48, 52, 55], 16000, 17000, 0, .5, 6, 1)).reshape(-1, 1), 16000)
        plain = "ref.wav"
    else:
        data = notes_csv(case["obs"]) if case["fmt"] == "csv" else notes_midi(case["obs"])
        plain = "ref." + ("csv" if case["fmt"] == "csv" else "mid")
    a = app(ctx, [write(ctx, data, plain)])
    f = ["--inputformat=" + case["fmt"]] if case["long"] else ["-f", case["fmt"]]
    b = app(ctx, f + [write(ctx, data, case["name"])])
    need((a.rc, a.out) == (b.rc, b.out), "%s by its extension: %s; -f %s on %s: %s", plain, a.text(), case["fmt"],
         case["name"], b.text())
    return True


@CHECK.clause("extension", st.fixed_dictionaries({
    "obs": notes(12), "ext": st.sampled_from([".csv", ".CSV", ".Csv", ".mid", ".MID", ".midi", ".MiDi", ".wav", ".WAV"]),
    "stem": st.sampled_from(["x", "x.csv", "x.mid", "x.wav", "a.b", "", "x.", "a b", "-x", "d.csv/x", "d.wav/y.mid", "é"])}),
    quick=200, workers=3)
def extension(case, ctx):
    """Without -f the last extension, in any letter case, decides how the file is read."""
    e = case["ext"].lower()
    for d in ("d.csv", "d.wav"):
        os.makedirs(os.path.join(ctx.tmp, d), exist_ok=True)
    if e == ".wav":
        import audiogen as AG
        data = AG.encode(AG.q15(AG.chord([48, 52, 55], 16000, 17000, 0, .5, 6, 1)).reshape(-1, 1), 16000)
    else:
        data = notes_csv(case["obs"]) if e == ".csv" else notes_midi(case["obs"])
    n = case["stem"] + case["ext"]
    write(ctx, data, n)
    a = app(ctx, ["-f", {".csv": "csv", ".wav": "wav"}.get(e, "midi"), "./" + n])
    b = app(ctx, ["./" + n])
    need(a.rc == 0 and (a.rc, a.out) == (b.rc, b.out), "%s: %s; with -f: %s", n, b.text(), a.text())
    return True


@CHECK.clause("unknown_extension", st.one_of(
    st.sampled_from(["x", "x.txt", "x.", "x.mp3", "a.b/x", "x.csvv", "xcsv", "x.wav.gz", "x.aiff", "x.flac", "x.au", "x.ogg", "x.smf", "x.kar", "x.wave",
                     "x.aif", "x.m4a", "x.tsv", "x.cs", "x.wa", "x.mi", "x.midi2", "x.csv~", "x.csv ", "x. csv", "x.wav\n", "x.MIDIS", "x.xml", "x.krn"]),
    st.text(alphabet="abcdimvwsCMVW0 3", min_size=1, max_size=5).filter(lambda e: e.lower() not in ("csv", "wav", "mid", "midi")).map(lambda e: "x." + e)),
              quick=80, workers=2)
def unknown_extension(case, ctx):
    os.makedirs(os.path.join(ctx.tmp, "a.b"), exist_ok=True)
    write(ctx, notes_csv([0, 4, 7]), case)
    r = app(ctx, [case], component="app")
    need("-f" in r.out and not any(DISPLAY[k] + "\tm" in r.out for k in range(24)), "%s", r.text())
    return True


EXACT = {"-M": MAJ, "-m": MAJ, "-t": KTS, "-f": ["csv", "midi", "wav"]}
almost = st.sampled_from(sorted(EXACT)).flatmap(lambda o: st.tuples(
    st.just(o), st.one_of(st.sampled_from(EXACT[o]).flatmap(lambda n: st.sampled_from([n.upper(), n[:-1], n[:3], n + "x", n + " ", " " + n, n.title(), n + n, n.replace("_", "-")])),
                          st.sampled_from(MAJ + KTS + ["custom", "linear", "zero", "symmetrical", "heatmap", "simple_natural_minor", "mid", "0"]))
    .filter(lambda v: v not in EXACT[o] and v))).map(list)


@CHECK.clause("almost_values", almost, quick=60, workers=2)
def almost_values(case, ctx):
    """What is no value of an option is refused, however near it is to one."""
    write(ctx, notes_csv([0, 4, 7]), "x.csv")
    r = app(ctx, case + ["x.csv"], component="app")
    need(r.rc != 0 and r.err and not r.out.endswith(("major\n", "minor\n")), "%s: %s", case, r.text())
    return True


@CHECK.clause("bad_values", st.sampled_from([
    ["-M", "sap"], ["-m", "SAPP"], ["-t", "linear10"], ["-f", "mp3"], ["-f", ".csv"], ["-z"], ["--nope"],
    ["--nope=1"], ["-M"], ["--majorprofile"], ["-t", ""], ["-M", "custom"]]), quick=30)
def bad_values(case, ctx):
    write(ctx, notes_csv([0, 4, 7]), "x.csv")
    r = app(ctx, ["x.csv"] + case, component="app")
    need(r.rc != 0 and r.err and not r.out.endswith(("major\n", "minor\n")), "%s: %s", case, r.text())
    return True


@CHECK.clause("inputs_count", st.lists(st.sampled_from(["x.csv", "y.csv", "-p", "-e", "-c"]), max_size=5), quick=40)
def inputs_count(case, ctx):
    for n in ("x.csv", "y.csv"):
        write(ctx, notes_csv([0, 4, 7]), n)
    r = app(ctx, case, component="app")
    if sum(not a.startswith("-") for a in case) == 1:
        need(r.rc == 0 and "Missing" not in r.out, "%s: %s", case, r.text())
        return False
    need(r.out.startswith("Missing input file."), "%s: %s", case, r.text())
    return True


@CHECK.clause("unreadable", st.fixed_dictionaries({
    "what": st.sampled_from(["missing", "empty", "junk", "silent", "directory"]),
    "ext": st.sampled_from([".csv", ".wav", ".mid"]), "mode": st.sampled_from([[], ["-p"], ["-e"]])}), quick=90, workers=2)
def unreadable(case, ctx):
    """Inputs with nothing to hear end with an error, not with a key."""
    n = "in" + case["ext"]
    p = os.path.join(ctx.tmp, n)
    if os.path.isdir(p):
        os.rmdir(p)
    elif os.path.exists(p):
        os.unlink(p)
    if case["what"] == "directory":
        os.mkdir(p)
    elif case["what"] == "empty":
        write(ctx, b"", n)
    elif case["what"] == "junk":
        write(ctx, b"this is not\nmusic,at,all\n" * 9, n)
    elif case["what"] == "silent":
        import audiogen as AG
        write(ctx, {".csv": text(tokens([(0.0, [0.0] * 12), (1.0, [1.5] * 12)], 0)).encode(),
                    ".wav": AG.encode(np.zeros((3000, 1), np.int64), 16000), ".mid": smf([[]])}[case["ext"]], n)
    r = app(ctx, case["mode"] + [n], component="app" if case["ext"] == ".csv" else "app!fast")
    need(r.rc != 0 and r.err and not r.out, "%s %s: %s", case["what"], case["ext"], r.text())
    return True


@CHECK.clause("any_arguments", st.lists(st.one_of(
    st.sampled_from(["x.csv", "x.mid", "-", "--", "-f", "-K", "-T", "-M", "-e", "-p", "-c", "-pe", "-h", "--help", "csv",
                     "--in", "--customkey", "--key=exponential2", "-fcsv", "-Kx", "--=", "1 2 3"]),
    st.text("abc-=._ 0\tKTé", min_size=0, max_size=8)), max_size=6), quick=300, workers=2)
def any_arguments(case, ctx):
    write(ctx, notes_csv([0, 4, 7]), "x.csv")
    write(ctx, notes_midi([0, 4, 7]), "x.mid")
    app(ctx, [a.replace("\0", "") for a in case], component="app")
    return len(case) > 1


sparse = st.lists(st.one_of(st.just(0), st.integers(1, 99)), min_size=24, max_size=24)
shape = st.lists(st.booleans(), min_size=24, max_size=24)


@CHECK.clause("impossible", st.fixed_dictionaries({
    "obs": notes(12), "x": sparse, "t": st.one_of(sparse, st.integers(0, 23).map(lambda i: [0] * i + [7] + [0] * (23 - i)),
                                                  st.tuples(sparse, shape).map(lambda p: [a * b for a, b in zip(*p)])),
    "mode": st.sampled_from([[], ["-p"]])}), quick=500, workers=4)
def impossible(case, ctx):
    """Profiles and transitions with zeros: music they cannot explain is an error, never a crash or a key."""
    import c05
    p = write(ctx, notes_csv(case["obs"]), "x.csv")
    x, t = [v / 100.0 for v in case["x"]], [v / 100.0 for v in case["t"]]
    T = c05.matrix(c05.parse(ctx.bridge("core!fast").call("transition", 4, "custom", t, 1))[2])
    v1, path, margin, v2 = M.detect(x[:12], x[12:], T, case["obs"])
    r = app(ctx, case["mode"] + ["-K", nums(x), "-T", nums(t), p], component="app")
    if max(v1) == -math.inf:
        need(r.rc != 0 and r.err and not r.out, "no key sequence explains the notes: %s", r.text())
        return "notes impossible"
    if not margin > 1e-4:
        need((r.rc != 0) == (not r.out), "%s", r.text())
        return False
    if max(v2) == -math.inf:
        need(r.rc != 0 and r.err and not r.out, "no key explains the local keys %s: %s", path, r.text())
        return "local keys impossible"
    need(r.rc == 0, "keys %s exist: %s", path, r.text())
    if case["mode"]:
        y = [float(z) for z in r.out.split()]
        need(len(y) == 24 and all(a == b if math.isinf(b) else abs(a - b) <= 1e-3 + 1e-4 * abs(b) for a, b in zip(y, v2)),
             "scores %s, the model says %s", r.out, v2.tolist())
        return True
    s = sorted(v2)
    if s[-1] - s[-2] > 1e-4:
        need(key_of(r.out) == int(np.argmax(v2)), "%s, the model says %s", r.out, DISPLAY[int(np.argmax(v2))])
        return "possible"
    return False
