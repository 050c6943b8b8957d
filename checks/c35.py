import pickle
import shutil

from appgen import *
from pygen import *
from c32 import workdir, notes_csv

CHECK = Check(
    "C35",
    "Datasets of 1-4 recordings (chromagrams and MIDI files with drawn names), with or without annotations (known and unknown "
    "labels, missing ones) and splits (with unknown names), made into features with 1-2 profiles and 1-2 transitions, mixed or "
    "not, written, and read back.  Non-trivial: annotations or splits were read back.",
    components=["app!fast"],
    assumptions=["Recordings have different names without their extensions; annotation files have a first line."], times=2)
KPS = ["krumhansl_kessler", "sapp", "temperley", "simple_natural_minor"]
KTS = ["ktg_exponential5", "ktg_exponential10", "ktg_linear"]
NAMES = ["a", "b.c", "my song", "01_x", "Zz", "a-b", "s", "no.1.op.2.a", "A", "x.csv", "(b)", "#3"]
LABELS = ["C", "f#", "F\nthen g", "C# minor\n\nB\n", "Bb major", "g minor", "EB Major", "bb", "Ab\tmajor", "d\n", "  E  ", "H", "X", "C minor major", "cb", "f# # or A", "C #1 #2", "G  # major"]
rec = st.fixed_dictionaries({"name": st.sampled_from(NAMES), "ext": st.sampled_from(["csv", "csv", "mid"]), "obs": notes(8),
                             "label": st.sampled_from(LABELS), "broken": st.sampled_from([0, 0, 0, 0, 0, 1])})
conf = st.fixed_dictionaries({
    "name": st.sampled_from(["ds", "my-set", "x.y", "a_chroma", "D1", "my set", "set ", " s", "(c)", "no+1"]), "slash": st.booleans(),
    "recs": st.lists(rec, min_size=1, max_size=4, unique_by=lambda r: r["name"]), "annotated": st.sampled_from([True, True, False]),
    "missing": st.sampled_from([0, 0, 0, 0, 1]),
    "splits": st.dictionaries(st.sampled_from(["training", "test", "val 2"]), st.lists(st.sampled_from(NAMES + ["s"]), min_size=1, max_size=4), max_size=2),
    "use": st.booleans(), "kps": st.lists(st.sampled_from(KPS), min_size=1, max_size=2, unique=True),
    "kts": st.lists(st.sampled_from(KTS), min_size=1, max_size=2, unique=True), "mixed": st.booleans(),
    "out": st.sampled_from([None, "datasets", "new/dir"]),
    # other datasets beside this one
    "beside": st.lists(st.sampled_from(["old_%s", "my-%s", "%s2", "%straining", "%stest", "%s_b", "CASE", "BLANK"]), max_size=3, unique=True)})


def label_of(s):
    """Number of the key a label names, or -1."""
    w = s.split("\n")[0].strip().split()
    if len(w) == 1:
        n = w[0]
        k = M.KEY_SPELLINGS.get(n)
    elif len(w) == 2 and w[1].lower() in ("major", "minor"):
        n = w[0].lower()
        k = M.KEY_SPELLINGS.get(n.capitalize() if w[1].lower() == "major" else n)
    else:
        return -1
    return -1 if k is None or n.lower() in ("cb", "fb", "e#", "b#") else k


def make(d, case):
    root = os.path.join(d, "in", case["name"])
    shutil.rmtree(os.path.join(d, "in"), ignore_errors=True)
    for x in ("datasets", "new"):
        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
    os.makedirs(os.path.join(root, "features"))
    for r in case["recs"]:
        f = os.path.join(root, "features", "%s.%s" % (r["name"], r["ext"]))
        data = notes_csv(r["obs"]).encode() if r["ext"] == "csv" else notes_midi(r["obs"])
        open(f, "wb").write(b"junk" if r["broken"] else data)
    if case["annotated"]:
        os.mkdir(os.path.join(root, "annotations"))
        for i, r in enumerate(case["recs"]):
            if not (case["missing"] and i == 0):
                open(os.path.join(root, "annotations", r["name"] + ".key"), "w").write(r["label"])
    names = [r["name"] for r in case["recs"]]
    splits = {}
    if case["splits"]:
        os.mkdir(os.path.join(root, "splits"))
        for s, l in case["splits"].items():
            splits[s] = [x if not case["use"] or x in names else names[i % len(names)] for i, x in enumerate(l)]
            open(os.path.join(root, "splits", s + ".txt"), "w").write("\n".join(splits[s]) + "\n")
    return root, splits


@CHECK.clause("roundtrip", conf, quick=130, workers=4)
def roundtrip(case, ctx):
    """What is read back is what was computed: every recording's features beside its own label, every split in its order."""
    p = py(ctx)
    d = workdir(ctx)
    p.run([["chdir", d]])
    root, splits = make(d, case)
    res = p.do("call", "dataset_creator.DatasetCreator", [root + ("/" if case["slash"] else "")], {}, "c")
    need(res.exc is None and res.exit is None, "opening the dataset: %s", res.exc or "exits")
    res = p.do("call", "$c.compute_features", [case["kps"], case["kts"], case["mixed"]])
    need(res.exc is None, "computing features: %s", res.exc)
    outdir = case["out"] or "datasets"
    res = p.do("call", "$c.write", [outdir] if case["out"] else [])
    need(res.exc is None, "writing: %s", res.exc)
    names = [r["name"] for r in case["recs"]]
    od = os.path.join(d, outdir)
    if case["annotated"] and case["missing"]:
        need(not os.path.exists(od) or not os.listdir(od), "with a missing annotation this was written: %s", os.path.exists(od) and os.listdir(od))
        return False
    if outdir != "datasets":
        os.rename(od, os.path.join(d, "datasets"))
    for b in case["beside"]:
        b = {"CASE": case["name"].swapcase(), "BLANK": case["name"].strip() if case["name"].strip() != case["name"] else case["name"] + " "}.get(b) or b % case["name"]
        for f in ("features", "annotations"):
            np.array([[7.0], [8.0]]).dump(os.path.join(d, "datasets", "%s_%s.pkl" % (b, f)))
        open(os.path.join(d, "datasets", "%s_ensemble.txt" % b), "w").write("a\nb\nmixed_profiles=True\n")
    D = p.do("call", "dataset.Dataset", [case["name"]], {}, "d")
    need(D.exc is None and D.exit is None, "reading back: %s %s", D.exc, D.exit)
    attrs = p.call("builtins.vars", ref("d"))
    need(attrs.get("ensemble") == {"key_profiles": case["kps"], "key_transitions": case["kts"], "mixed_profiles": case["mixed"]},
         "the ensemble read back is %s", attrs.get("ensemble"))
    # features of each recording, computed by themselves
    own = {}
    p.call("optimizer.ensembler.Ensembler", case["kps"], case["kts"], keep="e")
    for r in case["recs"]:
        rows = p.call("$e.evaluate", os.path.join(root, "features", "%s.%s" % (r["name"], r["ext"])), case["mixed"])
        own[r["name"]] = [x for row in rows for x in row]
        need((own[r["name"]][0] == -1000000) == bool(r["broken"]), "features of %s: %s", r["name"], own[r["name"]][:3])
    width = 24 * len(case["kps"]) ** (2 if case["mixed"] else 1) * len(case["kts"])
    labels = {r["name"]: label_of(r["label"]) for r in case["recs"]}
    X = attrs.get("X")
    need(X is not None and np.shape(X) == (len(names), width), "%d recordings of %d features are read back as %s", len(names), width, np.shape(X))
    got = [tuple(x) for x in np.asarray(X).tolist()]
    if case["annotated"]:
        y = np.asarray(attrs.get("y")).tolist()
        need(sorted(zip(got, y)) == sorted((tuple(own[n]), labels[n]) for n in names), "labels %s (should be %s, in some order) are not beside "
             "their recordings' features", y, labels)
    else:
        need("y" not in attrs and sorted(got) == sorted(tuple(own[n]) for n in names), "the features read back are others than were computed")
    for s, l in splits.items():
        a, b = attrs.get(s + "_X"), attrs.get(s + "_y")
        if any(n not in names for n in l):
            need(a is None and b is None, "split %s names unknown recordings but was written", s)
            continue
        need(a is not None and np.asarray(a).tolist() == [own[n] for n in l], "split %s holds other features than those of %s", s, l)
        if case["annotated"]:
            need(b is not None and np.asarray(b).tolist() == [labels[n] for n in l], "split %s is labelled %s, should be %s", s,
                 b, [labels[n] for n in l])
        else:
            need(b is None, "split %s has labels", s)
    extra = {k for k in attrs if k.endswith(("_X", "_y"))} - {s + t for s in splits for t in ("_X", "_y")}
    need(not extra, "there are more splits than were given: %s", extra)
    return "splits" if splits else case["annotated"]


@CHECK.clause("many", st.fixed_dictionaries({"n": st.sampled_from([12, 27, 40, 70]), "seed": st.integers(0, 10 ** 6), "slash": st.booleans()}), quick=5)
def many(case, ctx):
    """The same of up to 70 recordings and splits that name them all."""
    r = np.random.default_rng(case["seed"])
    names = ["r%d" % i for i in range(case["n"])]
    recs = [{"name": x, "ext": "mid" if r.random() < .3 else "csv", "obs": r.integers(0, 12, int(r.integers(1, 9))).tolist(),
             "label": LABELS[int(r.integers(0, len(LABELS)))], "broken": int(r.random() < .05)} for x in names]
    order = [names[i] for i in r.permutation(len(names))]
    cut = int(r.integers(1, len(names)))
    return roundtrip({"name": "big", "slash": case["slash"], "recs": recs, "annotated": True, "missing": 0, "use": True, "kps": KPS[:1],
                      "kts": KTS[:1], "mixed": False, "out": None, "beside": [], "splits": {"training": order[:cut], "test": order[cut:] + order[:1]}}, ctx)


@CHECK.clause("refused", st.tuples(st.sampled_from(["nofeatures", "empty", "file", "ext", "noext", "nodata", "lines"]),
                                   st.sampled_from(["x.txt", "README", "x.mid.bak", "x.MID", "x.", "x.wave"])), quick=40)
def refused(case, ctx):
    """What is no dataset is refused with a message, not with a traceback."""
    what, odd = case
    p = py(ctx)
    d = workdir(ctx)
    p.run([["chdir", d]])
    root, _ = make(d, {"name": "ds", "recs": [{"name": "a", "ext": "csv", "obs": [0, 4, 7], "broken": 0, "label": "C"}],
                       "annotated": False, "missing": 0, "splits": {}, "use": False})
    feats = os.path.join(root, "features")
    target = root
    if what == "nofeatures":
        shutil.rmtree(feats)
    elif what == "empty":
        os.unlink(os.path.join(feats, "a.csv"))
    elif what == "file":
        target = os.path.join(feats, "a.csv")
    elif what in ("ext", "noext"):
        open(os.path.join(feats, odd), "w").write("x")
    if what in ("nodata", "lines"):
        if what == "lines":
            os.mkdir(os.path.join(d, "datasets"))
            open(os.path.join(d, "datasets", "ds_ensemble.txt"), "w").write("a\nb\n")
        res = p.do("call", "dataset.Dataset", ["ds"])
        need(res.exit is not None and res.text, "a dataset that is not there (%s): %s", what, res.exc or res.v)
        return True
    res = p.do("call", "dataset_creator.DatasetCreator", [target])
    need(res.exit is not None and res.warned(), "%s %s: %s %s", what, odd, res.exc or res.v, res.log)
    return True


@CHECK.clause("script", st.tuples(notes(8), notes(8), st.sampled_from(["f#", "Eb major"])), quick=4)
def script(case, ctx):
    """The script makes 30 times 24 features per recording, in the fixed order of its profiles and transitions."""
    p = py(ctx)
    d = workdir(ctx)
    p.run([["chdir", d]])
    make(d, {"name": "ds", "recs": [{"name": n, "ext": "csv", "obs": o, "broken": 0, "label": case[2]} for n, o in zip("ab", case)],
             "annotated": True, "missing": 0, "splits": {}, "use": False})
    res = p.do("main", os.path.join(build.REPO, "dataset_creator.py"), [os.path.join("in", "ds")], timeout=100)
    need(res.exc is None and not res.exit, "the script: %s %s", res.exc, res.exit)
    p.call("dataset.Dataset", "ds", keep="d")
    a = p.call("builtins.vars", ref("d"))
    kps = ["aarden_essen", "temperley", "krumhansl_kessler", "bellman_budge", "albrecht_shanahan1", "albrecht_shanahan2", "sapp",
           "simple_natural_minor", "simple_harmonic_minor", "simple_melodic_minor"]
    kts = ["ktg_exponential5", "ktg_exponential10", "ktg_exponential15"]
    need(a["ensemble"] == {"key_profiles": kps, "key_transitions": kts, "mixed_profiles": False}, "the ensemble is %s", a["ensemble"])
    need(np.asarray(a["y"]).tolist() == [label_of(case[2])] * 2, "labels %s", a["y"])
    p.call("optimizer.ensembler.Ensembler", kps, kts, keep="e")
    own = [[x for r in p.call("$e.evaluate", os.path.join("in", "ds", "features", n + ".csv")) for x in r] for n in "ab"]
    need(sorted(np.asarray(a["X"]).tolist()) == sorted(own), "the features are others")
    return True
