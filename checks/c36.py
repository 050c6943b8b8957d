from appgen import *
from pygen import *
from c35 import label_of
import shutil

CHECK = Check(
    "C36",
    "Key labels: every letter with sharp, flat or nothing in both cases, one word or with a mode in any case and spacing, "
    "German h, unknown words, and drawn text; all 24 key numbers.  Non-trivial: the label names a key.",
    components=["app!fast", "core!fast"],
    assumptions=["B#, Cb, E# and Fb are not annotation labels (the tables leave them out)."], times=3)
TOOL = os.path.join(build.REPO, "tools", "annotate_inline.py")
word = st.one_of(st.sampled_from([l + a for l in "abcdefghABCDEFGHxX" for a in ("", "#", "b")]), st.text("abcFGH#b mM", max_size=5))
mode = st.sampled_from(["", "", "major", "minor", "Major", "MINOR", "min", "maj", "minor minor", "majors", "minority", "Major.", "min0r", "mAJOR"])
label = st.tuples(st.sampled_from(["", " ", "\t"]), word, st.sampled_from([" ", "\t", "  "]), mode, st.sampled_from(["", "\n", " "])).map(
    lambda t: t[0] + t[1] + (t[2] + t[3] if t[3] else "") + t[4])


def german(s):
    w = s.strip().split()
    return bool(w) and w[0] in ("h", "H")


def tool(p):
    """The annotating tool as a module."""
    p.do("call", "importlib.util.spec_from_file_location", ["annotate_inline", TOOL], {}, "s")
    p.do("call", "importlib.util.module_from_spec", [ref("s")], {}, "m")
    r = p.do("call", "$s.loader.exec_module", [ref("m")])
    need(r.exc is None, "%s", r.exc)


@CHECK.clause("labels", st.lists(label, min_size=1, max_size=12), quick=400, workers=2)
def labels(case, ctx):
    """Both readers of labels understand the same keys, and the name one writes is the key the other and the program read."""
    p = py(ctx)
    tool(p)
    hit = 0
    for s in case:
        want = label_of(s)
        wantg = want
        if german(s):
            w = s.strip().split()
            wantg = label_of(" ".join(["B" if w[0] == "H" else "b"] + w[1:])) if len(w) < 3 else -1
        r = parse(p, s)
        need(r.exc is None, "label %r: %s", s, r.exc)
        need(r.v == want, "label %r is read as %s, should be %s", s, r.v, want)
        need(bool(r.warned()) == (want == -1), "label %r (%s) logs %s", s, want, r.warned())
        name = p.call("$m.normalize_key_label", s)
        if wantg == -1:
            need(name == "Unknown", "label %r is annotated as %r", s, name)
            continue
        hit += 1
        need(name == M.KEY_NAMES[wantg] or M.KEY_SPELLINGS.get(name) == wantg, "label %r is annotated as %r, should be %s", s, name, M.KEY_NAMES[wantg])
        need(parse(p, name).v == wantg, "%r was annotated as %r, which is read as %s", s, name, parse(p, name).v)
        k = ctx.bridge("core!fast").call("key_str", 165, name)
        need(k[0] == wantg, "%r was annotated as %r, which the program reads as %s", s, name, k[:1])
    return hit > 0


def parse(p, s):
    r = p.run([["call", "logging.getLogger", ["labels"], {}, "lg"], ["bare", "dataset_creator.DatasetCreator", "dc"], ["set", "$dc.logger", ref("lg")], ["call", "$dc.parse_label", [s]]])
    return r[-1]


@CHECK.clause("names", st.integers(0, 23), quick=24)
def names(case, ctx):
    """The name printed for a key number is a label of that key, with its mode in words."""
    p = py(ctx)
    n = p.call("justkeydding_ensemble.key_name", case)
    need(label_of(n) == case and parse(p, n).v == case, "key %d is printed as %r", case, n)
    need(n.split("\t")[1:] == ["major" if case < 12 else "minor"], "key %d is printed as %r", case, n)
    need(n.split("\t")[0][0].isupper() and key_of_name(n) == case, "key %d is printed as %r", case, n)
    return True


def key_of_name(n):
    t, m = n.split("\t")
    return M.KEY_SPELLINGS[t if m == "major" else t[0].lower() + t[1:]]


@CHECK.clause("inplace", st.fixed_dictionaries({
    "files": st.lists(st.tuples(st.sampled_from(["a.csv", "b_c.csv", "d.e.csv", "my x.csv", "m.mid", "n", ".hid.csv", "1.2.3.mid"]), label, notes(8)), min_size=1, max_size=4,
                      unique_by=lambda t: t[0].rsplit(".", 1)[0])}), quick=120, workers=3)
def inplace(case, ctx):
    """Annotating a dataset copies every recording under a name that ends with its key; -e then reads that key off it."""
    p = py(ctx)
    root = os.path.join(ctx.tmp, "ds")
    shutil.rmtree(root, ignore_errors=True)
    shutil.rmtree(root + "_inplace", ignore_errors=True)
    os.makedirs(os.path.join(root, "features"))
    os.makedirs(os.path.join(root, "annotations"))
    data = {}
    for f, l, obs in case["files"]:
        data[f] = notes_midi(obs) if f.endswith(".mid") else notes_csv(obs).encode()
        open(os.path.join(root, "features", f), "wb").write(data[f])
        open(os.path.join(root, "annotations", os.path.splitext(f)[0] + ".key"), "w").write(l)
    res = p.do("main", TOOL, [root])
    need(res.exc is None and not res.exit, "annotating: %s", res.exc)
    got = {n: open(os.path.join(root + "_inplace", n), "rb").read() for n in os.listdir(root + "_inplace")}
    need(len(got) == len(data), "%d recordings become %s", len(data), sorted(got))
    hits = 0
    for i, (f, l, obs) in enumerate(case["files"]):
        stem, ext = os.path.splitext(f)
        k = label_of(l)
        if german(l):
            w = l.strip().split()
            k = label_of(" ".join(["B" if w[0] == "H" else "b"] + w[1:])) if len(w) < 3 else -1
        mine = [n for n in got if n.startswith(stem + "_") and n.endswith(ext) and got[n] == data[f]
                and (n[len(stem) + 1:len(n) - len(ext)] == "Unknown" if k == -1 else M.KEY_SPELLINGS.get(n[len(stem) + 1:len(n) - len(ext)]) == k)]
        need(len(mine) == 1, "%s, annotated %r: the copies are %s", f, l, sorted(got))
        need(open(os.path.join(root, "features", f), "rb").read() == data[f], "the original of %s changed", f)
        if k != -1 and ext and i < case.get("check", 99):
            key, v2, margin = expect(obs, "temperley", "sapp", "exponential10")
            if key is not None:
                r = app(ctx, ["-e", "-M", "temperley", "-m", "sapp", "-t", "exponential10", os.path.join(root + "_inplace", mine[0])])
                need(r.rc == 0 and (float(r.out) == 1.0) == (key == k), "%s annotated %s, detected %s: score %s", mine[0], DISPLAY[k], DISPLAY[key], r.out)
                hits += 1
    return hits > 0


@CHECK.clause("many", st.fixed_dictionaries({"n": st.sampled_from([11, 30, 64, 150]), "seed": st.integers(0, 10 ** 6)}), quick=6)
def many(case, ctx):
    """The same of up to 150 recordings."""
    r = np.random.default_rng(case["seed"])
    pick = lambda l: l[int(r.integers(0, len(l)))]
    files = []
    for i in range(case["n"]):
        l = pick(["C", "c", "F#", "g#", "Bb", "eb", "D major", "a minor", "H", "h minor", "nothing", "E Minor\n", " Ab"])
        files.append(["%s%d%s" % (pick(["a", "b_c", "d.e", "my x"]), i, pick([".csv", ".mid"])), l, r.integers(0, 12, 3).tolist()])
    return inplace({"files": files, "check": 6}, ctx)
