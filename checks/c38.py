import csv
import pwd
import shutil
import tempfile

from appgen import *

CHECK = Check(
    "C38",
    "The dataset tools on drawn folders of 0-8 recordings: shortening, filtering, dropping columns, sampling, batch "
    "runs of the program and of the chroma extractor.  Non-trivial: a file was changed, kept aside or analysed.",
    components=["app!fast", "chromaextract!fast"],
    assumptions=["Names do not start with a dash or dot; only the tools written for blanks in names get them; "
                 "tools run as an unprivileged user inside a scratch folder.",
                 "The shell tools of single datasets are left to C43."], times=2)
TOOLS = os.path.join(build.REPO, "tools")
try:
    NOBODY = pwd.getpwnam("nobody").pw_uid
except KeyError:
    NOBODY = 65534
stem = st.sampled_from(["a", "b", "song", "Zz", "01_x", "k9", "long-name", "x_y_z", "q", "0007", "s1", "M", "son", "song2", "00", "1_x"])
stems = st.lists(stem, max_size=8, unique=True)
body = st.integers(0, 10 ** 6)


SHOW = """import json, runpy, sys
g = runpy.run_path(sys.argv[1], run_name="__main__")
sys.stdout.write(chr(1) + json.dumps([g.get(n) for n in sys.argv[2:]]))
"""


class Box:
    """A scratch folder of its own, given to the unprivileged user while a tool runs."""

    def __init__(self):
        self.d = tempfile.mkdtemp(prefix="vp38-")
        os.chmod(self.d, 0o755)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

    def put(self, name, data):
        f = os.path.join(self.d, name)
        os.makedirs(os.path.dirname(f), exist_ok=True)
        with open(f, "wb") as fd:
            fd.write(data if isinstance(data, bytes) else data.encode())

    def files(self):
        out = {}
        for r, _, fs in os.walk(self.d):
            for n in fs:
                p = os.path.join(r, n)
                if not os.path.islink(p):
                    with open(p, "rb") as fd:
                        out[os.path.relpath(p, self.d)] = fd.read()
        return out

    def run(self, tool, *args, cwd=".", crlf=True, home=(), path=None, show=None):
        """Runs a copy of a tool; its output.  (For C43: without carriage returns, with files in the home folder, with a
        module folder, and with variables of a Python tool printed after its output.)"""
        src = open(os.path.join(TOOLS, tool), "rb").read()
        if not crlf:
            src = src.replace(b"\r\n", b"\n")
        with tempfile.TemporaryDirectory(prefix="vp38t-") as t:
            os.chmod(t, 0o755)
            f = os.path.join(t, os.path.basename(tool))
            open(f, "wb").write(src)
            os.chmod(f, 0o755)
            tmp = os.path.join(t, "tmp")
            os.mkdir(tmp)
            os.chown(tmp, NOBODY, NOBODY)
            for r, ds, fs in os.walk(self.d):
                for n in [r] + [os.path.join(r, x) for x in fs]:
                    os.chown(n, NOBODY, NOBODY, follow_symlinks=False)
            for n in home:
                os.makedirs(os.path.dirname(os.path.join(tmp, n)), exist_ok=True)
                with open(os.path.join(tmp, n), "wb") as fd:
                    fd.write(home[n])
                os.chmod(os.path.join(tmp, n), 0o755)
            env = {"PATH": os.environ["PATH"], "LC_ALL": "C", "TMPDIR": tmp, "HOME": tmp, "PYTHONDONTWRITEBYTECODE": "1", "PYTHONHASHSEED": "0"}
            cmd = [sys.executable if tool.endswith(".py") else "bash", f] + list(args)
            if path:
                m = os.path.join(t, "mods")
                shutil.copytree(path, m)
                env["PYTHONPATH"] = m
            if show is not None:
                cmd = [sys.executable, "-c", SHOW, f] + show
            try:
                p = subprocess.run(cmd, cwd=os.path.join(self.d, cwd), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, timeout=60, user=NOBODY, group=NOBODY, extra_groups=[],
                                   env=env)
            except subprocess.TimeoutExpired:
                raise BridgeTimeout("%s: no end within 60 s" % tool)
        return Run(p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace"))


import sys  # noqa: E402


@CHECK.clause("shorten", st.fixed_dictionaries({"names": stems, "ext": st.lists(st.sampled_from(["csv", "mid", "wav"]), min_size=8, max_size=8),
                                                "again": st.integers(0, 2), "blank": st.booleans()}), quick=50, workers=2)
def shorten(case, ctx):
    """Every recording keeps its annotation under its new short name; nothing is lost, and doing it again changes nothing."""
    names = [n + (" b" if case["blank"] and i == 1 else "") for i, n in enumerate(case["names"]) if n != "0007"]
    if not names:
        raise Discard
    with Box() as b:
        for n, e in zip(names, case["ext"]):
            b.put("ds/features/%s.%s" % (n, e), "F" + n)
            b.put("ds/annotations/%s.key" % n, "K" + n)
        for _ in range(case["again"] + 1):
            r = b.run("shorten_names.sh", "ds")
        got = b.files()
        order = sorted(zip(names, case["ext"]), key=lambda x: (x[0] + "." + x[1]).encode())
        want = {}
        for i, (n, e) in enumerate(order):
            want["ds/features/%04d.%s" % (i, e)] = ("F" + n).encode()
            want["ds/annotations/%04d.key" % i] = ("K" + n).encode()
        need(got == want, "the dataset of %s becomes %s", names, got)
    return True


many = st.fixed_dictionaries({"n": st.sampled_from([12, 40, 101, 130]), "seed": st.integers(0, 10 ** 6)})


def drawn_names(case):
    r = np.random.default_rng(case["seed"])
    return r, ["%s%d" % ("abkz"[int(r.integers(0, 4))], i) for i in r.permutation(3 * case["n"])[:case["n"]]]


@CHECK.clause("shorten_many", many, quick=4)
def shorten_many(case, ctx):
    """The same of up to 130 recordings."""
    r, names = drawn_names(case)
    return shorten({"names": names, "ext": [["csv", "mid", "wav"][int(i)] for i in r.integers(0, 3, len(names))], "again": 1, "blank": False}, ctx)


@CHECK.clause("filter_many", st.tuples(many, st.sampled_from(["giantsteps-mtg-key-dataset", "billboard"])), quick=8)
def filter_many(case, ctx):
    """Filtering of up to 130 recordings."""
    r, names = drawn_names(case[0])
    return filter_({"f": names, "a": [n for n in names if r.random() < .6], "tool": case[1], "dots": case[0]["seed"] % 2 == 1}, ctx)


@CHECK.clause("columns_many", st.tuples(many, st.sampled_from(["cross-era/remove_column.py", "billboard/bothchroma2chroma.py"])), quick=8)
def columns_many(case, ctx):
    """Dropping columns of thousands of rows of numbers."""
    r = np.random.default_rng(case[0]["seed"])
    rows = [["name"] + ["%.6f" % x for x in r.uniform(0, 3, 25)] for _ in range(40 * case[0]["n"])]
    return columns({"rows": rows, "rows2": rows[:3], "tool": case[1], "crlf": False}, ctx)


near = st.lists(st.sampled_from(["song", "song2", "son", "a", "ab", "0", "00", "001"]), max_size=8, unique=True)


@CHECK.clause("filter", st.fixed_dictionaries({"f": stems | near, "a": stems | near, "tool": st.sampled_from(["giantsteps-mtg-key-dataset", "billboard"]),
                                               "dots": st.booleans()}), quick=150, workers=2)
def filter_(case, ctx):
    """Only recordings without an annotation go."""
    with Box() as b:
        os.makedirs(os.path.join(b.d, "features"))
        os.makedirs(os.path.join(b.d, "annotations"))
        for n in case["f"]:
            b.put("features/%s%s.csv" % (n, ".LOFI" if case["dots"] else ""), n)
        for n in case["a"]:
            b.put("annotations/%s.key" % n, n)
        before = b.files()
        r = b.run(case["tool"] + "/filter_confident_files.py")
        need(r.rc == 0, "%s", r.text())
        want = {k: v for k, v in before.items() if k.startswith("annot") or v.decode() in case["a"]}
        need(b.files() == want, "annotations for %s, recordings %s: left are %s", case["a"], case["f"], sorted(b.files()))
    return len(want) < len(before)


field = st.text("abc0123.-e/ ", max_size=5)


@CHECK.clause("columns", st.fixed_dictionaries({
    "rows": st.lists(st.lists(field, min_size=1, max_size=30), max_size=5), "rows2": st.lists(st.lists(field, min_size=2, max_size=4), max_size=3),
    "tool": st.sampled_from(["cross-era/remove_column.py", "billboard/bothchroma2chroma.py"]), "crlf": st.booleans()}), quick=60, workers=2)
def columns(case, ctx):
    """Dropping columns keeps every row and every other number, in every file."""
    with Box() as b:
        nl = "\r\n" if case["crlf"] else "\n"
        want = {}
        for n, rows in (("a.csv", case["rows"]), ("b b.csv", case["rows2"])):
            rows = [r if r != [""] else ["x"] for r in rows]
            b.put(n, "".join(",".join(r) + nl for r in rows))
            keep = [r[1:] if "remove" in case["tool"] else r[1:2] + r[14:] for r in rows]
            want[n] = [",".join(r) for r in keep]
        r = b.run(case["tool"])
        need(r.rc == 0, "%s", r.text())
        got = {k: v.decode().splitlines() for k, v in b.files().items()}
        need(got == want, "%s makes %s of %s", case["tool"], got, case["rows"])
    return bool(case["rows"])


@CHECK.clause("sample", st.one_of(st.integers(0, 40), st.sampled_from([101, 257, 1003, 2511])), quick=20)
def sample(case, ctx):
    """A fifth of the recordings (rounded down) is set apart; every one is on exactly one list."""
    with Box() as b:
        names = ["f%04d" % i for i in range(case)]
        for n in names:
            b.put(n + ".csv", "")
        r = b.run("sample_datapoints.py")
        need(r.rc == 0, "%s", r.text())
        train, test = [], []
        seen = False
        for l in r.out.split("\n"):
            if not l:
                seen = seen or bool(train) or case == 0
            else:
                (test if seen else train).append(l)
        need(len(test) == case // 5 and sorted(train + test) == names, "%d recordings: %d kept, %d set apart", case, len(train), len(test))
        need(len(b.files()) == case, "files changed")
    return case > 4


def bindir(b, *what):
    os.makedirs(os.path.join(b.d, "bin"), exist_ok=True)
    shutil.copy(build.ensure_cached("app!fast"), os.path.join(b.d, "bin", "justkeydding"))


@CHECK.clause("batch", st.fixed_dictionaries({
    "files": st.dictionaries(st.sampled_from(["a.csv", "s/b.csv", "s/my c.csv", "D.CSV", "e.mid", "f_C.csv", "g\\h.csv", "it's.csv", "two  $x.csv", "s/[a].csv", "a.csv.old", "u v/a.csv"]), notes(8), min_size=1, max_size=4),
    "opts": st.sampled_from(["", "-t exponential2", "-M sapp -m temperley", "-e", "-p"])}), quick=25, workers=2)
def batch(case, ctx):
    """A batch run gives every chromagram's name and what the program says about it."""
    with Box() as b:
        bindir(b)
        for n, o in case["files"].items():
            b.put("in/" + n, notes_csv(o) if not n.endswith(".mid") else notes_midi(o))
        r = b.run("batch_processing.sh", "in", case["opts"])
        want = []
        for n in case["files"]:
            if n.lower().endswith(".csv"):
                own = app(ctx, case["opts"].split() + ["-f", "csv", "in/" + n], cwd=b.d)
                want.append("in/%s,%s" % (n, " ".join(own.out.split())))
        need(sorted(r.out.split("\n")[:-1]) == sorted(want), "the batch says %r, the program %s", r.out, want)
    return bool(want)


@CHECK.clause("batch_many", many, quick=2)
def batch_many(case, ctx):
    """A batch run over up to 130 files."""
    r, names = drawn_names(case)
    return batch({"files": {("s/" if r.random() < .5 else "") + n + ".csv": r.integers(0, 12, 4).tolist() for n in names}, "opts": "-t exponential2"}, ctx)


@CHECK.clause("all_batches", notes(6), quick=2)
def all_batches(case, ctx):
    """The sweep runs every combination of two transitions, five major and five minor profiles."""
    with Box() as b:
        bindir(b)
        b.put("in/x_C.csv", notes_csv(case))
        b.put("batch_processing.sh", open(os.path.join(TOOLS, "batch_processing.sh"), "rb").read())
        os.chmod(os.path.join(b.d, "batch_processing.sh"), 0o755)
        os.mkdir(os.path.join(b.d, "results"))
        b.run("all_batches.sh", "in")
        got = {k[8:]: v.decode() for k, v in b.files().items() if k.startswith("results/")}
        kps = ["krumhansl_kessler", "aarden_essen", "sapp", "bellman_budge", "temperley"]
        want = {}
        for t in ("exponential2", "exponential10"):
            for M_ in kps:
                for m in kps:
                    r = app(ctx, ["-t", t, "-M", M_, "-m", m, "-e", "-f", "csv", "in/x_C.csv"], cwd=b.d)
                    want["%s_%s_%s.csv" % (t, M_, m)] = "in/x_C.csv,%s\n" % " ".join(r.out.split())
        need(got == want, "the sweep gives %s", {k: (got.get(k), want.get(k)) for k in set(got) | set(want) if got.get(k) != want.get(k)})
    return True


@CHECK.clause("chromagrams", st.lists(st.sampled_from(["a.wav", "s/b.wav", "my c.wav", "D.WAV", "x.mp3", "g\\h.wav", "it's $x.wav", "u v/[a].wav"]), min_size=1, max_size=2, unique=True), quick=6)
def chromagrams(case, ctx):
    """Every recording gets the extractor's chromagram beside it."""
    import audiogen as AG
    with Box() as b:
        os.makedirs(os.path.join(b.d, "nnls-chroma-1.1"))
        exe = os.path.join(b.d, "nnls-chroma-1.1", "chromaextract")
        shutil.copy(build.ensure_cached("chromaextract!fast"), exe)
        data = {}
        for i, n in enumerate(case):
            data[n] = AG.encode(AG.q15(AG.chord([48 + 3 * i + x for x in (0, 4, 7)], 16000, 9000, 0, .5, 6, 1)).reshape(-1, 1), 16000)
            b.put("in/" + n, data[n])
        r = b.run("batch_chromagram.sh", "in")
        got = {k: v for k, v in b.files().items() if k.startswith("in/")}
        want = {"in/" + n: data[n] for n in case}
        for n in case:
            if n.lower().endswith(".wav"):
                o = subprocess.run([exe, "in/" + n], cwd=b.d, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
                need(o.stdout, "the extractor gives nothing")
                want["in/" + n[:-4] + ".csv"] = o.stdout
        need(got == want, "the folder holds %s, should be %s", {k: len(v) for k, v in got.items()}, {k: len(v) for k, v in want.items()})
        need(sorted(r.out.split("\n")[:-1]) == sorted(k for k in want if k.endswith(".csv")), "printed: %r", r.out)
    return True
