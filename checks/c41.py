import os

os.environ["GLIBC_TUNABLES"] = "glibc.malloc.tcache_count=0"  # (so that the allocator's count is exact)

from bridge import RemoteException

import appgen
import audiogen
import c23
import hmmgen
import nnlsgen
from c16 import raw, tracks
from c40 import step
from common import *

np = nnlsgen.np

CHECK = Check(
    "C41",
    "The same work done over and over in one process: chromagram files, recordings and MIDI files (good, damaged, missing), "
    "models decoded, plugins of the three kinds made, used and destroyed directly and through the library's C interface, or "
    "used and reset, numerical routines.  Allocated bytes and open files are counted after each repetition.  Non-trivial: the "
    "work succeeded, or the input is damaged.",
    components=["chroma!fast", "core!fast", "midi!fast", "nnls!fast", "vamplib!fast"],
    assumptions=["Memory is what glibc's allocator has handed out; what a first use sets up for good is not counted."])
WARM, REPEAT = 3, 6


def nothing_left(b, work, what):
    """Does the work again and again; what is held must not grow with it."""
    held = []
    for k in range(WARM + REPEAT):
        work()
        if k >= WARM - 1:
            held.append(b.call("holdings"))
    mem, files = [h[0] for h in held], [h[1] for h in held]
    # (one buffer may grow once; something left behind grows every time)
    if all(y > x for x, y in zip(mem[1:], mem[2:])) or mem[-1] - mem[1] > 100000:
        # a growing table doubles ever more seldom; ask again, longer
        for k in range(2 * REPEAT):
            work()
            mem.append(b.call("holdings")[0])
        need(not all(y > x for x, y in zip(mem[-REPEAT:], mem[-REPEAT + 1:])), "%s: the bytes held are %s", what, mem)
        need(mem[-1] - mem[2] < 1000 * (len(mem) - 3), "%s: the bytes held are %s", what, mem)
    need(files[-1] <= files[0], "%s: the open files are %s", what, files)


def quietly(b, *a):
    try:
        return b.call(*a, timeout=120)
    except RemoteException:
        return None


@CHECK.clause("chromagrams", st.fixed_dictionaries({
    "rows": audiogen.frames(6), "how": st.sampled_from(["good", "good", "token", "cut", "bytes", "missing", "empty"]),
    "at": st.integers(0, 80), "n": st.integers(1, 2)}), quick=150)
def chromagrams(case, ctx):
    b = ctx.bridge("chroma!fast")
    toks = audiogen.tokens(audiogen.resolve(case["rows"]), 0)
    if case["how"] == "token" and toks:
        toks[case["at"] % len(toks)][case["at"] % 13] = "x"
    d = audiogen.text(toks).encode()
    if case["how"] == "cut":
        d = d[:case["at"] % (len(d) + 1)]
    elif case["how"] == "bytes":
        d = np.random.default_rng(case["at"]).integers(0, 256, case["at"]).astype(np.uint8).tobytes()
    elif case["how"] == "empty":
        d = b""
    p = audiogen.write(ctx, d, "c.csv") if case["how"] != "missing" else "/nonexistent/c.csv"
    status = []

    def work():
        for k in range(case["n"]):
            status.append(quietly(b, "load", k, 0, p, 0))
            quietly(b, "show", k)
            quietly(b, "copy", k, 3 - k)
            quietly(b, "seq", 3 - k)
    nothing_left(b, work, "chromagram files")
    return case["how"] != "good" or bool(toks)


@CHECK.clause("recordings", st.fixed_dictionaries({
    "piece": audiogen.piece(1), "kind": st.sampled_from(audiogen.KINDS), "ch": st.integers(1, 3),
    "how": st.sampled_from(["good", "good", "cut", "edit", "noise", "missing", "empty"]), "at": st.integers(0, 5000),
    "edits": st.lists(st.tuples(st.integers(0, 90), st.integers(0, 255)).map(list), min_size=1, max_size=4)}), quick=60, workers=3)
def recordings(case, ctx):
    b = ctx.bridge("chroma!fast")
    x = audiogen.render(case["piece"])[:9000].reshape(-1, 1)
    how = case["how"]
    d = bytearray(audiogen.encode(np.repeat(x[:0] if how == "empty" else x, case["ch"], axis=1), case["piece"]["sr"], case["kind"]))
    if how == "cut":
        d = d[:case["at"] % (len(d) + 1)]
    elif how == "noise":
        d = np.random.default_rng(case["at"]).integers(0, 256, case["at"]).astype(np.uint8).tobytes()
    elif how == "edit":
        for p, v in case["edits"]:
            if p < len(d) and not 22 <= p < 34:
                d[p] = v
    p = audiogen.write(ctx, bytes(d), "a" + audiogen.EXT.get(case["kind"], ".wav")) if how != "missing" else "/nonexistent/a.wav"

    def work():
        quietly(b, "load", 0, 1, p, 0)
        quietly(b, "seq", 0)
    nothing_left(b, work, "recordings (%s)" % how)
    return True


@CHECK.clause("midi", st.fixed_dictionaries({"tracks": tracks, "how": st.sampled_from(["good", "good", "cut", "missing"]),
                                             "at": st.integers(0, 300)}), quick=100)
def midi(case, ctx):
    b = ctx.bridge("midi!fast")
    d = appgen.smf([[(t, raw(e)) for t, e in tr] for tr in case["tracks"]], False)
    if case["how"] == "cut":
        d = d[:case["at"] % (len(d) + 1)]
    p = appgen.write(ctx, d, "m.mid") if case["how"] != "missing" else "/nonexistent/m.mid"
    nothing_left(b, lambda: quietly(b, "midi", p, 2), "MIDI files")
    return True


@CHECK.clause("models", st.fixed_dictionaries({
    "m": hmmgen.model(max_states=6, max_obs=12, zeros=True, min_obs=0), "runs": st.integers(1, 3),
    "notes": st.lists(st.integers(0, 11), min_size=1, max_size=12), "keys": st.lists(st.text("abcdefgABCDEFG#bxyz", max_size=3), max_size=3),
    "kt": st.sampled_from(["linear", "exponential2", "exponential10", "none"]), "again": st.booleans()}), quick=90, workers=2)
def models(case, ctx):
    b = ctx.bridge("core!fast")

    def work():
        if not case["again"]:
            b.call("hmm_new", 0, *hmmgen.args(case["m"]))
        for _ in range(case["runs"]):
            quietly(b, "hmm_run", 0)
        quietly(b, "hmm_copy", 0, 1)
        quietly(b, "hmm_print", 0)
        if case["kt"] != "none":
            quietly(b, "detect", "temperley", "sapp", case["kt"], [0.0] * 12, [0.0] * 12, [0.0] * 24, len(case["notes"]), case["notes"])
        for k in case["keys"]:
            quietly(b, "key_str", 0, k)
    b.call("hmm_new", 0, *hmmgen.args(case["m"]))
    nothing_left(b, work, "models")
    return len(case["m"]["obs"]) > 1


def plugin(case, ctx, component):
    kind, p = case["kind"], case["p"]
    f = c23.frames(case["m"], 2048, 11025)
    b = ctx.bridge(component)
    keep = [None]

    def make():
        return nnlsgen.Plug(ctx, kind, 11025, 2048, slot=2, params=c23.usable(kind, p), component=component, query=case["query"])

    def work():
        if case["how"] == "reset":
            keep[0] = keep[0] or make()
        else:
            keep[0] = make()
        pl = keep[0]
        if case["how"] != "unused":
            pl.feed(f, .5, .25)
        if case["how"] != "unfinished":
            pl.finish()
        if case["how"] == "reset" or case["how"] == "unfinished":
            pl.reset()
        if case["how"] != "reset":
            b.call("drop", 2)
    nothing_left(b, work, "%s (%s)" % (kind, case["how"]))
    if case["how"] == "reset":
        b.call("drop", 2)
    return len(f) > 0


life = st.fixed_dictionaries({"kind": st.sampled_from(c23.KINDS), "p": c23.params, "m": c23.music, "query": st.booleans(),
                              "how": st.sampled_from(["whole", "whole", "reset", "reset", "unfinished", "unused"])})


@CHECK.clause("plugins", life, quick=120, workers=3)
def plugins(case, ctx):
    return plugin(case, ctx, "nnls!fast")


@CHECK.clause("library", life, quick=60, workers=2)
def library(case, ctx):
    return plugin(case, ctx, "vamplib!fast")


@CHECK.clause("numerics", st.fixed_dictionaries({
    "m": st.integers(1, 12), "n": st.integers(1, 8), "ns": st.integers(1, 4), "nf": st.integers(1, 12), "seed": st.integers(0, 10 ** 6),
    "zeros": st.booleans(), "dict": st.sampled_from(["", "\n"] + ["X = 1,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0,1,0,0,1,0,0,0,0\n"] * 2)}), quick=60)
def numerics(case, ctx):
    b = ctx.bridge("nnls!fast")
    r = np.random.default_rng(case["seed"])
    m, n, ns, nf = case["m"], case["n"], case["ns"], case["nf"]
    v = r.uniform(0, 1, m * n + m)
    h = r.uniform(.01, 1, ns + ns * ns + ns * nf)
    if case["zeros"]:
        h[ns + r.integers(0, len(h) - ns)] = 0
    pa, pb, out = nnlsgen.put(ctx, v, "a.bin"), nnlsgen.put(ctx, h, "h.bin", "<f8"), nnlsgen.fpath(ctx, "out.bin")
    os.makedirs(nnlsgen.fpath(ctx, "vamp"), exist_ok=True)
    with open(nnlsgen.fpath(ctx, "vamp/chord.dict"), "w") as f:
        f.write(case["dict"])

    def work():
        quietly(b, "nnls", m, n, pa, out)
        quietly(b, "viterbi", ns, nf, pb, out)
        quietly(b, "chorddict", .1, case["seed"] % 2, nnlsgen.fpath(ctx, "vamp") if case["dict"] else "/nonexistent", out)
        quietly(b, "notedict", .7, out)
        quietly(b, "logfreq", 8000, 256, out)
    nothing_left(b, work, "numerical routines")
    return True
