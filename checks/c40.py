import re

from c23 import DEFAULTS, KINDS, OF, dump, frames, music, params, usable
from nnlsgen import *

CHECK = Check(
    "C40",
    "The plugin library through its C interface: every listing asked in any order, histories of up to 12 steps over up to "
    "four plugins created, configured, fed, finished, reset and destroyed in any order, against plugins used directly.  "
    "Non-trivial: two plugins lived at once and one gave features, or several entries were listed.",
    components=["vamplib", "vamplib!fast", "nnls!fast"],
    assumptions=["The Vamp SDK's own adapter is trusted."])
IDS = {"nnls-chroma": "chroma", "chordino": "chordino", "tuning": "tuning"}


def entry(ctx, version, index):
    """A descriptor as a dictionary, or None."""
    r = ctx.bridge("vamplib").call("library", version, index)
    if not r[0]:
        return None
    d = dict(zip(("api", "id", "name", "description", "maker", "version", "copyright", "freq", "programs"), r[1:10]))
    d["params"] = {}
    i = 11
    for _ in range(r[10]):
        n = r[i + 7]
        d["params"][r[i]] = dict(zip(("name", "lo", "hi", "default", "quantized", "step"), r[i + 1:i + 7]), values=r[i + 8:i + 8 + n])
        i += 8 + n
    return d


@CHECK.clause("listing", st.lists(st.tuples(st.integers(0, 4), st.one_of(st.integers(0, 4), st.sampled_from([5, 17, 255, 65536, 2 ** 31 - 1, -1, -2]))),
                                  min_size=1, max_size=12), quick=200)
def listing(case, ctx):
    """Three plugins, each under one index whenever it is asked, and nothing behind them."""
    seen = {}
    for v, i in case + [(2, 0), (2, 1), (2, 2), (2, 3), (1, 0), (0, 0)]:
        d = entry(ctx, v, i)
        need((d is not None) == (v >= 1 and 0 <= i < 3), "entry %d for a host of version %d: %s", i, v, d and d["id"])
        if d is None:
            continue
        need(seen.setdefault(i, d) == d, "entry %d changes from %s to %s", i, seen[i], d)
    need(sorted(d["id"] for d in seen.values()) == sorted(IDS), "the library lists %s", [d["id"] for d in seen.values()])
    for d in seen.values():
        need(d["freq"] == 1 and d["programs"] == 0 and d["api"] == 2, "%s: %s", d["id"], d)
        need(all(d[k] and d[k] != "(null)" for k in ("name", "description", "maker", "copyright")), "%s describes itself as %s", d["id"], d)
        need(sorted(d["params"]) == sorted(OF[IDS[d["id"]]]), "%s has parameters %s", d["id"], sorted(d["params"]))
        for k, p in d["params"].items():
            need(re.fullmatch(r"[A-Za-z0-9_-]+", k) and p["name"], "%s: %s %s", d["id"], k, p)
            need(np.allclose([p["lo"], p["hi"], p["default"]], DEFAULTS[k]), "%s: %s goes from %s to %s, default %s", d["id"], k,
                 p["lo"], p["hi"], p["default"])
            if p["quantized"]:
                steps = (p["hi"] - p["lo"]) / p["step"]
                need(abs(steps - round(steps)) < 1e-4, "%s: %s in steps of %s from %s to %s", d["id"], k, p["step"], p["lo"], p["hi"])
                need(len(p["values"]) in (0, round(steps) + 1), "%s: %s has %d named values for %d steps", d["id"], k, len(p["values"]), steps)
    return len(seen) > 2 and len(case) > 1


step = st.one_of(
    st.fixed_dictionaries({"do": st.just("new"), "slot": st.integers(0, 3), "kind": st.sampled_from(KINDS), "p": params}),
    st.fixed_dictionaries({"do": st.just("feed"), "slot": st.integers(0, 3), "m": music}),
    st.fixed_dictionaries({"do": st.just("feed"), "slot": st.integers(0, 3), "m": music}),
    st.fixed_dictionaries({"do": st.sampled_from(["finish", "finish", "reset", "drop"]), "slot": st.integers(0, 3)}))


@CHECK.clause("histories", st.lists(step, min_size=2, max_size=12), quick=400, workers=4)
def histories(case, ctx):
    """Every plugin of the library answers as one used directly and alone does."""
    live = {}
    busy = both = 0
    for n, s in enumerate([{"do": "new", "slot": 0, "kind": KINDS[len(case) % 3], "p": {}}] + case +
                          [{"do": "finish", "slot": k} for k in range(4)]):
        k = s["slot"]
        if s["do"] == "new":
            live[k] = {"pl": Plug(ctx, s["kind"], 11025, 2048, slot=k, params=usable(s["kind"], s["p"]), component="vamplib!fast"),
                       "kind": s["kind"], "p": s["p"], "fed": [], "got": [], "done": False}
            both = max(both, len(live))
            continue
        if k not in live:
            continue
        l = live[k]
        if s["do"] == "feed" and not l["done"]:
            f = frames(s["m"], 2048, 11025)
            l["got"] += l["pl"].feed(f, .5 + .25 * sum(map(len, l["fed"])), .25)
            l["fed"].append(f)
        elif s["do"] == "reset":
            l["pl"].reset()
            l["fed"], l["got"], l["done"] = [], [], False
        elif s["do"] == "drop":
            ctx.bridge("vamplib!fast").call("drop", k)
            del live[k]
        elif s["do"] == "finish" and not l["done"]:
            l["got"].append(l["pl"].finish())
            l["done"] = True
            own = Plug(ctx, l["kind"], 11025, 2048, params=usable(l["kind"], l["p"]))
            want = own.feed(np.concatenate(l["fed"]), .5, .25) if l["fed"] else []
            want.append(own.finish())
            a, b = (dump([{o: v for o, v in x.items() if v} for x in y]) for y in (l["got"], want))
            need(a == b, "%s with %s answers otherwise through the library", l["kind"], l["p"])
            busy += any(a)
    return busy > 0 and both > 1


lengthy = st.lists(step, min_size=20, max_size=60)


@CHECK.clause("long_histories", lengthy, quick=16, workers=2)
def long_histories(case, ctx):
    """Also after many more steps."""
    return histories(case, ctx)


@CHECK.clause("shape", st.tuples(st.sampled_from(KINDS), st.sampled_from([8000, 22050, 44100, 96000]), st.sampled_from([512, 2048]),
                                 st.integers(0, 4)), quick=40)
def shape(case, ctx):
    """Block sizes, channels and outputs are those of the plugin itself."""
    kind, rate, hop, ch = case
    a, b = ctx.bridge("vamplib"), ctx.bridge("nnls!fast")
    need(a.call("new", 0, kind, float(rate)) == b.call("new", 0, kind, float(rate)), "preferred sizes differ")
    need(a.call("channels", 0) == [1, 1], "takes %s channels", a.call("channels", 0))
    i = [x.call("init", 0, ch, hop, 1024)[0] for x in (a, b)]
    need((i[0] == 1) == (ch == 1), "initialise with %d channels says %d", ch, i[0])
    if ch == 1:
        need(a.call("outs", 0) == b.call("outs", 0), "the outputs of %s are listed otherwise", kind)
        for k in OF[kind]:
            x, y = a.call("get", 0, k)[0], b.call("get", 0, k)[0]
            need(x == y, "%s: %s starts at %s, should be %s", kind, k, x, y)
            v = float(DEFAULTS[k][1])
            a.call("set", 0, k, v)
            need(abs(a.call("get", 0, k)[0] - v) < 1e-6, "%s: %s was set to %s, is %s", kind, k, v, a.call("get", 0, k)[0])
    return ch == 1


FIELDS = ("id", "name", "unit", "fixed", "bins", "names", "extents", "lo", "hi", "quantized", "step", "type", "rate", "duration")


@CHECK.clause("promises", st.fixed_dictionaries({
    "kind": st.sampled_from(KINDS), "p": params, "m": music, "rate": st.sampled_from([11025, 16000, 22050]), "hop": st.sampled_from([512, 1024, 2048]),
    "lib": st.booleans()}), quick=200, workers=2)
def promises(case, ctx):
    """Features are what their output is described as: so many values, within the stated range and steps, with
    durations or without, at the stated rate."""
    rate, hop = case["rate"], case["hop"]
    pl = Plug(ctx, case["kind"], rate, 2048, step=hop, params=usable(case["kind"], case["p"]), component="vamplib!fast" if case["lib"] else "nnls!fast")
    r = pl.b.call("describe", 0)
    outs = {r[1 + 14 * k]: dict(zip(FIELDS, r[1 + 14 * k:15 + 14 * k])) for k in range(r[0])}
    need(len(outs) == r[0] and all(re.fullmatch(r"[A-Za-z0-9_-]+", k) and o["name"] for k, o in outs.items()), "outputs %s", list(outs))
    sets = pl.feed(np.repeat(frames(case["m"], 2048, rate), 6, axis=0), .5, hop / rate)
    last = pl.finish()
    live = False
    for name, o in outs.items():
        need(o["type"] in (0, 1, 2), "%s has sample type %s", name, o["type"])
        if o["type"] == 1:
            need(abs(o["rate"] - rate / hop) < 1e-3, "%s comes %s times a second, steps %s times", name, o["rate"], rate / hop)
        if o["quantized"]:
            need(o["step"] > 0, "%s is in steps of %s", name, o["step"])
        need(o["names"] in (0, o["bins"]), "%s has %d bins, %d names", name, o["bins"], o["names"])
        if "tuning" in name:
            need(o["unit"] == "Hz", "%s is in %r", name, o["unit"])
        end = last[name]
        need(not end or o["type"] != 0, "%s comes at the end and has no times of its own", name)
        feats = [f for s in sets for f in s.get(pl.outs[name], [])] + end
        for f in feats:
            need(not o["fixed"] or len(f.v) == o["bins"], "%s has %d values, says %d", name, len(f.v), o["bins"])
            if o["extents"]:
                need(all(o["lo"] - .01 <= x <= o["hi"] + .01 for x in f.v), "%s is %s, says %s to %s", name, f.v, o["lo"], o["hi"])
            if o["quantized"]:
                need(np.allclose(f.v / o["step"], np.round(f.v / o["step"])), "%s is %s in steps of %s", name, f.v, o["step"])
            need(o["duration"] or f.dur is None, "%s lasts %s, says it has no duration", name, f.dur)
            need(o["type"] != 2 or f.t is not None, "%s has no time", name)
            live = True
        if o["type"] == 1:
            t = [f.t for f in feats if f.t is not None]
            need(all(abs(b - a - 1 / o["rate"]) < 1e-6 or name == "logfreqspec" for a, b in zip(t, t[1:])), "%s is at %s", name, t)
    return live and len(case["m"]) > 1
