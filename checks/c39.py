import itertools
import re

import numpy as np

from common import *

CHECK = Check(
    "C39",
    "The prototype decoder on drawn models: 1-5 states and 1-4 symbols with drawn names, 0-12 observations, zeros, ties "
    "and unnormalised numbers; every sequence of states tried on small ones.  Non-trivial: two states and two "
    "observations that some sequence explains.",
    components=["viterbistl"],
    assumptions=["Probabilities stay above 1e-200 (the prototype multiplies them directly)."], times=2)
NAMES = ["Healthy", "Fever", "a", "A", "", "long state name", "z9", "B"]

case_ = st.fixed_dictionaries({
    "states": st.lists(st.sampled_from(NAMES), min_size=1, max_size=5, unique=True),
    "symbols": st.lists(st.sampled_from(["normal", "cold", "dizzy", "", "X y"]), min_size=1, max_size=4, unique=True),
    "obs": st.lists(st.integers(0, 99), max_size=12), "seed": st.integers(0, 10 ** 6), "ties": st.booleans(), "zeros": st.sampled_from([0, 0, .2, .5])})


def draw(case):
    r = np.random.default_rng(case["seed"])
    n, m = len(case["states"]), len(case["symbols"])
    f = (lambda *s: r.choice([.5, .25, .1, 1.0], s)) if case["ties"] else (lambda *s: r.uniform(.01, 1, s))
    s, t, e = f(n), f(n, n), f(n, m)
    for x in (s, t, e):
        x *= r.random(x.shape) >= case["zeros"]
    return s, t, e, [o % m for o in case["obs"]]


def ask(ctx, case, s, t, e, o):
    n, m = e.shape
    args = [n, m] + case["states"] + case["symbols"]
    for x in (s, t.ravel(), e.ravel()):
        args += [len(x)] + list(map(float, x))
    out = ctx.bridge("viterbistl").call("forward", *args, len(o), list(map(int, o)))[0]
    return parse(out)


def parse(out):
    m = re.search(r"Total probability of the observation sequence: (\S+)\nProbability of the Viterbi path: (\S+)\n"
                  r"The Viterbi path: \n((?:VState: .*\n)*)", out)
    need(m, "the answer is %r", out)
    return float(m.group(1)), float(m.group(2)), [x[8:] for x in m.group(3).split("\n")[:-1]]


def judge(got, want_total, want_best, value, case):
    """value: the probability of a path of state numbers."""
    total, best, path = got
    close = lambda a, b: abs(a - b) <= 1e-9 * abs(b)
    need(close(total, want_total), "the total is %.12g, should be %.12g", total, want_total)
    need(close(best, want_best), "the best path has %.12g, should have %.12g", best, want_best)
    if want_best == 0:
        need(path == [], "a path %s although nothing is possible", path)
        return False
    v = value([case["states"].index(x) for x in path]) if all(x in case["states"] for x in path) else -1
    need(close(v, want_best), "the path %s has %.12g, the best %.12g", path, v, want_best)
    return len(case["states"]) > 1 and len(case["obs"]) > 1


@CHECK.clause("exact", case_, quick=1500, workers=2)
def exact(case, ctx):
    """The total is the sum, the best the maximum over all sequences, and the path reported has that probability."""
    s, t, e, o = draw(case)
    a, b = s.copy(), s.copy()
    for x in o:
        w = e[:, x][:, None] * t
        a, b = a @ w, (b[:, None] * w).max(axis=0)

    def value(p):
        if len(p) != len(o) + 1:
            return -1
        v = s[p[0]]
        for i, x in enumerate(o):
            v *= e[p[i], x] * t[p[i], p[i + 1]]
        return v

    got = ask(ctx, case, s, t, e, o)
    judge(got, a.sum(), b.max(), value, case)
    if len(case["states"]) ** (len(o) + 1) <= 300:
        vals = [value(p) for p in itertools.product(range(len(s)), repeat=len(o) + 1)]
        return judge(got, sum(vals), max(vals), value, case)
    return b.max() > 0 and len(s) > 1 and len(o) > 1


@CHECK.clause("long", st.fixed_dictionaries({"n": st.sampled_from([2, 3, 5, 24, 40]), "m": st.sampled_from([2, 4, 12, 60]), "length": st.sampled_from([30, 64, 100, 257, 500]),
                                              "seed": st.integers(0, 10 ** 6), "ties": st.booleans()}), quick=60)
def long_(case, ctx):
    """The same of up to 40 states, 60 symbols and 500 observations."""
    r = np.random.default_rng(case["seed"])
    n, m = case["n"], case["m"]
    f = (lambda *z: r.choice([.5, .75, 1.0], z)) if case["ties"] else (lambda *z: r.uniform(.5, 1, z))
    s, t, e, o = f(n), f(n, n), f(n, m), r.integers(0, m, case["length"]).tolist()
    t /= t.sum(axis=0).max()
    big = {"states": ["s%d" % i for i in range(n)], "symbols": ["o%d" % i for i in range(m)], "obs": o}
    a, b = s.copy(), s.copy()
    # t is scaled back up where the best path lives, so that it stays far from the smallest doubles
    t *= min(1 / t.max(), 3.)
    for x in o:
        w = e[:, x][:, None] * t
        a, b = a @ w, (b[:, None] * w).max(axis=0)
    if not (1e-200 < b.max() and a.sum() < 1e200):
        raise Discard("too large or too small for doubles")
    got = ask(ctx, big, s, t, e, o)

    def value(p):
        if len(p) != len(o) + 1:
            return -1
        v = s[p[0]]
        for i, x in enumerate(o):
            v *= e[p[i], x] * t[p[i], p[i + 1]]
        return v

    return judge(got, a.sum(), b.max(), value, big)


@CHECK.clause("repeat", st.lists(case_, min_size=2, max_size=3), quick=100)
def repeat(case, ctx):
    """Work on other models in between changes nothing."""
    first = [ask(ctx, c, *draw(c)) for c in case]
    again = [ask(ctx, c, *draw(c)) for c in reversed(case)][::-1]
    need(first == again, "the answers change from %s to %s", first, again)
    return any(c["obs"] for c in case)


@CHECK.clause("example", st.just(0), quick=2)
def example(case, ctx):
    """The program's answer to its own example follows from the numbers it lists."""
    r = ctx.fresh_bridge("viterbistl").call("main")
    need(r[0] == 0, "it ends with %s", r[0])
    states = re.findall(r"^S: (\S+)$", r[1], re.M)
    obs = re.findall(r"^O: (\S+)$", r[1], re.M)
    start = {a: float(p) for a, p in re.findall(r"^S: (\S+) P: (\S+)$", r[1], re.M)}
    trans = {(a, b): float(p) for a, b, p in re.findall(r"^FS: (\S+) TS: (\S+) P: (\S+)$", r[1], re.M)}
    emit = {(a, b): float(p) for a, b, p in re.findall(r"^FS: (\S+) TO: (\S+) P: (\S+)$", r[1], re.M)}
    need(states and obs and set(start) == set(states) and len(trans) == len(states) ** 2 and len(emit) == len(states) * len(obs),
         "it lists %s", r[1])

    def value(p):
        v = start[p[0]]
        for i, x in enumerate(obs):
            v *= emit[p[i], x] * trans[p[i], p[i + 1]]
        return v

    vals = {p: value(p) for p in itertools.product(states, repeat=len(obs) + 1)}
    total, best, path = parse(r[1])
    need(abs(total - sum(vals.values())) <= 2e-6 * total and abs(best - max(vals.values())) <= 2e-6 * best and
         abs(vals.get(tuple(path), 0) - best) <= 2e-6 * best, "it answers %s, %s, %s", total, best, path)
    return True
