"""Generated hidden Markov models and their observations."""
import numpy as np

from common import *

POOL = [1.0, 0.5, 0.25, 0.125, 0.1, 0.01, 0.2, 0.05, 1e-8]
# spread over many magnitudes: the exponential tables go down to 1e-12
prob = st.one_of(st.floats(1e-6, 1.0), st.sampled_from(POOL), st.floats(-14, 0).map(lambda e: 10.0 ** e))
prob0 = st.one_of(prob, prob, prob, st.just(0.0))


@st.composite
def model(draw, max_states=24, max_obs=30, zeros=False, min_states=1, min_obs=1):
    kind = draw(st.integers(0, 1))
    nsym_max = 12 if kind == 0 else 24
    n = draw(st.one_of(st.integers(min_states, min(4, max_states)), st.integers(min_states, max_states)))
    states = draw(st.lists(st.integers(0, 23), min_size=n, max_size=n, unique=True))
    nsym = draw(st.integers(1, nsym_max))
    p = prob0 if zeros else prob
    if draw(st.integers(0, 4)) == 0:  # a model need not be normalised
        p = st.one_of(p, st.sampled_from([2.0, 9.0, 1.5, 256.0, 1e8]))
    style = draw(st.integers(0, 2))
    if style == 0:      # few distinct values: ties abound
        vals = draw(st.lists(p, min_size=1, max_size=3))
        pick = st.sampled_from(vals)
    else:
        pick = p
    init = draw(st.lists(pick, min_size=n, max_size=n))
    trans = draw(st.lists(st.lists(pick, min_size=n, max_size=n), min_size=n, max_size=n))
    emit = draw(st.lists(st.lists(pick, min_size=nsym, max_size=nsym), min_size=n, max_size=n))
    obs = draw(st.lists(st.integers(0, nsym - 1), min_size=min_obs, max_size=max_obs))
    return {"kind": kind, "states": states, "init": init, "trans": trans, "emit": emit, "nsym": nsym, "obs": obs}


def args(m):
    return [m["kind"], len(m["states"])] + m["states"] + [float(x) for x in m["init"]] + \
        [float(x) for r in m["trans"] for x in r] + [m["nsym"]] + \
        [float(x) for r in m["emit"] for x in r] + [len(m["obs"])] + m["obs"]


def parse(r, i=0):
    d = {"status": r[i]}
    n = r[i + 1]
    d["path"] = r[i + 2:i + 2 + n]
    i += 2 + n
    d["max"] = r[i]
    n = r[i + 1]
    d["vec"] = r[i + 2:i + 2 + n]
    d["_end"] = i + 2 + n
    return d


READY, UNINIT = 8, 7


def oracle(m):
    return M.viterbi(m["init"], m["trans"], m["emit"], m["obs"])


def verify(m, d, tag=""):
    """The decoding contract: ready, one key per observation, a path of the claimed and maximal
    probability, and the final log scores of every state."""
    st_ = m["states"]
    v, path, margin = oracle(m)
    best = max(v)
    need(d["status"] == READY, "%sstatus %s", tag, d["status"])
    need(len(d["path"]) == len(m["obs"]), "%s%d keys for %d observations", tag, len(d["path"]), len(m["obs"]))
    need(all(k in st_ for k in d["path"]), "%sa key that is not a state: %s", tag, d["path"])
    need(M.close(d["max"], best), "%smaximum %r, expected %r", tag, d["max"], best)
    idx = [st_.index(k) for k in d["path"]]
    lp = M.path_logprob(m["init"], m["trans"], m["emit"], m["obs"], idx)
    need(M.close(lp, best), "%sthe path has log-probability %r, the best %r", tag, lp, best)
    need(len(d["vec"]) == 24, "%s%d scores", tag, len(d["vec"]))
    for j, s in enumerate(st_):
        need(M.close(d["vec"][s], v[j]), "%sscore of state %d is %r, expected %r", tag, s, d["vec"][s], v[j])
    return margin


large = st.fixed_dictionaries({"kind": st.integers(0, 1), "n": st.integers(2, 24), "nsym": st.integers(2, 12), "obs": st.integers(20, 500),
                               "seed": st.integers(0, 10 ** 6), "sticky": st.integers(0, 40)})


def grow(c, zeros=0.0):
    """The large model a short description stands for; now and then an entry is zero."""
    r = np.random.default_rng(c["seed"])
    n, k = c["n"], c["nsym"]
    z = lambda a: np.where(r.random(a.shape) < zeros, 0.0, a)
    tr = z(r.uniform(.01, 1, (n, n)) + c["sticky"] * np.eye(n))
    return {"kind": c["kind"], "states": [int(x) for x in r.permutation(24)[:n]], "init": z(r.uniform(.01, 1, n)).tolist(),
            "trans": (tr / np.maximum(tr.sum(axis=1, keepdims=True), 1e-9)).tolist(), "emit": z(10 ** r.uniform(-2, 0, (n, k))).tolist(),
            "nsym": k, "obs": r.integers(0, k, c["obs"]).tolist()}
