"""Reference model: what the detector is specified to compute, written independently of /repo."""
import math

import numpy as np

np.seterr(all="ignore")

LETTER = {"c": 0, "d": 2, "e": 4, "f": 5, "g": 7, "a": 9, "b": 11}
PC_NAMES = ["c", "c#", "d", "eb", "e", "f", "f#", "g", "ab", "a", "bb", "b"]
KEY_NAMES = ["C", "Db", "D", "Eb", "E", "F", "F#", "G", "Ab", "A", "Bb", "B",
             "c", "c#", "d", "eb", "e", "f", "f#", "g", "ab", "a", "bb", "b"]


def spelled_pc(s):
    """Pitch class of a spelled note: letter, optionally one sharp or flat."""
    pc = LETTER[s[0].lower()]
    if len(s) == 2:
        pc += {"#": 1, "b": -1}[s[1]]
    return pc % 12


SPELLED = [l + a for l in "cdefgab" for a in ("", "#", "b")]
KEY_SPELLINGS = {}
for _s in SPELLED:
    KEY_SPELLINGS[_s] = 12 + spelled_pc(_s)
    KEY_SPELLINGS[_s[0].upper() + _s[1:]] = spelled_pc(_s)
PC_SPELLINGS = {_s: spelled_pc(_s) for _s in SPELLED}


def relative(k):
    return (k + 9) % 12 + 12 if k < 12 else (k - 12 + 3) % 12


def parallel(k):
    return (k + 12) % 24


def fifth(k, n=1):
    return (k % 12 + 7 * n) % 12 + (k // 12) * 12


def transpose_key(k, n):
    return (k % 12 + n) % 12 + (k // 12) * 12


# Closeness rank of each key to C major (1 = itself ... 9 = remotest): major targets then minor.
RANK = [1, 6, 4, 4, 5, 2, 9, 2, 5, 4, 4, 6,
        2, 8, 3, 7, 3, 3, 7, 3, 8, 2, 5, 5]


def _norm(v):
    s = float(sum(v))
    return [x / s for x in v]


TRANSITIONS = {
    "linear": _norm([10 - r for r in RANK]),
    "exponential2": _norm([2.0 ** (9 - r) for r in RANK]),
    "exponential10": _norm([10.0 ** (9 - r) for r in RANK]),
    "zero": [1.0] + [0.0] * 23,
    "symmetrical": [1 / 24.0] * 24,
    "heatmap": [float(r) for r in RANK],
}


def rank_between(a, b):
    """Closeness rank of key b seen from key a (symmetric)."""
    if a < 12:
        return RANK[(b - a) % 12 + (12 if b >= 12 else 0)]
    if b < 12:
        return rank_between(b, a)
    return RANK[(b - a) % 12]


# The published key profiles: Krumhansl-Kessler probe-tone ratings and Aarden-Essen continuity
# weights (normalised), Sapp's simple weights, Bellman-Budge, Temperley's Kostka-Payne and
# Albrecht-Shanahan frequencies.
_KK_M = [6.35, 2.23, 3.48, 2.33, 4.38, 4.09, 2.52, 5.19, 2.39, 3.66, 2.29, 2.88]
_KK_m = [6.33, 2.68, 3.52, 5.38, 2.60, 3.53, 2.54, 4.75, 3.98, 2.69, 3.34, 3.17]
_AE_M = [17.7661, 0.145624, 14.9265, 0.160186, 19.8049, 11.3587, 0.291248, 22.062, 0.145624,
         8.15494, 0.232998, 4.95122]
_AE_m = [18.2648, 0.737619, 14.0499, 16.8599, 0.702494, 14.4362, 0.702494, 18.6161, 4.56621,
         1.93186, 7.37619, 1.75623]
_SAPP_M = [2, 0, 1, 0, 1, 1, 0, 2, 0, 1, 0, 1]
_SAPP_m = [2, 0, 1, 1, 0, 1, 0, 2, 1, 0, 0.5, 0.5]
_BB_M = [16.80, 0.86, 12.95, 1.41, 13.49, 11.93, 1.25, 20.28, 1.80, 8.04, 0.62, 10.57]
_BB_m = [18.16, 0.69, 12.99, 13.34, 1.07, 11.15, 1.38, 21.07, 7.49, 1.53, 0.92, 10.21]
_TK_M = [0.748, 0.060, 0.488, 0.082, 0.670, 0.460, 0.096, 0.715, 0.104, 0.366, 0.057, 0.400]
_TK_m = [0.712, 0.084, 0.474, 0.618, 0.049, 0.460, 0.105, 0.747, 0.404, 0.067, 0.133, 0.330]
PROFILES_MAJOR = {
    "krumhansl_kessler": _norm(_KK_M), "aarden_essen": _norm(_AE_M), "sapp": _norm(_SAPP_M),
    "bellman_budge": _norm(_BB_M), "temperley": _norm(_TK_M),
    "albrecht_shanahan1": [0.238, 0.006, 0.111, 0.006, 0.137, 0.094, 0.016, 0.214, 0.009, 0.080,
                           0.008, 0.081],
    "albrecht_shanahan2": [0.21169, 0.00892766, 0.120448, 0.0100265, 0.131444, 0.0911768,
                           0.0215947, 0.204703, 0.012894, 0.0900445, 0.012617, 0.0844338],
}
PROFILES_MINOR = {
    "krumhansl_kessler": _norm(_KK_m), "aarden_essen": _norm(_AE_m), "sapp": _norm(_SAPP_m),
    "bellman_budge": _norm(_BB_m), "temperley": _norm(_TK_m),
    "albrecht_shanahan1": [0.220, 0.006, 0.104, 0.123, 0.019, 0.103, 0.012, 0.214, 0.062, 0.022,
                           0.061, 0.052],
    "albrecht_shanahan2": [0.201933, 0.009335, 0.107284, 0.124169, 0.0199224, 0.108324, 0.014314,
                           0.202699, 0.0653907, 0.0252515, 0.071959, 0.049419],
    "simple_natural_minor": _norm([2, 0, 1, 1, 0, 1, 0, 2, 1, 0, 1, 0]),
    "simple_harmonic_minor": _norm([2, 0, 1, 1, 0, 1, 0, 2, 1, 0, 0, 1]),
    "simple_melodic_minor": _norm([2, 0, 1, 1, 0, 1, 0, 2, .5, .5, .5, .5]),
}


def profile_map(major, minor):
    """24 x 12 emission table."""
    m = np.zeros((24, 12))
    for k in range(24):
        src = major if k < 12 else minor
        for pc in range(12):
            m[k, pc] = src[(pc - k) % 12]
    return m


def builtin_transition_matrix(name):
    arr = TRANSITIONS[name]
    by_rank = {}
    if name == "zero":
        return np.eye(24)
    for i, r in enumerate(RANK):
        by_rank[r] = arr[i]
    return np.array([[by_rank[rank_between(a, b)] for b in range(24)] for a in range(24)])


def log10(x):
    return math.log10(x) if x > 0 else -math.inf


def np_log10(a):
    with np.errstate(divide="ignore"):
        return np.log10(np.asarray(a, dtype=float))


def viterbi(init, trans, emit, obs):
    """Max-product decoding.  Returns final-layer log10 scores, one optimal path, and the margin by
    which every choice on that path beats its best alternative (0 = a tie somewhere)."""
    li, lt, le = np_log10(init), np_log10(trans), np_log10(emit)
    v = li + le[:, obs[0]]
    back = []
    gaps = []
    for o in obs[1:]:
        m = v[:, None] + lt            # [from, to]
        b = np.argmax(m, axis=0)
        best = m[b, np.arange(m.shape[1])]
        if m.shape[0] > 1:
            s = np.partition(m, -2, axis=0)[-2]
            with np.errstate(invalid="ignore"):
                g = best - s
        else:
            g = np.full(m.shape[1], np.inf)
        back.append(b)
        gaps.append(g)
        v = best + le[:, o]
    end = int(np.argmax(v))
    srt = np.sort(v)
    with np.errstate(invalid="ignore"):
        margin = srt[-1] - srt[-2] if len(v) > 1 else np.inf
    path = [end]
    for b, g in zip(reversed(back), reversed(gaps)):
        margin = min(margin, g[path[-1]])
        path.append(int(b[path[-1]]))
    path.reverse()
    return v, path, margin


def path_logprob(init, trans, emit, obs, path):
    p = log10(init[path[0]]) + log10(emit[path[0]][obs[0]])
    for i in range(1, len(obs)):
        p += log10(trans[path[i - 1]][path[i]]) + log10(emit[path[i]][obs[i]])
    return p


def close(a, b, rel=1e-9, abs_=1e-9):
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= abs_ + rel * max(abs(a), abs(b))


def detect(major, minor, trans, obs):
    """The two-stage detector.  Returns (h1 scores, h1 path, h1 margin, h2 scores)."""
    init = np.full(24, 1 / 24.0)
    v1, path, margin = viterbi(init, trans, profile_map(major, minor), obs)
    lt = np_log10(trans)
    v2 = np.array([sum(lt[k, s] for s in path) for k in range(24)]) + math.log10(1 / 24.0)
    return v1, path, margin, v2
