"""Helpers shared by the checks."""
import json
import math
import os
import subprocess
import sys

from hypothesis import strategies as st

import build
import jkmodel as M
from bridge import BridgeCrash, BridgeTimeout, RemoteException
from engine import Check, Discard, Violation

REPO = os.environ.get("VERIF_REPO", "/repo")


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def seeded_floats(n, lo, hi):
    return st.lists(st.floats(lo, hi, allow_nan=False, width=64), min_size=n, max_size=n)


def odd_ints(n):
    """Numbers outside 0..n-1, those that become one of them by wrapping or cutting likely."""
    near = st.tuples(st.integers(0, n - 1), st.sampled_from([n, -n, 2 * n, 12, -12, 24, 2 ** 7, 2 ** 8, -2 ** 8, 2 ** 15, 2 ** 16, -2 ** 16, 2 ** 24,
                                                             2 ** 31 - 64, -2 ** 31, 48, 60, 120])).map(sum)
    return st.one_of(st.integers(-2**31, 2**31 - 1), st.integers(-30, 60), near).filter(lambda v: not 0 <= v < n)


def weights(n):
    """n non-negative numbers of any size, zeros and repeats likely."""
    pool = [0.0, 1.0, 0.5, 0.1, 1e-9, 9.0, 256.0, 1e8, 0.3333333333333333, 1e-300, 3.5e38, 1e300]
    def some(t):
        v, scale, zero = t
        return [0.0 if zero >> i & 1 else x * scale for i, x in enumerate(v)]
    return st.one_of(seeded_floats(n, 0.0, 1.0), st.lists(st.sampled_from(pool), min_size=n, max_size=n),
                     st.tuples(seeded_floats(n, 0.0, 1.0), st.sampled_from([1.0, 1e-9, 1e-40, 100.0, 144442221.0]),
                               st.integers(0, 2 ** n - 1)).map(some))


def probs(n, zeros=False, ties=True):
    """n positive numbers up to 1, with repeated values likely (ties)."""
    pool = [0.5, 0.25, 0.125, 0.1, 0.01, 1.0, 0.2, 1e-6]
    base = st.one_of(st.floats(1e-6, 1.0), st.sampled_from(pool)) if ties else st.floats(1e-6, 1.0)
    if zeros:
        base = st.one_of(base, base, base, st.just(0.0))
    return st.lists(base, min_size=n, max_size=n)
