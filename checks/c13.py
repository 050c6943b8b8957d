import re

import fuzzgen
from chrgen import *

CHECK = Check(
    "C13",
    "CSV files with damaged tokens, arbitrary bytes and byte-level mutations of good files.  "
    "Non-trivial: the file has at least one token that is not a plain number, or at least two lines.",
    components=["chroma", "fuzz_csv"],
    assumptions=["Magnitudes above 100000 are outside the claim (they stand for that many notes)."], times=3)
NUM = re.compile(rb"^\s*[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?\s*$")
BADFIRST = re.compile(rb"^[ \t]*[+-]?[A-Za-hj-mo-zA-HJ-MO-Z;:_/!\"'#@?*()\[\]{}|<>=]|^[ \t\r]+$|^[ \t]*[+-]?$")


def kinds(data):
    """(all tokens are plain finite numbers, some token is certainly no number)"""
    good, bad, big = True, False, False
    for line in data.split(b"\n"):
        if line == b"":
            continue
        toks = line.split(b",")
        if toks[-1] == b"":
            toks.pop()
        for t in toks:
            if NUM.match(t):
                v = float(t)
                if abs(v) > 1e4:
                    big = True
                if abs(v) > 3e38:
                    good = False
            else:
                good = False
                m = re.match(rb"^\s*[+-]?[0-9.xXa-fA-FpPeE+-]+", t)
                if m:
                    big = big or len(m.group(0)) > 5 or b"x" in t.lower() or b"e" in t.lower()
                if BADFIRST.match(t):
                    bad = True
    return good, bad, big


def check(ctx, data):
    good, bad, big = kinds(data)
    if big:
        raise Discard
    s = load(ctx, write(ctx, data))
    r = show(ctx)
    need(s == r["status"], "status changed")
    if good:
        need(s == 4, "a CSV of numbers only is refused (status %s)", s)
    elif bad:
        need(s == 1, "a CSV with a token that is no number is accepted (status %s)", s)
    else:
        need(s in (1, 4), "status %s", s)
    if s != 4:
        need(not r["seq"] and not r["afirst"] and not r["cfirst"] and not r["discrete"],
             "a refused CSV still prints a chromagram or sounds notes")
    return (not good) or data.count(b"\n") > 1


word = st.sampled_from(["", " ", "abc", "time", "-", "--1", "+", ".", "nan", "inf", "-inf", "NaN", "1e999", "1e-999",
                        "1e-42", "0x10", "1,5", "1;2", "\x00", "1.5abc", "1..2", "e5", "\"1.5\"", "é", "1 2"])


@CHECK.clause("bad_token", st.fixed_dictionaries({
    "rows": frames(5), "bad": st.lists(st.tuples(st.integers(0, 60), word).map(list), min_size=1, max_size=3)}),
    quick=2500, workers=3)
def bad_token(case, ctx):
    toks = tokens(resolve(case["rows"]), 0) or [["0.0"] + ["1"] * 12]
    for pos, w in case["bad"]:
        r = pos // 13 % len(toks)
        toks[r][pos % 13 % len(toks[r])] = w
    return check(ctx, text(toks).encode())


@CHECK.clause("bytes", st.one_of(st.binary(max_size=120), st.text("0123456789.,,,\n\n-+eE xnaif\r\t\0", max_size=160)
                                 .map(lambda s: s.encode())).map(lambda b: b.hex()), quick=2500, workers=2)
def raw_bytes(case, ctx):
    return check(ctx, bytes.fromhex(case))


@CHECK.clause("mutated", st.fixed_dictionaries({
    "rows": frames(5), "edits": st.lists(st.tuples(st.integers(0, 5000), st.integers(0, 3), st.integers(0, 255))
                                         .map(list), min_size=1, max_size=6)}), quick=2500, workers=2)
def mutated(case, ctx):
    d = bytearray(text(tokens(resolve(case["rows"]), 3)).encode() or b"0.0,1\n")
    for pos, k, v in case["edits"]:
        if not d:
            d = bytearray(b"1")
        p = pos % len(d)
        if k == 0:
            d[p] = v
        elif k == 1:
            d.insert(p, v)
        elif k == 2:
            del d[p]
        else:
            d = d[:p] + d[p:p + v % 40] + d[p:]
    return check(ctx, bytes(d))


@CHECK.clause("shape", st.lists(st.lists(st.integers(0, 9), max_size=40), max_size=8), quick=800)
def shape(case, ctx):
    """Rows of any width are read without failing."""
    data = "\n".join(",".join(str(x) for x in r) for r in case).encode()
    s = load(ctx, write(ctx, data))
    need(s == 4, "status %s", s)
    show(ctx)
    return any(len(r) not in (0, 13) for r in case)


@CHECK.clause("unreadable", st.tuples(st.sampled_from(["missing.csv", "no/such/x.csv", "a" * 300, ""]),
                                      st.integers(0, 1)).map(list), quick=30)
def unreadable(case, ctx):
    p = os.path.join(ctx.tmp, case[0]) if case[0] else ""
    s = load(ctx, p, audio=bool(case[1]))
    need(s == 1, "status %s for a file that is not there", s)
    r = show(ctx)
    need(not r["seq"] and not r["afirst"], "a chromagram that was not read prints something")
    return True


SEEDS = [b"0.0,1,0,0,0.5,0,0,0,2,0,0,0,0\n0.1,0,0,1e-3,0,0,0,0,0,0,0,0,3\n",
         b'"x.wav",0.0,1,0,0,0.5,0,0,0,2,0,0,0,0\n,0.1,0,0,3,0,0,0,0,0,0,0,0,3\r\n']
WORDS = [b",", b"\n", b"\r\n", b"nan", b"inf", b"-", b"1e", b"e-5", b"0.5", b"\"", b",,", b"\n\n", b"0.0,", b"1e-320", b"+", b"\t", b"-0", b"2", b"12"]


@CHECK.clause("covered_input", st.binary(max_size=60).map(lambda b: {"data": b.hex()}), quick=5, thorough=5)
def covered_input(case, ctx):
    """A file that is refused prints nothing and sounds nothing; one that is read prints a chromagram that reads as
    itself and sounds the same notes; reading again gives the same."""
    fuzzgen.one(ctx, "fuzz_csv", bytes.fromhex(case["data"]))
    return True


@CHECK.clause("coverage", st.fixed_dictionaries({"seed": st.integers(1, 10 ** 6)}), quick=2, thorough=8, shrink=False)
def coverage(case, ctx):
    """The same, on inputs bred by libFuzzer for reaching new code."""
    return fuzzgen.search(ctx, "fuzz_csv", case, "covered_input", SEEDS, WORDS)
