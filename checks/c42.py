import re
import struct

import fuzzgen
from nnlsgen import *
import c27

CHECK = Check(
    "C42",
    "chord.dict files from a generator of chord lines (numbers in many spellings), comments and blank lines, then "
    "damaged: fields dropped, doubled or replaced by text, bytes changed, lines cut and joined, Windows line ends, "
    "no last line end; and arbitrary text.  Non-trivial: at least one chord and one line that is none, or an accepted "
    "line with another line end or number spelling.",
    components=["nnls", "fuzz_dict"])
NUM = re.compile(r"[+-]?(\d+(\.\d+)?|\.\d+)([eE][+-]?\d{1,2})?\Z")


def f32(x):
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return float("inf")


def classify(line):
    """(verdict, name, weights) of a line: 'chord', 'none' (comment, blank or no chord), or 'maybe'."""
    if not line or line[0] == "#":
        return "none", None, None
    body = line[:-1] if line.endswith("\r") else line
    odd = "\r" in body or "\0" in body
    tok = re.findall(r"=|[^,; \r=]+", body)
    if not tok:
        return "none", None, None
    if tok[0] == "=":
        name, rest = "", tok[1:]
    elif len(tok) == 1:
        return "none", None, None
    else:
        name, rest = tok[0], tok[2:]
        odd = odd or tok[1] != "="  # (a line that does not separate its name as others do)
    if len(rest) != 24:
        return "maybe" if odd else "none", None, None
    if not odd and any(re.search(r"[^0-9.eE+-]", t) and not re.match(r"[+-]?(inf|nan)", t, re.I) for t in rest):
        return "none", None, None
    if odd or not all(NUM.match(t) for t in rest):
        return "maybe", None, None
    w = [f32(float(t)) for t in rest]
    if not all(x == x and abs(x) != float("inf") for x in w):
        return "maybe", None, None
    # weights a chord can have; of others nothing more than that they do no harm
    plain = all(x == 0 or 1e-3 <= x <= .98 or x == 1 for x in w) and (any(x == 1 for x in w[:12]) or any(w[12:]))
    return ("chord" if plain else "counted"), name, w


def check(ctx, data, boost, harte):
    d = os.path.join(ctx.tmp, "vamp")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, "chord.dict"), "wb") as f:
        f.write(data)
    names, notes, v = c27.load(ctx, np.float32(boost), harte, d)
    text = data.decode("utf-8", "surrogateescape")
    lines = [classify(x) for x in text.split("\n")]
    need(len(names) % 12 == 1, "%d chords", len(names))
    need(np.isfinite(v).all(), "weights that are no numbers")
    need(names[-1] == "N" and notes[-1] == [], "the last chord is %r", names[-1])
    n = len(names) // 12
    sure = [x for x in lines if x[0] in ("chord", "counted")]
    maybe = sum(x[0] == "maybe" for x in lines)
    need(len(sure) <= n <= len(sure) + maybe, "%d types, %d lines that define one (and %d that may)", n, len(sure), maybe)
    if not maybe:
        for k, (kind, name, w) in enumerate(sure):
            a, b = 12 * k, 12 * k + 12
            if kind == "chord":
                c27.judge(names[a:b] + ["N"], notes[a:b] + [[]], np.concatenate([v[a:b], v[-1:]]), [(name, w[:12], w[12:])], boost, harte)
            else:
                need(all(x.startswith(c27.NOTES_A[i] + name) for i, x in enumerate(names[a:b])), "%s for the type %r", names[a:b], name)
    return lines, (names, notes, v)


number = st.sampled_from(["0"] * 6 + ["1"] * 4 + ["0.5", ".5", "0.25", "1.0", "0.0", "1e0", "+1", "5e-1", "0.9"])
name = st.sampled_from(["", "", "m", "7", "sus4", ":min", "x-y", "m(9)", "7#9", "\xe9", "N", "1", "m7b5"])
chord = st.tuples(name, st.lists(number, min_size=24, max_size=24), st.sampled_from([",", ",", ", ", ";", " ", " , "]),
                  st.sampled_from(["", "", "", " ", ","])).map(lambda t: t[0] + "=" + t[2].join(t[1]) + t[3])
other = st.sampled_from(["", "", "# a comment", "#m=1,2", "   ", ",", ";,", "m", "=", "m=", "m=1", "=x", "m,1", "==", "###"])
damage = st.tuples(st.sampled_from(["drop", "double", "text", "byte", "cut", "join", "extra", "none", "none"]), st.integers(0, 10 ** 6),
                   st.sampled_from(["x", "nan", "inf", "-inf", "1e39", "1e999", "--1", "1.1.1", "=", "0x1", "1e", "-1", "7", "2.5", "1e30", "1e-44",
                                    "true", "\t1", "\0", "1" * 400, "\u266f"])).map(list)
entry = st.fixed_dictionaries({"text": chord | chord | other, "damage": damage})
SPLIT = re.compile(r"([,; =])")


def ruin(text, damage):
    kind, at, what = damage
    if kind == "none" or not text:
        return text
    if kind == "byte":
        at %= len(text)
        return text[:at] + what[0] + text[at + 1:]
    if kind == "cut":
        return text[:at % (len(text) + 1)]
    if kind == "extra":
        return text + "," + what
    if kind == "join":
        return text + text
    part = SPLIT.split(text)
    k = at % ((len(part) + 1) // 2) * 2
    if kind == "drop":
        del part[k:k + 2]
    elif kind == "double":
        part[k:k] = part[k:k + 2]
    else:
        part[k] = what
    return "".join(part)


@CHECK.clause("lines", st.fixed_dictionaries({
    "lines": st.lists(entry, min_size=1, max_size=8), "eol": st.sampled_from(["\n", "\n", "\r\n"]), "last": st.booleans(),
    "boost": st.sampled_from([0, .1, .5, 1]), "harte": st.integers(0, 1)}), quick=700, workers=4)
def lines(case, ctx):
    """The dictionary has the twelve transpositions of each line that defines a chord, in order, and 'no chord';
    every other line adds nothing and harms nothing."""
    text = case["eol"].join(ruin(x["text"], x["damage"]) for x in case["lines"]) + (case["eol"] if case["last"] else "")
    ls, _ = check(ctx, text.encode("utf-8", "surrogateescape"), case["boost"], case["harte"])
    kinds = {x[0] for x in ls}
    return "chord" in kinds and (len(kinds) > 1 or case["eol"] == "\r\n")


@CHECK.clause("many", st.fixed_dictionaries({
    "lines": st.lists(entry, min_size=3, max_size=12), "n": st.integers(20, 150), "seed": st.integers(0, 10 ** 6),
    "eol": st.sampled_from(["\n", "\n", "\r\n"]), "harte": st.integers(0, 1), "wide": st.sampled_from([0, 0, 300, 5000])}), quick=16, workers=2)
def many(case, ctx):
    """A long dictionary is read to its last line, with long comments and names."""
    r = np.random.default_rng(case["seed"])
    ls = [ruin(case["lines"][i % len(case["lines"])]["text"], case["lines"][i % len(case["lines"])]["damage"] if r.random() < .3 else ["none", 0, ""])
          for i in r.integers(0, len(case["lines"]), case["n"])]
    if case["wide"]:
        ls.insert(int(r.integers(len(ls))), "# " + "long " * case["wide"])
        ls.insert(int(r.integers(len(ls))), "w" * case["wide"] + "=" + ",".join("1" * 24))
    got, _ = check(ctx, (case["eol"].join(ls) + case["eol"]).encode("utf-8", "surrogateescape"), .1, case["harte"])
    return sum(x[0] == "chord" for x in got) > 20


@CHECK.clause("unchanged", st.fixed_dictionaries({
    "chords": st.lists(chord, min_size=1, max_size=6), "noise": st.lists(st.tuples(st.integers(0, 6), other), max_size=5).map(lambda x: [list(t) for t in x]),
    "eol": st.sampled_from(["\n", "\r\n"]), "boost": st.sampled_from([0, .1, 1]), "harte": st.integers(0, 1)}), quick=200, workers=2)
def unchanged(case, ctx):
    """Lines that define no chord, and the kind of line end, change nothing about the other chords."""
    good = [x for x in case["chords"] if classify(x)[0] == "chord"]
    if not good:
        raise Discard("no chord")
    _, a = check(ctx, ("\n".join(good) + "\n").encode(), case["boost"], case["harte"])
    mixed = list(good)
    for at, x in case["noise"]:
        mixed.insert(min(at, len(mixed)), x)
    _, b = check(ctx, (case["eol"].join(mixed) + case["eol"]).encode(), case["boost"], case["harte"])
    need(a[0] == b[0] and a[1] == b[1] and np.array_equal(a[2], b[2]), "%s became %s", a[0], b[0])
    return bool(case["noise"]) or case["eol"] == "\r\n"


@CHECK.clause("text", st.fixed_dictionaries({
    "data": st.binary(max_size=300).map(bytes.hex) | st.text(alphabet="01=,; m#.\n\re-+", max_size=300).map(lambda s: s.encode().hex()),
    "harte": st.integers(0, 1)}), quick=500, workers=2)
def text(case, ctx):
    """No file at all crashes the plugin or gives it chords of half a definition."""
    ls, _ = check(ctx, bytes.fromhex(case["data"]), .1, case["harte"])
    return len(ls) > 1


@CHECK.clause("recording", st.fixed_dictionaries({
    "lines": st.lists(entry, min_size=1, max_size=5), "seed": st.integers(0, 10 ** 6), "n": st.integers(1, 6),
    "harte": st.integers(0, 1)}), quick=40, workers=2)
def recording(case, ctx):
    """Chordino with such a file analyses a recording, and knows only the file's chords."""
    text = "\n".join(ruin(x["text"], x["damage"]) for x in case["lines"]) + "\n"
    _, (names, notes, v) = check(ctx, text.encode("utf-8", "surrogateescape"), .1, case["harte"])
    b = ctx.bridge("nnls")
    b.call("vamppath", os.path.join(ctx.tmp, "vamp"))
    p = Plug(ctx, "chordino", 11025, 4096, step=2048, component="nnls", params=[("usehartesyntax", case["harte"])])
    x = .15 * tone_signal([(60 + k, 1, 4, .6) for k in (0, 4, 7)], 11025, 4096 + 2048 * case["n"], case["seed"])
    p.feed(stft(x, 4096, 2048), 0.0, .2)
    f = p.finish()
    b.call("vamppath", "/nonexistent")
    got = [x.label for x in f["simplechord"]]
    need(got and got[0] == "N" and got[-1] == "N", "chords %s", got)
    need(set(got) <= set(names), "chords %s of the dictionary %s", got, names)
    return len(names) > 1


SEEDS = [b"# a comment\n=1,0,0,0,0,0,0,0,0,0,0,0,1,0,0,0,1,0,0,1,0,0,0,0\nm=0,0,0,0,1,0,0,0,0,0,0,0,1,0,0,.5,0,0,0,1,0,0,0,0\n",
         b"7=1;0;0;0;0;0;0;0;0;0;0;0;1;0;0;0;1;0;0;1;0;0;1;0\r\n\n", b"x = " + b"0 " * 23 + b"1"]
WORDS = [b",", b";", b" ", b"=", b"\n", b"\r\n", b"#", b"nan", b"inf", b"1e9", b"1e39", b"-1", b"0,0,0,0,", b"1,", b"0.5", b"\n=", b"m="]


@CHECK.clause("covered_input", st.binary(max_size=60).map(lambda b: {"data": b.hex()}), quick=5, thorough=5)
def covered_input(case, ctx):
    """Twelve transpositions of each type, finite weights; lines without chords change nothing, a further chord adds itself."""
    fuzzgen.one(ctx, "fuzz_dict", bytes.fromhex(case["data"]))
    return True


@CHECK.clause("coverage", st.fixed_dictionaries({"seed": st.integers(1, 10 ** 6)}), quick=2, thorough=8, shrink=False)
def coverage(case, ctx):
    """The same, on inputs bred by libFuzzer for reaching new code."""
    return fuzzgen.search(ctx, "fuzz_dict", case, "covered_input", SEEDS, WORDS)
