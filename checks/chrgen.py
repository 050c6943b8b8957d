"""Generated chromagram CSV files and the reference reading of them."""
import math
import struct

from common import *

A = 9  # index of A among C..B


def f32(x):
    return struct.unpack("f", struct.pack("f", x))[0]


STYLES = ["%g", "%.9g", "%.6f", "%.3f", "%e", "%.9f"]
mag = st.one_of(st.floats(0, 6, width=32), st.floats(0, 6, width=32), st.integers(0, 5).map(float),
                st.floats(0, 40, width=32), st.sampled_from([0.0, 1.0, 2.0, 0.999, 1.999, 2.999, 1.5, 3.25]))


# also below zero, just below whole numbers, and large
wide = st.one_of(mag, mag, st.floats(-3, 3, width=32), st.sampled_from([-0.5, -0.0, -1.0, -0.999, 0.5, 0.25]),
                 st.floats(90, 300, width=32), st.sampled_from([99.5, 100.0, 101.25, 127.5, 128.0, 255.75, 256.5, 1000.0] + [0.75] * 8))


def frames(max_frames=8, value=mag, tmax=2000):
    """[{t (milliseconds), v (A..G#)}], in file order: any order, any gaps, held chords likely."""
    ms = st.one_of(st.integers(0, tmax * 1000), st.integers(0, tmax * 1000), st.integers(0, 30).map(lambda i: i / 8),
                   st.integers(-90000, 0), st.integers(1, 9).map(lambda i: 46.4399 * i))
    row = st.fixed_dictionaries({"t": ms, "v": st.lists(value, min_size=12, max_size=12)})
    sparse = st.fixed_dictionaries({
        "t": ms,
        "v": st.dictionaries(st.integers(0, 11), value, max_size=4).map(
            lambda d: [d.get(i, 0.0) for i in range(12)])})
    hold = st.fixed_dictionaries({"t": ms, "same": st.integers(0, 7)})
    return st.lists(st.one_of(row, sparse, sparse, hold), max_size=max_frames)


def resolve(case):
    """Rows as (t seconds, 12 values A..G#): a 'hold' row repeats an earlier row's values."""
    rows = []
    for r in case:
        if "same" in r:
            if not rows:
                continue
            rows.append((r["t"] / 1000.0, rows[r["same"] % len(rows)][1]))
        else:
            rows.append((r["t"] / 1000.0, r["v"]))
    return rows


def tokens(rows, style):
    ts = ["%.3f", "%.3f", "%.9f", "%.6e", "%.3f0000", "+%.3f"][style // len(STYLES) % 6]
    return [[(ts % t).replace("+-", "-")] + [STYLES[style % len(STYLES)] % x for x in v] for t, v in rows]


def text(toks, eol="\n", last_eol=True, trailing=False, blank=False):
    lines = [",".join(r) + ("," if trailing else "") for r in toks]
    if blank:
        lines = [x for l in lines for x in (l, "")]
    s = eol.join(lines)
    return s + (eol if last_eol and lines else "")


def reference(toks):
    """{t: 12 values C..B} as the file says."""
    m = {}
    for r in toks:
        t = f32(float(r[0]))
        v = [0.0] * 12
        for i, x in enumerate(r[1:]):
            v[(A + i) % 12] = f32(float(x))
        m[t] = v
    return m


def notes(m):
    """The note sequence of a chromagram {t: C..B}."""
    out, last = [], None
    for t in sorted(m):
        d = [math.floor(x) for x in m[t]]
        if d == last:
            continue
        last = d
        for pc in range(12):
            out += [pc] * max(0, d[pc] - 1)
    return out


def rows_of(printed):
    out = []
    for l in printed.splitlines():
        x = [float(y) for y in l.split(",")]
        need(len(x) == 13, "a printed frame has %d columns: %r", len(x), l)
        out.append((f32(x[0]), [f32(y) for y in x[1:]]))
    return out


def write(ctx, data, name="c.csv"):
    p = os.path.join(ctx.tmp, name)
    with open(p, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode())
    return p


def load(ctx, path, slot=0, audio=False, filler=0, component="chroma", timeout=None):
    b = ctx.bridge(component)
    return b.call("load", slot, 1 if audio else 0, path, filler, timeout=timeout)[0]


def show(ctx, slot=0, component="chroma", timeout=None):
    r = ctx.bridge(component).call("show", slot, timeout=timeout)
    n = r[4]
    return {"status": r[0], "afirst": r[1], "cfirst": r[2], "discrete": r[3], "seq": r[5:5 + n]}
