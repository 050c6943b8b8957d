from appgen import *

CHECK = Check(
    "C16",
    "Standard MIDI files: 1-4 tracks, up to 14 events each, 16 channels, note-ons with velocity zero, "
    "note-offs, controllers, programs, bends, system exclusive and meta events, running status.  "
    "Non-trivial: at least two sounding notes and one event that is not a sounding note.",
    components=["midi"],
    assumptions=["The midifile submodule is absent; the reader runs on a stand-in with its interface "
                 "(stubs/MidiFile.h).  Notes at one tick in different tracks may come in any order."], times=2)

d7 = st.integers(0, 127)
on = st.tuples(st.just(0x90), st.integers(0, 15), d7, st.integers(1, 127)).map(list)
ev = st.one_of(
    on, on, on, on,
    st.tuples(st.just(0x90), st.integers(0, 15), d7, st.just(0)).map(list),
    st.tuples(st.sampled_from([0x80, 0xa0, 0xb0, 0xe0]), st.integers(0, 15), d7, d7).map(list),
    st.tuples(st.sampled_from([0xc0, 0xd0]), st.integers(0, 15), d7).map(list),
    st.tuples(st.just(0xff), st.sampled_from([1, 3, 0x51, 0x58]), st.lists(d7, max_size=6)).map(list),
    st.tuples(st.just(0xf0), st.lists(st.integers(0x80, 0xff) | d7, max_size=6)).map(list))
delta = st.one_of(st.integers(0, 3), st.integers(0, 300), st.integers(0, 30000))
tracks = st.lists(st.lists(st.tuples(delta, ev).map(list), max_size=14), min_size=1, max_size=4)


def raw(e):
    if e[0] == 0xff:
        return bytes([0xff, e[1]]) + vlq(len(e[2])) + bytes(e[2])
    if e[0] == 0xf0:
        return bytes([0xf0]) + vlq(len(e[1])) + bytes(e[1])
    return bytes([e[0] | e[1]] + e[2:])


@CHECK.clause("notes", st.fixed_dictionaries({"tracks": tracks, "running": st.booleans(), "times": st.integers(1, 3)}),
              quick=2500, workers=3)
def notes_(case, ctx):
    p = write(ctx, smf([[(d, raw(e)) for d, e in t] for t in case["tracks"]], case["running"]), "m.mid")
    r = ctx.bridge("midi").call("midi", p, case["times"])
    need(r[0] == 6, "status %s", r[0])
    i = 2
    seqs = []
    for _ in range(case["times"]):
        n = r[i]
        seqs.append(r[i + 1:i + 1 + n])
        i += 1 + n
    by_tick, other = {}, False
    for t, tr in enumerate(case["tracks"]):
        now = 0
        for d, e in tr:
            now += d
            if e[0] == 0x90 and e[3] > 0:
                by_tick.setdefault(now, []).append((t, e[2] % 12))
            else:
                other = True
    total = sum(len(v) for v in by_tick.values())
    for s in seqs:
        need(len(s) == total, "%d notes sound, %d heard: %s", total, len(s), s)
        k = 0
        for tick in sorted(by_tick):
            want = by_tick[tick]
            got = s[k:k + len(want)]
            k += len(want)
            need(sorted(got) == sorted(pc for _, pc in want), "at tick %d %s sound, %s heard", tick, want, got)
            if len({t for t, _ in want}) == 1:
                need(got == [pc for _, pc in want], "at tick %d %s sound in this order, %s heard", tick, want, got)
        need(s == seqs[0], "asking again gives another sequence")
    return other and total > 1


@CHECK.clause("chords", st.fixed_dictionaries({
    "chords": st.lists(st.lists(st.tuples(st.integers(24, 90), st.lists(st.sampled_from([0, 12, -12, 24, 0, 7]), max_size=3))
                                .map(list), min_size=1, max_size=4), min_size=1, max_size=6),
    "ch": st.integers(0, 15), "n": st.integers(1, 24), "empty": st.integers(0, 3)}), quick=500, workers=2)
def chords(case, ctx):
    """Chords with notes doubled at the octave and at the unison, spread over many tracks: every one is heard."""
    n, want = case["n"], []
    tr = [[] for _ in range(n)]
    k = 0
    for i, c in enumerate(case["chords"]):
        ps = [p + d for p, ds in c for d in [0] + ds]
        want.append(sorted(p % 12 for p in ps))
        for p in ps:
            tr[k % n].append((i * 96, bytes([0x90 | case["ch"], p, 80])))
            tr[k % n].append((i * 96 + 90, bytes([0x80 | case["ch"], p, 80])))
            k += 1
    out = [[] for _ in range(case["empty"])]
    for t in tr:
        t.sort(key=lambda e: e[0])
        out.append([(b[0] - (t[j - 1][0] if j else 0), b[1]) for j, b in enumerate(t)])
    p = write(ctx, smf(out), "m.mid")
    r = ctx.bridge("midi").call("midi", p, 1)
    s = r[3:3 + r[2]]
    need(r[0] == 6 and len(s) == sum(map(len, want)), "%d notes sound, %d heard", sum(map(len, want)), len(s))
    i = 0
    for w in want:
        need(sorted(s[i:i + len(w)]) == w, "the chord %s is heard as %s", w, s[i:i + len(w)])
        i += len(w)
    return "many tracks" if n > 8 else len(want) > 1


@CHECK.clause("octaves", st.fixed_dictionaries({"pitches": st.lists(d7, min_size=1, max_size=12),
                                               "ch": st.integers(0, 15), "oct": st.integers(-10, 10)}), quick=400)
def octaves(case, ctx):
    """Channel, velocity and octave do not matter."""
    res = []
    for ch, shift in ((0, 0), (case["ch"], case["oct"] * 12)):
        q = [x + shift if 0 <= x + shift <= 127 else x for x in case["pitches"]]
        p = write(ctx, smf([[(5, bytes([0x90 | ch, x, 1 + (x * 7 + ch) % 127])) for x in q]]), "m.mid")
        r = ctx.bridge("midi").call("midi", p, 1)
        res.append(r[3:])
    need(res[0] == res[1] == [x % 12 for x in case["pitches"]], "heard %s and %s", res[0], res[1])
    return len(set(res[0])) > 1


@CHECK.clause("no_notes", st.sampled_from(["missing.mid", "empty.mid", "junk.mid"]), quick=10)
def no_notes(case, ctx):
    p = os.path.join(ctx.tmp, case)
    if case == "empty.mid":
        write(ctx, b"", case)
    if case == "junk.mid":
        write(ctx, b"MThd\0\0\0\6\0\1\0\1\0\x60MTrk\0\0\0\x50abc", case)
    r = ctx.bridge("midi").call("midi", p, 1)
    need(r[2] == 0, "%s sounds %s", case, r[3:])
    return True


@CHECK.clause("long", st.fixed_dictionaries({"n": st.integers(200, 30000), "tracks": st.integers(1, 6), "seed": st.integers(0, 10 ** 6),
                                             "between": st.integers(0, 6)}), quick=30, workers=2)
def long(case, ctx):
    """Files of thousands of events: every note is heard, in order."""
    r = random.Random(case["seed"])
    out, want = [[] for _ in range(case["tracks"])], []
    last = [0] * case["tracks"]
    for i in range(case["n"]):
        k, p = r.randrange(case["tracks"]), r.randint(0, 127)
        want.append(p % 12)
        out[k].append((i * 2 + 1 - last[k], bytes([0x90 | r.randrange(16), p, r.randint(1, 127)])))
        last[k] = i * 2 + 1
        for _ in range(r.randint(0, case["between"])):
            out[k].append((0, bytes(r.choice([[0xb0, 64, r.randint(0, 127)], [0xe0, 0, 64], [0x80, p, 0], [0x90, p, 0]]))))
    p = write(ctx, smf(out), "m.mid")
    q = ctx.bridge("midi").call("midi", p, 1)
    s = q[3:3 + q[2]]
    need(q[0] == 6 and len(s) == len(want), "%d notes sound, %d heard", len(want), len(s))
    need(s == want, "note %d sounds otherwise", next((i for i, (a, b) in enumerate(zip(s, want)) if a != b), 0))
    return "over 4096" if case["n"] > 4096 else True
