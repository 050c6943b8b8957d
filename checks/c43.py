import re
import sys

from appgen import *
from c38 import Box, TOOLS

CHECK = Check(
    "C43",
    "The scripts kept for single datasets, on drawn folders of 0-12 files (now and then hundreds) named as in that dataset.  "
    "Non-trivial: a file was renamed, copied, listed or removed.",
    assumptions=["The scripts are stored with CRLF line ends; they are run without the carriage returns, as the shell they were written "
                 "for does.  Names have the form of the dataset (no blanks, the separators the script cuts at), and the new names differ.",
                 "mido is absent; a stand-in yields the messages written in the test's own files."])
MIDO = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "stubs", "mido")
ids = st.lists(st.one_of(st.integers(0, 40), st.integers(0, 10 ** 7), st.sampled_from([8, 9, 10, 99, 100, 108, 1000, 10000, 10003, 10080, 100000])), max_size=12, unique=True)
# (What a script does in an empty folder is nobody's concern.)
big = st.one_of(*[ids.filter(bool)] * 12, st.sampled_from([65, 130, 300]).map(lambda n: [37 * i % 10007 for i in range(n)]))
WORDS = ["majmin", "salami", "a", "LOFI", "mix.2", "x1", "Zwei", "key", "n0", "test", "csv", "wav", "MUS"]
TAILS = ["", "-majmin", "-a-b", "-x_y", "-1_2-3", "-Remix.v2", "-0003"]


def body(i):
    return b"%d\nbody of %d\n" % (i, i * 7919)


def run(b, tool, cwd=".", home=None):
    r = b.run(tool, cwd=cwd, crlf=False)
    if r.rc not in (0, 1):
        raise Violation("%s: exit %s: %s" % (tool, r.rc, r.err[-300:]))
    return r


def expect(b, want, what):
    got = b.files()
    for n in sorted(set(want) | set(got)):
        need(n in got, "%s: %s is missing", what, n)
        need(n in want, "%s: %s is there, with %r", what, n, got[n][:60])
        need(got[n] == want[n], "%s: %s holds %r, should hold %r", what, n, got[n][:80], want[n][:80])


def pick(xs, i):
    return xs[i * 7 % len(xs)]


TRIM = {
    # script -> (name of the number i, new name)
    "billboard/trim_names.sh": lambda i: ("%s_%04d%s.%s" % (pick(WORDS, i), i, pick(TAILS[1:], i), pick(["key", "txt", "csv"], i)), "%04d.key" % i),
    "giantsteps-key-dataset/trim_names.sh": lambda i: ("%d%s_%s.csv" % (i, pick(["", ".LOFI", "-x", ".a-b"], i), pick(["vamp_nnls-chroma", "x", "a.b", "v_1"], i)),
                                                       "%d%s.csv" % (i, pick(["", ".LOFI", "-x", ".a-b"], i))),
    "cross-era/change_extensions.sh": lambda i: ("%s%d%s.%s" % (pick(WORDS, i), i, pick(["", "_C", ".mid", "-1", ".key"], i), pick(["csv", "txt", "mid", "lab"], i)),
                                                 "%s%d%s.key" % (pick(WORDS, i), i, pick(["", "_C", ".mid", "-1", ".key"], i))),
    "experiment1/trim_names.sh": lambda i: ("%04d__%s%s.%s" % (i, pick(WORDS, i), pick(["", "_x", ".v2", "__y"], i), pick(["mid", "csv", "key"], i)),
                                            "%04d.%s" % (i, pick(["mid", "csv", "key"], i))),
}
TRIM["giantsteps-mtg-key-dataset/trim_names.sh"] = TRIM["giantsteps-key-dataset/trim_names.sh"]


@CHECK.clause("trim", st.tuples(st.sampled_from(sorted(TRIM)), big), quick=90, workers=3)
def trim(case, ctx):
    """Every file gets the short name its long one implies, with its contents, and no file is lost."""
    tool, ns = case
    with Box() as b:
        want = {}
        for i in ns:
            a, c = TRIM[tool](i)
            b.put(a, body(i))
            want[c] = body(i)
        run(b, tool)
        expect(b, want, tool)
    return os.path.dirname(tool) if ns else False


@CHECK.clause("numbered", st.tuples(big, st.sampled_from(["mid", "csv", "key"])), quick=30)
def numbered(case, ctx):
    """Files are numbered in the order they are listed, from 0000, each with the name it had."""
    ns, ext = case
    with Box() as b:
        names = {"%s-%d.%s" % (pick(WORDS, i), i, ext): body(i) for i in ns}
        for n, v in names.items():
            b.put(n, v)
        run(b, "experiment1/incremental_names.sh")
        expect(b, {"%04d__%s" % (k, n): names[n] for k, n in enumerate(sorted(names))}, "numbering")
    return bool(ns)


@CHECK.clause("removal", st.fixed_dictionaries({"all": big, "out": ids, "some": st.integers(1, 4), "longer": st.integers(0, 4)}), quick=40, workers=2)
def removal(case, ctx):
    """Of each listed duplicate the two recordings and their two annotations are removed, and nothing else."""
    with Box() as b:
        keep, everyone = {}, list(case["all"])
        for i in case["all"][:case["longer"]]:
            # numbers that begin with another's digits
            everyone += [x for x in (int("%04d" % i + "0"), int("%04d" % i + "37")) if i and x > 9999 and x not in everyone]
        for i in everyone:
            for d, s in (("symbolic/features", "mid"), ("chroma/features", "csv"), ("symbolic/annotations", "key"), ("chroma/annotations", "key")):
                keep["experiment1_%s/%04d.%s" % (d, i, s)] = body(i)
        keep["other/0001.mid"] = body(1)
        out = [x for x in case["all"] if x % case["some"] == 0] + [x for x in case["out"] if x not in everyone]
        lst = b"".join(b"%04d\n" % x for x in out)
        keep["removed_duplicates.txt"] = lst
        for n, v in keep.items():
            b.put(n, v)
        run(b, "experiment1/remove_duplicates.sh")
        gone = {"%04d" % x for x in out}
        expect(b, {n: v for n, v in keep.items() if not n.startswith("experiment1_") or os.path.basename(n)[:-4] not in gone}, "removing duplicates")
    return any(x in case["all"] for x in out)


@CHECK.clause("splits", st.tuples(big, st.sampled_from(["", "2"]), st.booleans()), quick=40)
def splits(case, ctx):
    """The short names of a split are written in the order of the list, whatever was there before staying in front."""
    ns, two, before = case
    with Box() as b:
        src, dst = ("val.txt", "val_trimmed.txt") if two else ("test.txt", "test_trimmed.txt")
        lst = b"".join(b"%s\n" % TRIM["billboard/trim_names.sh"](i)[0].encode() for i in ns)
        old = b"0000.csv\n" if before else b""
        b.put(src, lst)
        if before:
            b.put(dst, old)
        run(b, "billboard/trim_datasplits%s.sh" % two)
        want = {src: lst}
        if before or ns:
            want[dst] = old + b"".join(b"%04d.csv\n" % i for i in ns)
        expect(b, want, "a split")
    return bool(ns)


@CHECK.clause("bothchroma", st.tuples(big, st.booleans()), quick=40)
def bothchroma(case, ctx):
    """The chroma of every track's folder becomes a file named after the track; the folders go."""
    ns, more = case
    with Box() as b:
        want = {}
        for i in ns:
            b.put("%04d/bothchroma.csv" % i, body(i))
            if more or i % 2:
                b.put("%04d/tuning.csv" % i, b"440")
                b.put("%04d/deep/x.csv" % i, b"1")
            want["%04d.csv" % i] = body(i)
        run(b, "billboard/copy_bothchroma.sh")
        expect(b, want, "copying chroma")
        need(not any(os.path.isdir(os.path.join(b.d, n)) for n in os.listdir(b.d)), "folders stay: %s", os.listdir(b.d))
    return bool(ns)


@CHECK.clause("rename", st.tuples(big, st.sampled_from(["arthur2018", "napoles2018"]), st.booleans()), quick=40)
def rename(case, ctx):
    """The chromagram that belongs to a recording gets the recording's name; chromagrams of no recording stay."""
    ns, which, stray = case
    with Box() as b:
        want = {}
        for i in ns:
            s = "%s%d%s" % (pick(WORDS, i), i, pick(["", "_C", ".v2", "-a"], i))
            b.put(s + ".wav", body(i))
            b.put(s + "_vamp_nnls-chroma_nnls-chroma_chroma.csv", body(i + 1))
            want[s + ".wav"], want[s + ".csv"] = body(i), body(i + 1)
        if stray:
            want["zz_vamp_nnls-chroma_nnls-chroma_chroma.csv"] = want["note.txt"] = b"1"
            b.put("zz_vamp_nnls-chroma_nnls-chroma_chroma.csv", b"1")
            b.put("note.txt", b"1")
        run(b, which + "/rename_chromagrams.sh")
        expect(b, want, "renaming chromagrams")
    return bool(ns)


@CHECK.clause("annotations", st.tuples(big, st.sampled_from(["mid", "csv", "wav"])), quick=40)
def annotations(case, ctx):
    """Every recording gets an annotation file with the key that ends its name."""
    ns, ext = case
    with Box() as b:
        want = {}
        for i in ns:
            key = pick(["C", "c", "Eb", "f#", "Abm", "G", "Bb"], i)
            s = "%s%d%s_%s" % (pick(WORDS, i).replace(".", ""), i, pick(["", "_x", "-y_2"], i), key)
            b.put(s + "." + ext, body(i))
            want[s + "." + ext], want[s + ".key"] = body(i), key.encode() + b"\n"
        run(b, "arthur2018/trim_annotations.sh")
        expect(b, want, "annotations")
    return bool(ns)


@CHECK.clause("maps", st.tuples(big, st.integers(1, 30)), quick=40)
def maps(case, ctx):
    """All recordings of pieces, however deep, are copied to the features; nothing else is."""
    ns, k = case
    with Box() as b:
        want = {}
        os.makedirs(os.path.join(b.d, "features"))
        os.chmod(os.path.join(b.d, "features"), 0o777)
        for i in ns:
            kind = ["MUS", "ISOL", "MUS", "RAND"][i * k % 4]
            ext = ["wav", "wav", "mid", "txt"][i * 5 // 4 % 4]
            n = "%s/%s/MAPS_%s-%s%d.%s" % (pick(["AkPnBcht", "ENSTDkCl/sub", "a/b/c"], i), "x%d" % (i % 3), kind, pick(WORDS[:6], i), i, ext)
            b.put(n, body(i))
            want[n] = body(i)
            if kind == "MUS" and ext == "wav":
                want["features/" + os.path.basename(n)] = body(i)
        for r, ds, _ in os.walk(b.d):
            for d in ds:
                os.chmod(os.path.join(r, d), 0o777)
        run(b, "maps/get_mus_audios.sh")
        expect(b, want, "collecting pieces")
    return any(n.startswith("features/") for n in want)


@CHECK.clause("counts", st.tuples(st.integers(0, 130), st.integers(0, 30), st.integers(0, 130), st.integers(0, 12)), quick=20)
def counts(case, ctx):
    """The four sizes of a dataset are counted."""
    with Box() as b:
        for d, n in (("features", case[0]), ("annotations", case[1])):
            b.put(d + "/x", b"")
            os.unlink(os.path.join(b.d, d, "x"))
            for i in range(n):
                b.put("%s/%d" % (d, i), b"1\n2\n")
        for d, n in (("training", case[2]), ("test", case[3])):
            b.put("splits/%s.txt" % d, b"".join(b"%d.csv\n" % (i % 97) for i in range(n)))
        r = run(b, "verify_dataset_splits.sh")
        need(r.out.split() == [str(x) for x in case], "the sizes %s are counted as %s", case, r.out.split())
    return sum(case) > 0


@CHECK.clause("kern", big, quick=20)
def kern(case, ctx):
    """Each score is handed to the converter with its own name and the extension of a MIDI file."""
    with Box() as b:
        want = {}
        names = ["%s-%d.krn" % (pick(WORDS[:4], i), i) for i in case]
        for n, i in zip(names, case):
            b.put("in/" + n, body(i))
            want["in/" + n] = body(i)
            want["in/" + n[:-4] + ".mid"] = b"midi:" + body(i)
        fake = b'#!/bin/sh\nf=$1; while [ $# -gt 0 ]; do if [ "$1" = -o ]; then o=$2; fi; shift; done\n{ printf midi:; cat "$f"; } > "$o"\n'
        b.run("albrecht/krn2midi.sh", cwd="in" if case else ".", crlf=False, home={"humdrum-tools/humextra/bin/hum2mid": fake})
        if case:
            expect(b, want, "converting scores")
    return bool(case)


midi = st.lists(st.tuples(st.lists(st.tuples(st.sampled_from(["note_on"] * 6 + ["note_off", "control_change", "track_name", "lyric", "key_signature", "copyright"]),
                                             st.integers(20, 100), st.sampled_from([0, 1, 64, 64, 100])), max_size=9),
                          st.none() | st.integers(0, 5), st.integers(0, 9)), max_size=7)


def music(case):
    """Files of messages; some repeat another's music an octave away, with other velocities."""
    out = []
    for msgs, like, how in case:
        m = [list(x) for x in msgs]
        if like is not None and out:
            m = [list(x) for x in out[like % len(out)]] + ([["note_on", 60 + i, 64] for i in range(like * 9)] if how > 2 else [])
            if how > 2:
                out.append([list(x) for x in m])
            if how == 1:
                m = [[t, n + 12, v] for t, n, v in m]
            if how == 2:
                m = [[t, n, 33 if v else 0] for t, n, v in m] + [["note_off", 60, 0], ["note_on", 61, 0]]
            if how == 3 and m:
                m[-1][1] += 1
                m[-1][0] = "note_on"
            if how == 4:
                m.reverse()
            if how == 5:
                m.sort()
            if how == 6:
                m = m[:-1]
            if how == 7:
                m = m + m[-1:]
            if how == 8:
                m = m[1:] + m[:1]
            if how == 9 and m:
                m[0][1] += 12 * 3
        out.append(m)
    return out


def scripted(b, tool, show):
    """Runs a Python tool with the mido stand-in in the folder of files; what it prints, and the variables asked for."""
    r = b.run(tool, cwd="in", crlf=False, path=MIDO, show=show)
    need(r.rc == 0, "%s: %s", tool, r.err[-400:])
    return r.out


@CHECK.clause("duplicates", midi, quick=90, workers=2)
def duplicates(case, ctx):
    """Recordings with the same sequence of pitch classes are found, and only those."""
    with Box() as b:
        songs = {"s%d.mid" % i: m for i, m in enumerate(music(case))}
        b.put("in/x", b"")
        os.unlink(os.path.join(b.d, "in", "x"))
        for n, m in songs.items():
            b.put("in/" + n, json.dumps(m))
        out = scripted(b, "experiment1/find_duplicates.py", ["unique", "duplicates"])
        got = json.loads(out.rsplit("\x01", 1)[1])
        if any(x is None for x in got):
            raise Discard
        pcs = {n: [x[1] % 12 for x in m if x[0] == "note_on" and x[2]] for n, m in songs.items()}
        unique, dup = got
        need(sorted(list(unique) + list(dup)) == sorted(songs), "unique: %s, duplicates: %s of %s", sorted(unique), sorted(dup), sorted(songs))
        for n, m in dup.items():
            need(m in unique and n != m and pcs[n] == pcs[m], "%s is called a duplicate of %s", n, m)
        for n in unique:
            need(all(pcs[n] != pcs[m] for m in unique if m != n), "%s is the same music as another one that was kept", n)
        expect(b, {"in/" + n: json.dumps(m).encode() for n, m in songs.items()}, "looking for duplicates")
    return bool(dup)


@CHECK.clause("metadata", midi, quick=60, workers=2)
def metadata(case, ctx):
    """The titles, lyrics and key signatures of every file are listed under its name."""
    with Box() as b:
        songs = {"s%d.mid" % i: m for i, m in enumerate(music(case))}
        b.put("in/x", b"")
        os.unlink(os.path.join(b.d, "in", "x"))
        for n, m in songs.items():
            b.put("in/" + n, json.dumps(m))
        out = scripted(b, "maps/extract_data.py", []).rsplit("\x01", 1)[0]
        got, cur = {}, None
        for line in out.splitlines():
            if not line.startswith("\t"):
                cur = line.strip()
                need(cur in songs and cur not in got, "a line %r", line)
                got[cur] = []
            else:
                got[cur].append(line.strip())
        need(got == {n: ["<%s %d>" % (x[0], x[1]) for x in m if x[0] in ("lyric", "track_name", "key_signature")] for n, m in songs.items()},
             "listed: %s", got)
    return any(x[0] in ("lyric", "track_name", "key_signature") for m in songs.values() for x in m)


@CHECK.clause("humdrum", st.lists(st.tuples(st.lists(st.sampled_from(["C", "c", "B-", "f#", "e-"]), max_size=3), st.integers(0, 3)), max_size=5), quick=40)
def humdrum(case, ctx):
    """The key designations in the first spine of every score are printed under its name."""
    with Box() as b:
        b.put("in/x", b"")
        os.unlink(os.path.join(b.d, "in", "x"))
        want = {}
        for i, (keys, n) in enumerate(case):
            lines = ["**kern\t**kern", "*clefF4\t*G:"] + ["*%s:\t*d:" % k for k in keys] + ["4%s\t4e" % k for k in "cdefg"[:n + 1]] + ["*-\t*-"]
            b.put("in/p%d.krn" % i, "\n".join(lines) + "\n")
            want["p%d.krn" % i] = list(keys)
        out = scripted(b, "albrecht/extract_keys.py", []).rsplit("\x01", 1)[0].split()
        got, cur = {}, None
        for w in out:
            if w.endswith(".krn"):
                cur = w
                got[cur] = []
            elif cur:
                got[cur].append(w)
        need(got == want, "the keys are printed as %s, should be %s", got, want)
    return any(want.values())


SETS = [("01-a-maps_chroma_inplace", "csv"), ("02-a-maps_symbolic_inplace", "mid"), ("03-albrecht_chroma_inplace", "csv"),
        ("04-albrecht_symbolic_inplace", "mid"), ("05-arthur2018-recordings_chroma", "csv"),
        ("06-arthur2018-synth-shortname_chroma_inplace", "csv"), ("07-arthur2018-synth-shortname_symbolic_inplace", "mid"),
        ("08-billboard_chroma_inplace", "csv"), ("09-cross-era-shortname_chroma_inplace", "csv"),
        ("10-giantsteps-key_chroma_inplace", "csv"), ("11-giantsteps-mtg-key_chroma_inplace", "csv"),
        ("12-napoles2018_chroma", "csv"), ("13-napoles2018_symbolic", "mid")]
GA = b"""import os
os.mkdir("logs")
open("logs/seen.log", "w").write(open("midi_dataset.txt").read())
"""


@CHECK.clause("evaluations", st.lists(st.tuples(st.integers(0, 12), st.sampled_from(["csv", "mid", "csv", "mid", "key", "txt"]), ids.map(lambda x: x[:4]),
                                                st.sampled_from(["", "", "_C", "-f#", "/s", " x y"])), min_size=4, max_size=18), quick=16)
def evaluations(case, ctx):
    """Each experiment is given the recordings of its own dataset, the last one those of all; each one's log is kept."""
    with Box() as b:
        names = {"%s/x%d%s.%s" % (SETS[k][0], i, s, e) for k, e, ns, s in case for i in ns}
        for n in sorted(names):
            b.put(n, "1")
        b.put("plain/x.csv", "1")
        b.put("notes.txt", "1")
        b.put("ga.py", GA)
        r = run(b, "run_all_evaluations.sh")
        got = b.files()
        logs = {n: sorted(v.decode().splitlines()) for n, v in got.items() if n.endswith(".log")}
        want = {"logs_%s/seen.log" % d: sorted("./" + n for n in names if n.startswith(d + "/") and n.endswith("." + e)) for d, e in SETS}
        want["logs-14-alldatasets/seen.log"] = sorted("./" + n for n in names if n.endswith((".csv", ".mid")))
        need(logs == want, "the experiments got %s (%s)", {k: (logs.get(k), want.get(k)) for k in set(logs) | set(want) if logs.get(k) != want.get(k)}, r.err[-200:])
        need(all(n in got for n in names), "a file of a dataset is gone")
    return any(n.endswith((".csv", ".mid")) for n in names)
