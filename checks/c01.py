from common import *

CHECK = Check(
    "C01",
    "Key names and codes: all 42 accepted spellings, all 24 codes, random near-miss strings and "
    "random 32-bit codes, each constructed in storage pre-filled with generated bytes; random pairs "
    "compared.  Non-trivial: an accepted spelling or valid code, or a near miss (accepted spelling "
    "with one edit).",
    components=["core"], times=3)

SP = sorted(M.KEY_SPELLINGS)


def read_key(r):
    return {"code": r[0], "name": r[1], "maj": r[2], "min": r[3]}


def check_valid(k, code):
    need(k["code"] == code, "code %s, expected %s", k["code"], code)
    need((k["maj"], k["min"]) == ((1, 0) if code < 12 else (0, 1)),
         "mode flags %s/%s for code %s", k["maj"], k["min"], code)


@CHECK.clause("spelling", st.fixed_dictionaries({"s": st.sampled_from(SP),
                                                 "fill": st.integers(0, 40)}), quick=1500)
def spelling(case, ctx):
    k = read_key(ctx.bridge("core").call("key_str", case["fill"], case["s"]))
    check_valid(k, M.KEY_SPELLINGS[case["s"]])
    need(k["name"] == case["s"], "name %r for spelling %r", k["name"], case["s"])
    return "major" if k["maj"] else "minor"


@CHECK.clause("code", st.fixed_dictionaries({"v": st.integers(0, 23), "fill": st.integers(0, 40)}),
              quick=800)
def code(case, ctx):
    b = ctx.bridge("core")
    k = read_key(b.call("key_int", case["fill"], case["v"]))
    check_valid(k, case["v"])
    need(k["name"] in M.KEY_SPELLINGS and M.KEY_SPELLINGS[k["name"]] == case["v"],
         "name %r of code %d denotes another key", k["name"], case["v"])
    need(k["name"] == M.KEY_NAMES[case["v"]], "name %r of code %d", k["name"], case["v"])
    back = read_key(b.call("key_str", 7, k["name"]))
    check_valid(back, case["v"])
    return True


near = st.one_of(
    st.tuples(st.sampled_from(SP), st.sampled_from(" #bBm♭-0abcdefgh\n\t"), st.integers(0, 2)).map(
        lambda t: t[0][:t[2]] + t[1] + t[0][t[2]:]),
    st.sampled_from(["", "H", "h", "#", "CC", "Cm", "C\r", "F##", "Bbb", "C\u266f", "B\u266d", "c\u266f", "CB", "EB", "Cis", "des", "C sharp", "\ufeffC", "Hb", "C#\n", "C'", "Do", "C4", "0", "5", "I", "C:maj", "c:min", "Amin", "A minor",
                     "DB", "aB", "Cb\t", "X", "C\0", "b\0b", "\0C", "C major", "c minor", "BB", "Bb ", " C", "C\0", "N"]),
    st.tuples(st.sampled_from(SP), st.sampled_from(["#", "b", "##", "bb", "\r", "\r\n", "\u266f", "\u266d", "x", "'", ":", "\0", "7", "m", "M", "maj", "min", " major", ".", ",", ";"]),
              st.booleans()).map(lambda t: t[0] + t[1] if t[2] else t[1] + t[0]),
    st.tuples(st.sampled_from(SP), st.integers(0, 1)).map(lambda t: t[0][:t[1]] + t[0][t[1]:].swapcase()),
    st.text(max_size=6))


@CHECK.clause("not_a_key", st.fixed_dictionaries({
    "what": st.one_of(near.filter(lambda s: s not in M.KEY_SPELLINGS),
                      odd_ints(24)),
    "fill": st.integers(0, 23)}), quick=2500,
    examples=[{"what": "foo", "fill": 5}, {"what": 24, "fill": 3}, {"what": -1, "fill": 0}])
def not_a_key(case, ctx):
    b = ctx.bridge("core")
    w = case["what"]
    if isinstance(w, str):
        k = read_key(b.call("key_str", case["fill"], w))
    else:
        k = read_key(b.call("key_int", case["fill"], w))
    need(not k["maj"] and not k["min"], "%r is reported as a key: %s", w, k)
    need(k["name"] == "", "%r has the key name %r", w, k["name"])
    return "text" if isinstance(w, str) else "number"


@CHECK.clause("order", st.fixed_dictionaries({"a": st.sampled_from(SP), "b": st.sampled_from(SP)}),
              quick=2500)
def order(case, ctx):
    eq, ne, lt, gt, ca, cb = ctx.bridge("core").call("key_cmp", case["a"], case["b"])
    a, b = M.KEY_SPELLINGS[case["a"]], M.KEY_SPELLINGS[case["b"]]
    need((ca, cb) == (a, b), "codes %s", (ca, cb))
    need(eq == (a == b), "== is %s for %s", eq, case)
    need(ne == (a != b), "!= is %s for %s", ne, case)
    need(lt == (a < b) and gt == (a > b), "order %s/%s for %s", lt, gt, case)
    return "enharmonic" if a == b and case["a"] != case["b"] else True


@CHECK.clause("catalogue", st.just({}), quick=3)
def catalogue(case, ctx):
    r = ctx.bridge("core").call("key_all")
    need(r[0] == 24, "%s keys", r[0])
    for i in range(24):
        k = read_key(r[1 + 4 * i:5 + 4 * i])
        check_valid(k, i)
        need(k["name"] == M.KEY_NAMES[i], "name %s", k)
    return True


SAME = [[a for a in SP if M.KEY_SPELLINGS[a] == k] for k in range(24)]


@CHECK.clause("assigning", st.lists(st.one_of(
    st.sampled_from(SP), st.sampled_from([g for g in SAME if len(g) > 1]).flatmap(st.sampled_from),
    st.sampled_from(["", "H"])), min_size=1, max_size=6), quick=800)
def assigning(case, ctx):
    """Copies and variables assigned to are the key they were given, spelling included."""
    r = ctx.bridge("core").call("key_assign", len(case), *case)
    for i, s in enumerate(case):
        want = [M.KEY_SPELLINGS.get(s), s, int(s[:1].isupper()), int(s[:1].islower())] if s in M.KEY_SPELLINGS else None
        for j, what in enumerate(["assigned", "assigned from", "copied"]) :
            got = r[12 * i + 4 * j:12 * i + 4 * j + 4]
            if want is None:
                need(got[1:] == ["", 0, 0], "%s no key: %s", what, got)
            else:
                need(got == want, "key %s %s: %s", s, what, got)
        got = r[12 * len(case) + 4 + 4 * i:][:4]
        need(got == want if want else got[1:] == ["", 0, 0], "key %s in a list: %s", s, got)
    last = r[12 * len(case):][:4]
    need(last == r[12 * len(case) - 12:][:4], "assigned to itself: %s", last)
    return len(set(case)) > len(set(M.KEY_SPELLINGS.get(s) for s in case))
