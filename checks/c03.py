from common import *

CHECK = Check(
    "C03",
    "Pitch-class names and codes: all 21 spellings in random letter case, all codes, near-miss strings "
    "and random numbers in pre-filled storage, random pairs.  Non-trivial: accepted spelling/code or "
    "near miss.",
    components=["core"], times=4)
SP = sorted(M.PC_SPELLINGS)
cased = st.tuples(st.sampled_from(SP), st.integers(0, 3)).map(
    lambda t: "".join(c.upper() if (t[1] >> i) & 1 else c for i, c in enumerate(t[0])))


@CHECK.clause("spelling", st.fixed_dictionaries({"s": cased, "fill": st.integers(0, 20)}), quick=1500)
def spelling(case, ctx):
    r = ctx.bridge("core").call("pc_str", case["fill"], case["s"])
    want = M.PC_SPELLINGS[case["s"].lower()]
    need(r[0] == want, "%r is pitch class %s, expected %s", case["s"], r[0], want)
    need(r[1] == M.PC_NAMES[want], "%r is named %r", case["s"], r[1])
    return "upper" if case["s"] != case["s"].lower() else True


@CHECK.clause("code", st.fixed_dictionaries({"v": st.integers(0, 11), "fill": st.integers(0, 20)}), quick=300)
def code(case, ctx):
    b = ctx.bridge("core")
    r = b.call("pc_int", case["fill"], case["v"])
    need(r == [case["v"], M.PC_NAMES[case["v"]]], "code %s gives %s", case["v"], r)
    need(b.call("pc_str", 3, r[1])[0] == case["v"], "name %s does not lead back", r[1])
    return True


near = st.one_of(
    st.tuples(cased, st.sampled_from(" #bBm-0abcdefgh\n\t"), st.integers(0, 2)).map(
        lambda t: t[0][:t[2]] + t[1] + t[0][t[2]:]),
    st.sampled_from(["", "H", "h", "#", "CC", "Cm", " c", "c ", "N"]), st.text(max_size=5))


@CHECK.clause("not_a_pitch_class", st.fixed_dictionaries({
    "what": st.one_of(near.filter(lambda s: s.lower() not in M.PC_SPELLINGS),
                      odd_ints(12)),
    "fill": st.integers(0, 11)}), quick=2500,
    examples=[{"what": "foo", "fill": 5}, {"what": 12, "fill": 3}, {"what": -1, "fill": 0}])
def not_a_pc(case, ctx):
    b = ctx.bridge("core")
    w = case["what"]
    r = b.call("pc_str" if isinstance(w, str) else "pc_int", case["fill"], w)
    need(not 0 <= r[0] < 12, "%r is reported as pitch class %s", w, r[0])
    need(r[1] == "", "%r has the name %r", w, r[1])
    return "text" if isinstance(w, str) else "number"


@CHECK.clause("order", st.fixed_dictionaries({"a": cased, "b": cased}), quick=2500)
def order(case, ctx):
    eq, ne, lt, gt, ca, cb = ctx.bridge("core").call("pc_cmp", case["a"], case["b"])
    a, b = M.PC_SPELLINGS[case["a"].lower()], M.PC_SPELLINGS[case["b"].lower()]
    need((ca, cb) == (a, b), "codes %s", (ca, cb))
    need((eq, ne, lt, gt) == (a == b, a != b, a < b, a > b), "comparison %s of %s", (eq, ne, lt, gt), case)
    return "enharmonic" if a == b else True


@CHECK.clause("catalogue", st.just({}), quick=3)
def catalogue(case, ctx):
    r = ctx.bridge("core").call("pc_all")
    need(r[0] == 12 and r[1:] == [x for i in range(12) for x in (i, M.PC_NAMES[i])], "catalogue %s", r)
    return True
