from common import *

CHECK = Check(
    "C02",
    "Key relations: a key given by any of its spellings or its code, then a random word over "
    "{relative, parallel, dominant, subdominant, copy, container copy}, against tonal arithmetic.  "
    "Non-trivial: the word holds a relation.",
    components=["core"])
SP = sorted(M.KEY_SPELLINGS)
start = st.one_of(st.sampled_from(SP), st.integers(0, 23))


def run(ctx, k, word, fill=7):
    b = ctx.bridge("core")
    r = b.call("key_rel", fill, isinstance(k, str), k, word)
    return r


def model(k, word):
    k = M.KEY_SPELLINGS[k] if isinstance(k, str) else k
    for op in word:
        k = {"r": M.relative, "p": M.parallel, "d": M.fifth, "s": lambda x: M.fifth(x, -1)}.get(
            op, lambda x: x)(k)
    return k


def verify(r, code):
    need(r[0] == code, "code %s, expected %s", r[0], code)
    need((r[2], r[3]) == ((1, 0) if code < 12 else (0, 1)), "mode flags %s for %s", r[2:], code)
    need(M.KEY_SPELLINGS.get(r[1]) == code, "name %r for code %s", r[1], code)


@CHECK.clause("word", st.fixed_dictionaries({"k": start, "w": st.text("rpdscv", max_size=14)}), quick=5000)
def word(case, ctx):
    verify(run(ctx, case["k"], case["w"]), model(case["k"], case["w"]))
    return any(c in "rpds" for c in case["w"])


@CHECK.clause("single", st.fixed_dictionaries({"k": start, "w": st.sampled_from(list("rpds"))}), quick=700)
def single(case, ctx):
    verify(run(ctx, case["k"], case["w"]), model(case["k"], case["w"]))
    return case["w"]


LAWS = [("rr", ""), ("pp", ""), ("ds", ""), ("sd", ""), ("d" * 12, ""), ("s" * 12, ""),
        ("dr", "rd"), ("dp", "pd"), ("sr", "rs"), ("sp", "ps")]


@CHECK.clause("laws", st.fixed_dictionaries({"k": start, "w": st.text("rpds", max_size=6),
                                             "law": st.integers(0, len(LAWS) - 1)}), quick=3000)
def laws(case, ctx):
    a, b = LAWS[case["law"]]
    x, y = run(ctx, case["k"], case["w"] + a), run(ctx, case["k"], case["w"] + b)
    need(x[0] == y[0], "%s then %s gives %s, %s gives %s", case["w"], a, x, b, y)
    return "law%d" % case["law"]


@CHECK.clause("of_a_non_key", st.fixed_dictionaries({
    "k": st.one_of(st.sampled_from(["", "foo", "H", "Cm", "c major", "Bbb"]), st.integers(-50, -1),
                   st.integers(24, 60), st.integers(-2**31, -1)),
    "w": st.text("rpds", min_size=1, max_size=4), "fill": st.integers(-40, 60)}), quick=600,
    examples=[{"k": "foo", "w": "d", "fill": 3}, {"k": "foo", "w": "s", "fill": 30}, {"k": -1, "w": "r", "fill": 30}])
def of_a_non_key(case, ctx):
    r = run(ctx, case["k"], case["w"], case["fill"])
    need(not r[2] and not r[3], "%s of %r is the key %s", case["w"], case["k"], r)
    return True
