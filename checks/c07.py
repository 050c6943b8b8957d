from hmmgen import *

CHECK = Check(
    "C07",
    "Histories over up to 4 live models: create, decode, decode again, copy, read, print, in random "
    "order and interleaved; every decode compared with the first one and with the reference decoder.  "
    "Non-trivial: some model is decoded at least twice or decoded after a copy.",
    components=["core"])
slot = st.integers(0, 2)
op = st.one_of(
    st.tuples(st.just("new"), slot, st.integers(0, 2)).map(list),
    st.tuples(st.just("run"), slot).map(list), st.tuples(st.just("run"), slot).map(list),
    st.tuples(st.just("run"), slot).map(list),
    st.tuples(st.just("copy"), slot, slot).map(list), st.tuples(st.just("get"), slot).map(list),
    st.tuples(st.just("print"), slot).map(list))


@CHECK.clause("history", st.fixed_dictionaries({
    "models": st.lists(model(max_states=4, max_obs=5), min_size=3, max_size=3),
    "ops": st.lists(op, min_size=3, max_size=16)}), quick=1200, workers=3)
def history(case, ctx):
    return follow(case["models"], case["ops"], ctx)


@CHECK.clause("large", st.fixed_dictionaries({
    "models": st.lists(large, min_size=3, max_size=3), "ops": st.lists(op, min_size=3, max_size=12)}), quick=60, workers=2)
def large_(case, ctx):
    """Models of many states and long music keep apart as small ones do."""
    return follow([grow(m) for m in case["models"]], case["ops"], ctx)


def follow(models, ops, ctx):
    b = ctx.bridge("core")
    slots = {}
    multi = False
    for o in [["new", i, i] for i in range(3)] + ops:
        k, s = o[0], o[1]
        if k == "new":
            need(b.call("hmm_new", s, *args(models[o[2]]))[0] == UNINIT, "a new model claims to be decoded")
            slots[s] = {"m": models[o[2]], "res": None, "runs": 0}
            continue
        if s not in slots:
            continue
        x = slots[s]
        if k == "run":
            d = parse(b.call("hmm_run", s))
            verify(x["m"], d, "decode %d: " % (x["runs"] + 1))
            if x["res"]:
                multi = True
                need((d["path"], d["max"], d["vec"]) == x["res"], "decoding again gave another answer")
            x["res"] = (d["path"], d["max"], d["vec"])
            x["runs"] += 1
        elif k == "get":
            stt, n = b.call("hmm_stat", s)
            need((stt == READY) == (x["res"] is not None), "status %s after %d decodes", stt, x["runs"])
            need(n == (len(x["res"][0]) if x["res"] else 0), "%d keys held", n)
            if x["res"]:
                d = parse(b.call("hmm_get", s))
                need((d["path"], d["max"], d["vec"]) == x["res"], "reading gave another answer")
        elif k == "copy":
            b.call("hmm_copy", s, o[2])
            slots[o[2]] = dict(x)
            multi = multi or x["runs"] > 0
        elif k == "print":
            t = b.call("hmm_print", s)[0]
            need(t.count("\nO: ") + t.startswith("O: ") == len(x["m"]["obs"]), "printed observations")
    return "multi" if multi else False
