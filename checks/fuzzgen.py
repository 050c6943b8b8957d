"""Coverage-guided search: runs a libFuzzer target; a failing input becomes a case of a clause that replays it."""
import glob
import os
import re
import subprocess

import bridge
import build
from engine import Violation

ENV = dict(bridge.ENV, ASAN_OPTIONS=bridge.ENV["ASAN_OPTIONS"].replace("exitcode=99:", "").replace("hard_rss_limit_mb=6000", "handle_abort=1"))


def _env():
    e = dict(os.environ)
    e.update(ENV)
    e.pop("VAMP_PATH")
    return e


def _why(text):
    for k in ("ORACLE: ", "ERROR: AddressSanitizer", "runtime error", "Assertion", "terminate called", "ERROR: libFuzzer", "what():"):
        m = re.search(".*" + re.escape(k) + ".*", text)
        if m:
            return m.group(0)[-300:]
    return text[-300:]


class Found(Violation):
    no_shrink = True


def one(ctx, component, data):
    """Run the target on one input."""
    p = os.path.join(ctx.tmp, "input")
    with open(p, "wb") as f:
        f.write(data)
    r = subprocess.run([build.ensure_cached(component), "-timeout=30", "-rss_limit_mb=4000", "-artifact_prefix=" + ctx.tmp + "/one-", p],
                       cwd=ctx.tmp, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
    if r.returncode:
        raise Violation("%s" % _why(r.stdout.decode(errors="replace")))


def search(ctx, component, case, clause, seeds, words, max_len=400, runs=(5000, 150000), seconds=(25, 400)):
    """case: {"seed"}; clause: the name of the clause that runs one()."""
    exe = build.ensure_cached(component)
    deep = ctx.tier == "thorough"
    d = os.path.join(ctx.tmp, "corpus")
    os.makedirs(d, exist_ok=True)
    for f in glob.glob(d + "/*"):
        os.unlink(f)
    for i, s in enumerate(seeds):
        with open("%s/s%d" % (d, i), "wb") as f:
            f.write(s)
    w = os.path.join(ctx.tmp, "words")
    with open(w, "w") as f:
        for x in words:
            f.write('"%s"\n' % "".join("\\x%02x" % b for b in x))
    pre = ctx.tmp + "/found-"
    r = subprocess.run([exe, "-seed=%d" % (case["seed"] * 7919 + ctx.seed), "-runs=%d" % runs[deep], "-max_total_time=%d" % seconds[deep],
                        "-max_len=%d" % max_len, "-dict=" + w, "-timeout=30", "-rss_limit_mb=4000", "-artifact_prefix=" + pre,
                        "-print_final_stats=1", "-len_control=20", d],
                       cwd=ctx.tmp, env=_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=seconds[deep] * 2 + 60)
    out = r.stdout.decode(errors="replace")
    if r.returncode:
        found = glob.glob(pre + "*")
        if not found:
            raise Violation("the fuzzer ended with %d: %s" % (r.returncode, _why(out)))
        small = ctx.tmp + "/small"
        subprocess.run([exe, "-minimize_crash=1", "-max_total_time=20", "-timeout=30", "-rss_limit_mb=4000", "-exact_artifact_path=" + small, found[0]],
                       cwd=ctx.tmp, env=_env(), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
        with open(small if os.path.exists(small) else found[0], "rb") as f:
            data = f.read()
        e = Found("%s on %r" % (_why(out), data[:200]))
        e.replay_as = (clause, {"data": data.hex()})
        for f in found:
            os.unlink(f)
        raise e
    n = int((re.search(r"number_of_executed_units: (\d+)", out) or [0, 0])[1])
    new = int((re.search(r"new_units_added: *(\d+)", out) or [0, 0])[1])
    cov = int((re.findall(r"cov: (\d+)", out) or [0])[-1])
    ctx.labels["fuzzer executions"] = ctx.labels.get("fuzzer executions", 0) + n
    ctx.labels["inputs that reached something new"] = ctx.labels.get("inputs that reached something new", 0) + new
    ctx.labels["edges reached (most)"] = max(ctx.labels.get("edges reached (most)", 0), cov)
    return new > 0
