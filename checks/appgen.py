"""Running the command-line program, and inputs for it."""
import random
import shutil

from chrgen import *
import bridge as BR

SCALES = [[0, 2, 4, 5, 7, 9, 11], [0, 2, 3, 5, 7, 8, 10], [0, 2, 3, 5, 7, 8, 11]]
DISPLAY = [n[0].upper() + n[1:] for n in M.KEY_NAMES]
MAJ = ["krumhansl_kessler", "aarden_essen", "bellman_budge", "sapp", "temperley"]
KTS = ["exponential2", "exponential10"]


class Run:
    def __init__(self, rc, out, err):
        self.rc, self.out, self.err = rc, out, err

    def text(self):
        return "exit %s, stdout %r, stderr %r" % (self.rc, self.out[:300], self.err[-300:])


def app(ctx, args, component="app!fast", timeout=60, cwd=None):
    env = dict(os.environ)
    env.update(BR.ENV)
    try:
        p = subprocess.run([build.ensure_cached(component)] + args, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout,
                           cwd=cwd or ctx.tmp)
    except subprocess.TimeoutExpired:
        raise BridgeTimeout("%s: no answer within %d s" % (args, timeout))
    r = Run(p.returncode, p.stdout.decode(errors="replace"), p.stderr.decode(errors="replace"))
    if r.rc < 0 or r.rc in (99, 134) or "runtime error" in r.err or "AddressSanitizer" in r.err:
        raise Violation("%s crashed: %s" % (args, r.text()))
    return r


def key_of(line):
    """Key number of an output line 'F#<tab>minor'."""
    parts = line.rstrip("\n").split("\t")
    need(len(parts) == 2 and parts[1] in ("major", "minor") and line.endswith("\n") and line.count("\n") == 1,
         "the answer is %r", line)
    for k in range(24):
        if DISPLAY[k] == parts[0] and (parts[1] == "major") == (k < 12):
            return k
    raise Violation("the answer names no key: %r" % line)


@st.composite
def notes(draw, maxn=24):
    out = []
    for _ in range(draw(st.integers(1, 2))):
        tonic, sc = draw(st.integers(0, 11)), draw(st.sampled_from(SCALES))
        seg = draw(st.lists(st.one_of(st.sampled_from(sc), st.sampled_from(sc), st.integers(0, 11)),
                            min_size=1, max_size=maxn // 2))
        out += [(x + tonic) % 12 for x in seg]
    return out


def notes_csv(obs):
    """A chromagram whose note sequence is obs (each frame sounds one note; repeats alternate)."""
    rows = []
    for i, pc in enumerate(obs):
        v = [0.0] * 12
        v[(pc - A) % 12] = 2.5
        if i % 2:
            v[(pc - A + 1) % 12] = 1.25  # (an inaudible difference, so that repeated notes are not one)
        rows.append((i * 0.5, v))
    return text(tokens(rows, 1))


def vlq(n):
    out = [n & 127]
    while n > 127:
        n >>= 7
        out.insert(0, 128 | n & 127)
    return bytes(out)


def track(events, running=False):
    """events: (delta, bytes)."""
    d, last = b"", None
    for delta, b in events:
        if running and b[0] < 0xf0 and b[0] == last:
            d += vlq(delta) + b[1:]
        else:
            d += vlq(delta) + b
        last = b[0] if b[0] < 0xf0 else None
    d += vlq(0) + b"\xff\x2f\x00"
    return b"MTrk" + len(d).to_bytes(4, "big") + d


def smf(tracks, running=False, tpq=96):
    return b"MThd" + (6).to_bytes(4, "big") + (0 if len(tracks) == 1 else 1).to_bytes(2, "big") + \
        len(tracks).to_bytes(2, "big") + tpq.to_bytes(2, "big") + b"".join(track(t, running) for t in tracks)


def notes_midi(obs, seed=0):
    r = random.Random(seed)
    ev = []
    for pc in obs:
        p = pc + 12 * r.randint(2, 7)
        ev += [(r.randint(0, 50), bytes([0x90, p, r.randint(1, 127)])), (r.randint(1, 50), bytes([0x80, p, 0]))]
    return smf([ev])


def expect(obs, major, minor, kt):
    """Key the detector must report, or None where an exact tie leaves it open; and the scores."""
    T = M.builtin_transition_matrix(kt)
    _, path, margin, v2 = M.detect(M.PROFILES_MAJOR.get(major, major) if isinstance(major, str) else major,
                                   M.PROFILES_MINOR.get(minor, minor) if isinstance(minor, str) else minor, T, obs)
    s = sorted(v2)
    ok = margin > 1e-4 and s[-1] - s[-2] > 1e-4
    return (int(np.argmax(v2)) if ok else None), v2, margin


import numpy as np
