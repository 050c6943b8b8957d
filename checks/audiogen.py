"""Generated recordings: samples are multiples of 2^-15, so every sample format stores them exactly."""
import math
import struct

import numpy as np

from chrgen import *

BLOCK, HOP = 16384, 2048
RATES = [16000, 22050, 44100, 48000]


HIGH_RATES = RATES + [88200, 96000]


def _fmt_chunk(tag, ch, sr, bits):
    return struct.pack("<4sIHHIIHH", b"fmt ", 16, tag, ch, sr, sr * ch * bits // 8, ch * bits // 8, bits)


def _wav(tag, ch, sr, bits, data):
    pad = b"\0" if len(data) % 2 else b""
    body = b"WAVE" + _fmt_chunk(tag, ch, sr, bits) + struct.pack("<4sI", b"data", len(data)) + data + pad
    return struct.pack("<4sI", b"RIFF", len(body)) + body


def encode(x, sr, kind="pcm16"):
    """x: (frames, channels) int16-valued array."""
    ch = x.shape[1]
    x = x.astype(np.int64)
    if kind == "pcm16":
        return _wav(1, ch, sr, 16, x.astype("<i2").tobytes())
    if kind == "pcm24":
        b = (x * 256).astype("<i4").reshape(-1, 1).view(np.uint8)[:, :3]
        return _wav(1, ch, sr, 24, b.tobytes())
    if kind == "pcm32":
        return _wav(1, ch, sr, 32, (x * 65536).astype("<i4").tobytes())
    if kind == "float":
        return _wav(3, ch, sr, 32, (x / 32768.0).astype("<f4").tobytes())
    if kind == "double":
        return _wav(3, ch, sr, 64, (x / 32768.0).astype("<f8").tobytes())
    if kind == "au":
        d = x.astype(">i2").tobytes()
        return struct.pack(">4sIIIII", b".snd", 24, len(d), 3, sr, ch) + d
    if kind == "aiff":
        d = x.astype(">i2").tobytes()
        m, e = math.frexp(sr)
        ext = struct.pack(">HQ", e - 1 + 16383, int(m * 2 ** 64))
        comm = struct.pack(">4sIhIh", b"COMM", 18, ch, x.shape[0], 16) + ext
        ssnd = struct.pack(">4sIII", b"SSND", 8 + len(d), 0, 0) + d + (b"\0" if len(d) % 2 else b"")
        body = b"AIFF" + comm + ssnd
        return struct.pack(">4sI", b"FORM", len(body)) + body
    raise KeyError(kind)


def encode_float(x, sr):
    """x: (frames, channels) of full scale 1."""
    return _wav(3, x.shape[1], sr, 32, x.astype("<f4").tobytes())


KINDS = ["pcm16", "pcm24", "pcm32", "float", "double", "au", "aiff"]
EXT = {"au": ".au", "aiff": ".aiff"}


def chord(notes, sr, n, cents=0.0, decay=0.5, nh=5, seed=0, amp=0.7):
    r = np.random.default_rng(seed)
    t = np.arange(n) / sr
    x = np.zeros(n)
    for m in notes:
        f = 440 * 2 ** ((m - 69 + cents / 100.0) / 12)
        for h in range(1, nh + 1):
            if f * h < sr / 2.2:
                x += decay ** (h - 1) * np.sin(2 * np.pi * f * h * t + r.random() * 6.28)
    return amp * x / max(np.abs(x).max(), 1e-9) if len(notes) else x


def q15(x):
    return np.clip(np.round(np.asarray(x) * 32768), -32768, 32767).astype(np.int64)


def spectrum(ctx, data, name="a.wav", slot=0, component="chroma!fast", filler=0):
    """Loads audio bytes; (status, times, frames x 12 from C, sequence)."""
    p = write(ctx, data, name)
    s = load(ctx, p, slot=slot, audio=True, filler=filler, component=component, timeout=120)
    r = show(ctx, slot, component)
    need(r["status"] == s, "status")
    rows = rows_of(r["cfirst"])
    return s, [t for t, _ in rows], np.array([v for _, v in rows]).reshape(-1, 12), r["seq"]


def piece(max_parts=3, blocks=3):
    """A recording of a few chords or noises."""
    part = st.fixed_dictionaries({
        "kind": st.sampled_from(["chord", "chord", "noise", "silence", "click"]),
        "notes": st.lists(st.integers(36, 90), min_size=1, max_size=4),
        "n": st.integers(200, BLOCK), "decay": st.floats(0.25, 0.875, width=32), "nh": st.integers(1, 8),
        "amp": st.floats(0.0625, 1, width=32), "cents": st.integers(-50, 50)})
    return st.fixed_dictionaries({"parts": st.lists(part, min_size=1, max_size=max_parts),
                                  "sr": st.sampled_from(RATES + [8000, 11025, 32000, 88200, 96000]),
                                  "seed": st.integers(0, 10 ** 6)})


def render(case):
    r = np.random.default_rng(case["seed"])
    out = []
    for p in case["parts"]:
        n = p["n"]
        if p["kind"] == "chord":
            out.append(chord(p["notes"], case["sr"], n, p["cents"], p["decay"], p["nh"], case["seed"], p["amp"]))
        elif p["kind"] == "noise":
            out.append(p["amp"] * r.uniform(-1, 1, n))
        elif p["kind"] == "silence":
            out.append(np.zeros(n))
        else:
            x = np.zeros(n)
            x[r.integers(0, n)] = p["amp"]
            out.append(x)
    return q15(np.concatenate(out))
