"""The plugins' bridge, spectra for it and reference formulas in double precision."""
import numpy as np

from common import *

NBPS, NNOTE = 3, 256
TREBLE = .5 - .5 * np.cos(2 * np.pi * (np.arange(84) + .5) / 84)
BASS = np.where(np.arange(84) < 37, .5 - .5 * np.cos(2 * np.pi * (np.arange(84) + .5) * 3 / 112), 0)
NOTES_A = ["A", "Bb", "B", "C", "C#", "D", "Eb", "E", "F", "F#", "G", "Ab"]


def fpath(ctx, name):
    return os.path.join(ctx.tmp, name)


def put(ctx, arr, name="in.bin", t="<f4"):
    p = fpath(ctx, name)
    np.asarray(arr, t).tofile(p)
    return p


def take(ctx, name="out.bin", t="<f4"):
    return np.fromfile(fpath(ctx, name), t)


class Feat:
    __slots__ = ("t", "dur", "label", "v")


def parse(r, i, bulk, pos):
    """One feature set from the response tokens: {output: [Feat]}."""
    out = {}
    n = r[i]
    i += 1
    for _ in range(n):
        o, c = r[i], r[i + 1]
        i += 2
        fs = []
        for _ in range(c):
            f = Feat()
            f.t = r[i + 1] if r[i] else None
            f.dur = r[i + 3] if r[i + 2] else None
            f.label = r[i + 4]
            f.v = bulk[pos:pos + r[i + 5]]
            pos += r[i + 5]
            i += 6
            fs.append(f)
        out[o] = fs
    return out, i, pos


class Plug:
    """A plugin in a slot of the bridge."""

    def __init__(self, ctx, kind, rate, block, step=2048, slot=0, component="nnls!fast", params=(), query=True):
        self.ctx, self.slot, self.block, self.b = ctx, slot, block, ctx.bridge(component)
        self.b.call("new", slot, kind, float(rate))
        for k, v in params:
            self.b.call("set", slot, k, float(v))
        self.outs = {}
        if query:
            self.query()
        need(self.b.call("init", slot, 1, step, block)[0] == 1, "initialise refused one channel")

    def query(self):
        r = self.b.call("outs", self.slot)
        i = 1
        for k in range(r[0]):
            self.outs[r[i]] = k
            i += 3 + r[i + 2] + 1

    def feed(self, frames, t0=0.0, dt=0.125):
        """frames: (n, block/2+1) complex; the feature set of each process call."""
        f = np.empty((len(frames), self.block + 2), "<f4")
        f[:, 0::2], f[:, 1::2] = np.real(frames), np.imag(frames)
        r = self.b.call("feed", self.slot, put(self.ctx, f), float(t0), float(dt), fpath(self.ctx, "out.bin"), timeout=120)
        bulk, i, pos, sets = take(self.ctx), 1, 0, []
        for _ in range(r[0]):
            s, i, pos = parse(r, i, bulk, pos)
            sets.append(s)
        need(pos == len(bulk) and len(sets) == len(frames), "feature bookkeeping")
        return sets

    def finish(self):
        r = self.b.call("finish", self.slot, fpath(self.ctx, "out.bin"), timeout=120)
        s, i, pos = parse(r, 0, take(self.ctx), 0)
        return {name: s.get(k, []) for name, k in self.outs.items()}

    def reset(self):
        self.b.call("reset", self.slot)


def mat(feats):
    return np.array([f.v for f in feats], float)


def tone_signal(parts, rate, n, seed=0, noise=0.0):
    """parts: [(midi pitch, amplitude, harmonics, decay)]."""
    r = np.random.default_rng(seed)
    t = np.arange(n) / rate
    x = noise * r.uniform(-1, 1, n) if noise else np.zeros(n)
    for p, a, nh, d in parts:
        f = 440 * 2 ** ((p - 69) / 12)
        for h in range(1, nh + 1):
            if f * h < rate / 2.1:
                x += a * d ** (h - 1) * np.sin(2 * np.pi * f * h * t + r.random() * 6.28)
    return x


def stft(x, block, step):
    w = .5 - .5 * np.cos(2 * np.pi * np.arange(block) / block)
    n = max(1, (len(x) - block) // step + 1)
    x = np.concatenate([x, np.zeros(max(0, block - len(x)))])
    return np.array([np.fft.rfft(w * x[i * step:i * step + block]) for i in range(n)])


def cospuls(x, width):
    return np.where(np.abs(x) <= .5 * width, np.cos(x * 2 * np.pi / width) * .5 + .5, 0.0)


_K = {}


def kernel(fs, block, cols=None):
    """The map from FFT magnitudes to the 256 third-semitone bins (rows), from its definition: each FFT bin's raised
    cosine of two bins' width against each pitch's raised cosine of two thirds of a semitone, scaled by the
    density of pitches, summed over an 80-fold oversampled axis."""
    key = (fs, block, None if cols is None else tuple(cols))
    if key in _K:
        return _K[key]
    midi = np.array([20 + k / 3.0 for k in range(255)] + [105.0])
    f = 440 * 2.0 ** ((midi - 69) / 12)
    nfft = block // 2
    bw = fs / block
    out = np.zeros((256, nfft))
    off = np.arange(-80, 80)
    act = cospuls(off * bw / 80, 2 * bw)
    lo, hi = f[0] * 2 ** (-1 / 30.), f[-1] * 2 ** (1 / 30.)
    for i in (range(1, nfft) if cols is None else cols):
        x = (80 * i + off) * bw / 80
        if x[-1] < lo or x[0] > hi or i < 1:
            continue
        with np.errstate(divide="ignore"):
            d = 36 * (np.log2(x)[None, :] - np.log2(f)[:, None])
        d[~np.isfinite(d)] = -1e9
        with np.errstate(divide="ignore", invalid="ignore"):
            g = cospuls(d, 2.0) / (np.log(2.0) / 36 * x)[None, :]
        g[:, x <= 0] = 0
        out[:, i] = g @ act
    if len(_K) > 6:
        _K.clear()
    _K[key] = out
    return out


_D = {}


def notedict(s):
    """Note profiles: 20 harmonics with amplitudes s^(h-1), each a raised cosine three bins wide; (256, 84)."""
    s = float(s)
    if s not in _D:
        d = np.zeros((256, 84))
        b = np.arange(1, 257.0)
        for k in range(84):
            for h in range(1, 21):
                c = (k + 1) * 3 + 1 + 36 * np.log2(h)
                d[:, k] += cospuls(b - c, 3.0) * s ** (h - 1)
        if len(_D) > 40:
            _D.clear()
        _D[s] = d
    return _D[s]


def magnitudes(frames, block, rollon=0.0):
    m = np.minimum(np.abs(frames[:, :block // 2]), block)
    out = m.copy()
    if rollon > 0:
        for k in range(len(m)):
            e = (m[k] ** 2).sum()
            c = 0.0
            for i in range(2, block // 2):
                c += m[k, i] ** 2
                if c < e * rollon / 100:
                    out[k, i - 2] = 0
                else:
                    break
    out[m.max(axis=1) < 2] = 0
    return out


def tuning_of(sums):
    """Cycle position (-1/2..1/2 semitone) of the three sums of bins a third of a semitone apart."""
    z = sums @ np.exp(2j * np.pi * np.arange(3) / 3)
    return np.angle(z) / (2 * np.pi), abs(z)


def tuning_sums(logfreq):
    """Per frame: total of each of the three positions within the semitone, over bins 0..161."""
    return logfreq[:, :162].reshape(len(logfreq), -1, 3).sum(axis=1)


def running_tuning(logfreq):
    """Per frame the decaying totals (0.997 from tone to tone, lowest tone first, frame after frame)."""
    w = .003 * .997 ** np.arange(53, -1, -1.0)
    acc, out = np.zeros(3), []
    for f in logfreq:
        acc = acc * .997 ** 54 + w @ f[:162].reshape(54, 3)
        out.append(acc)
    return np.array(out)


def special_conv(x, k):
    """Running weighted mean, constant beyond the first and last full window."""
    v = np.convolve(x, k, "valid")
    h = len(k) // 2
    return np.concatenate([np.full(h, v[0]), v, np.full(h, v[-1])])


HAMMING = .54 - .46 * np.cos(2 * np.pi * np.arange(19) / 18)
HAMMING = HAMMING / HAMMING.sum()


def tune(frame, pos):
    """A log-frequency frame moved so that the tuning pos becomes 0."""
    sh = pos * 3
    i = int(np.floor(sh))
    fr = sh - i
    out = np.zeros(256)
    k = np.arange(2, 253)
    out[2:253] = frame[k + i] * (1 - fr) + frame[k + i + 1] * fr
    return out


def whiten(x, w):
    mean = special_conv(x, HAMMING)
    std = np.sqrt(special_conv((x - mean) ** 2, HAMMING))
    out = x.copy()
    p = std > 0
    out[p] = np.where(x[p] > mean[p], (x[p] - mean[p]) / np.maximum(std[p], 1e-300) ** w, 0)
    return out
