from util import *
import numpy as np
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.timeseries import TimeDimension
from zounds.spectral import (FrequencyBand, LinearScale, GeometricScale, MelScale, BarkScale, ExplicitScale, FrequencyDimension,
                             WindowingFunc, HanningWindowingFunc, OggVorbisWindowingFunc, apply_scale)


def source_scale(t):
    n = t.rng.randint(1, 40) if t.rng.random() < .95 else t.rng.randint(100, 400)
    lo = t.rng.choice([0, 0, 20, 37.5])
    return LinearScale(FrequencyBand(lo, lo + n * t.rng.choice([7, 13.25, 50])), n)


def target_scale(t, src):
    a, b = src.start_hz, src.stop_hz
    n = t.rng.randint(1, 9)
    k = t.rng.randrange(5)
    lo, hi = sorted([t.rng.uniform(a - 20, b + 50), t.rng.uniform(a + 1, b + 50)])
    lo, hi = max(lo, 1.5), max(hi, lo + 3, 5)
    if k == 0:
        return LinearScale(FrequencyBand(lo, hi), n)
    if k == 1:
        return GeometricScale(lo, hi + 1, t.rng.choice([.05, .3]), n)
    if k == 2:
        return (MelScale if t.rng.random() < .5 else BarkScale)(FrequencyBand(lo, hi), n)
    edges = sorted(t.rng.uniform(lo, hi + 9) for _ in range(n))
    return ExplicitScale([FrequencyBand(e, e + t.rng.uniform(.1, 60)) for e in edges])


def problem(t):
    src = source_scale(t)
    tgt = target_scale(t, src)
    sb = [(b.start_hz, b.stop_hz) for b in src]
    tb = [(b.start_hz, b.stop_hz) for b in tgt]
    close = any(abs(x - y) < 1e-6 for b in tb for y in b for c in sb for x in c)
    table = np.array([t.rng.uniform(.1, 1) for _ in range(400)])
    k = t.rng.randrange(5)
    if k == 0:
        window = func = t.rng.choice([1, .5, 2])
        win = lambda n: np.full(n, window, dtype=float)
    else:
        win = {1: np.hanning}.get(k, lambda n: table[:n] * (n + 1))
        window = HanningWindowingFunc() if k == 1 else WindowingFunc(win)
    frames = t.rng.randint(0, 5)
    raw = np.array([t.rng.uniform(-1, 1) for _ in range(frames * len(sb))]).reshape((frames, len(sb))).astype(t.rng.choice(['float64', 'float32']))
    case = dict(source=sb[:3] + [len(sb)], target=type(tgt).__name__, bands=tb[:4] + [len(tb)], window=k, frames=frames)
    t.current = case
    weights = np.zeros((len(tb), len(sb)))
    for i, (lo, hi) in enumerate(tb):
        inside = [j for j, (a, b) in enumerate(sb) if b > lo and a < hi]
        weights[i, inside] = win(len(inside))
    return close, src, tgt, window, raw, weights, case


def check_apply(t):
    for _ in t.times(4000):
        close, src, tgt, window, raw, weights, case = problem(t)
        if close:
            continue
        arr = ArrayWithUnits(raw, [TimeDimension(td(1, 's')), FrequencyDimension(src)])
        want = raw.dot(weights.T)
        got = tgt.apply(arr, window)
        t.expect(got.shape == (len(raw), len(weights)), 'shape', case, got.shape)
        t.expect(got.shape == want.shape and np.allclose(np.asarray(got), want, rtol=1e-4, atol=1e-5), 'weighted-sums', case)
        t.expect(np.array_equal(np.asarray(arr), raw), 'operand-unchanged', case)
        if t.rng.random() < .2:
            t.hold(got, 'weighted-sums', case)
        if len(raw):
            one = tgt.apply(ArrayWithUnits(raw[0], [FrequencyDimension(src)]), window)
            t.expect(np.shape(one) == (len(weights),) and np.allclose(np.asarray(one), want[0], rtol=1e-4, atol=1e-5), 'one-frame', case)


def check_spectrogram(t):
    for _ in t.times(1500):
        close, src, tgt, window, raw, weights, case = problem(t)
        if close:
            continue
        z = raw + 1j * raw[::-1] if t.rng.random() < .5 else raw
        arr = ArrayWithUnits(z, [TimeDimension(td(1, 's')), FrequencyDimension(src)])
        got = apply_scale(arr, tgt, window)
        want = np.abs(raw).dot(weights.T)
        t.expect(got.shape == want.shape and np.allclose(np.asarray(got), want, rtol=1e-4, atol=1e-5), 'spectrogram', case)
        if t.rng.random() < .2:
            t.hold(got, 'spectrogram', case)
        d = got.dimensions
        t.expect(isinstance(d[0], TimeDimension) and isinstance(d[1], FrequencyDimension) and d[1].scale == tgt, 'dimensions', case)
        got = apply_scale(arr, tgt)
        want = np.abs(raw).dot((weights_of(tgt, src) > 0).T)
        t.expect(got.shape == want.shape and np.allclose(np.asarray(got), want, rtol=1e-4, atol=1e-5), 'no-window', case)


def check_one_target(t):
    """one scale applied to representations on several source scales, with several windows"""
    for _ in t.times(300, 3000):
        n = t.rng.randint(1, 12)
        lo, w = t.rng.choice([0, 0, 20]), t.rng.choice([7, 13.25, 50])
        first = LinearScale(FrequencyBand(lo, lo + n * w), n)
        tgt = target_scale(t, first)
        tb = [(b.start_hz, b.stop_hz) for b in tgt]
        sources = [first] + [LinearScale(FrequencyBand(c, c + n * v), n) for c, v in ((0, 10), (30, w), (lo, 2 * w))]
        tables = [t.np_rng.uniform(.1, 1, 400) for _k in range(2)]
        wins = [(1, lambda k: np.ones(k)), (2, lambda k: np.full(k, 2.)), (HanningWindowingFunc(), np.hanning)]
        wins += [(WindowingFunc(lambda k, a=a: a[:k]), lambda k, a=a: a[:k]) for a in tables]
        log = []
        for _k in range(t.rng.randint(2, 6)):
            i, j = t.rng.randrange(len(sources)), t.rng.randrange(len(wins))
            src = sources[i]
            sb = [(b.start_hz, b.stop_hz) for b in src]
            if any(abs(x - y) < 1e-6 for b in tb for y in b for c in sb for x in c):
                continue
            log.append(([float(x) for x in sb[0]], j))
            case = t.current = dict(bands=tb, log=list(log), n=n)
            weights = np.zeros((len(tb), n))
            for k, (x, y) in enumerate(tb):
                inside = [q for q, (a, b) in enumerate(sb) if b > x and a < y]
                weights[k, inside] = wins[j][1](len(inside))
            raw = t.np_rng.uniform(-1, 1, (2, n))
            arr = ArrayWithUnits(raw, [TimeDimension(td(1, 's')), FrequencyDimension(src)])
            want = raw.dot(weights.T)
            absolute = np.abs(raw).dot(weights.T)
            for got, want in ((tgt.apply(arr, wins[j][0]), want), (apply_scale(arr, tgt, wins[j][0]), absolute)):
                t.expect(got.shape == want.shape and np.allclose(np.asarray(got), want, rtol=1e-4, atol=1e-5), 'weighted-sums-again', case)


def weights_of(tgt, src):
    return np.array([[1. if b.stop_hz > a.start_hz and b.start_hz < a.stop_hz else 0. for b in src] for a in tgt])
