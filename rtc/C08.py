from util import *
import numpy as np
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.timeseries import TimeDimension, Seconds
from zounds.spectral import (FrequencyBand, FrequencyScale, LinearScale, GeometricScale, ExplicitScale, BarkScale,
                             ExplicitFrequencyDimension, FrequencyAdaptive)
from zounds.spectral.weighting import FrequencyWeighting


def rand_scale(t):
    n = t.rng.choice([1, 2, 2, 3, 4, 6, 9, 12])
    k = t.rng.choice(['explicit', 'explicit', 'linear', 'geometric', 'bark'])
    if k == 'linear':
        return LinearScale(FrequencyBand(0, n * t.rng.randint(1, 9)), n)
    if k == 'geometric':
        return GeometricScale(t.rng.randint(1, 20), t.rng.randint(30, 60), t.rng.choice([.05, .2, .5]), n)
    if k == 'bark':
        return BarkScale(FrequencyBand(t.rng.randint(1, 100), t.rng.randint(200, 4000)), n)
    lo = sorted(t.rng.sample(range(1, 40), n))
    hi = []
    for a in lo:
        hi.append(max(a + t.rng.randint(1, 12), hi[-1] + 1 if hi else 1))
    for i in range(1, n):
        # bands that start where the one before starts
        if t.rng.random() < .2:
            lo[i] = lo[i - 1]
    return ExplicitScale([FrequencyBand(a, b) for a, b in zip(lo, hi)])


def problem(t):
    s = rand_scale(t)
    rows = t.rng.choice([1, 2, 3])
    widths = [t.rng.randint(1, 5) for _ in s]
    x = np.arange(rows * sum(widths)).reshape(rows, -1) + 100
    blocks = np.split(x, np.cumsum(widths)[:-1], axis=1)
    blocks = [np.asfortranarray(b) if t.rng.random() < .3 else b.astype(t.rng.choice([np.float64, np.int64, np.float32])) for b in blocks]
    td = TimeDimension(Seconds(1))
    case = dict(bands=[(float(b.start_hz), float(b.stop_hz)) for b in s], widths=widths, rows=rows)
    return s, list(s), blocks, td, case


def same_blocks(t, x, bands, blocks, case, what):
    for i, (b, want) in enumerate(zip(bands, blocks)):
        got = x[:, b]
        t.equal(np.asarray(got), want, what, dict(case, band=i))


def check_wide(t):
    """bands with more coefficients than small integers can count"""
    for _ in t.times(2, 8):
        s = rand_scale(t)
        widths = [t.rng.randint(1, 80000) for _ in s]
        widths[t.rng.randrange(len(widths))] = t.rng.randint(66000, 80000)
        blocks = [np.full((1, w), i, dtype=np.float32) for i, w in enumerate(widths)]
        case = t.current = dict(widths=widths)
        x = FrequencyAdaptive(blocks, TimeDimension(Seconds(1)), s)
        t.expect(x.shape == (1, sum(widths)), 'every block is stored', case)
        same_blocks(t, x, list(s), blocks, case, 'the block of a wide band')
        for got, want in zip(x.iter_bands(), blocks):
            t.equal(np.asarray(got), want, 'iteration yields the wide blocks', case)


def check_blocks(t):
    for _ in t.times(250, 2500):
        s, bands, blocks, td, case = problem(t)
        t.current = case
        x = FrequencyAdaptive(blocks, td, s)
        t.equal(np.asarray(x), np.concatenate(blocks, axis=1), 'every block is stored, in order', case)
        same_blocks(t, x, bands, blocks, case, 'the block of a band')
        it = list(x.iter_bands())
        t.expect(len(it) == len(bands), 'one block per band', case)
        for got, want in zip(it, blocks):
            t.equal(np.asarray(got), want, 'iteration yields the blocks in order', case)
        how = t.rng.choice(['constructor', 'like_dims', 'from_array_with_units'])
        raw = np.asarray(x)
        if how == 'constructor':
            y = FrequencyAdaptive(raw, td, explicit_freq_dimension=x.frequency_dimension)
        elif how == 'like_dims':
            y = x.like_dims(raw)
        else:
            y = FrequencyAdaptive.from_array_with_units(ArrayWithUnits(raw, x.dimensions))
        t.expect(isinstance(y, FrequencyAdaptive), 'an adaptive array', dict(case, how=how))
        same_blocks(t, y, bands, blocks, dict(case, how=how), 'the block of a band of a rebuilt array')


def check_wider(t):
    for _ in t.times(400, 4000):
        s, bands, blocks, td, case = problem(t)
        x = FrequencyAdaptive(blocks, td, s)
        edges = sorted(set([max(0., float(v)) for b in bands for v in (b.start_hz, b.stop_hz)] + [0., bands[-1].stop_hz + 1.]))
        a = t.rng.choice(edges[:-1]) + t.rng.choice([0, 0, .125])
        b = t.rng.choice(edges) + t.rng.choice([0, 0, .125])
        if not a < b or FrequencyBand(a, b) in bands:
            continue
        want = [i for i, d in enumerate(bands) if d.stop_hz >= a and d.start_hz < b]
        if not want:
            continue
        case = t.current = dict(case, band=(a, b))
        r = x[:, FrequencyBand(a, b)]
        t.equal(np.asarray(r), np.concatenate([blocks[i] for i in want], axis=1), 'the coefficients of all overlapping bands', case)
        d = r.dimensions[1]
        t.expect(isinstance(d, ExplicitFrequencyDimension) and list(d.scale) == [bands[i] for i in want], 'the overlapping bands', case)
        same_blocks(t, r, [bands[i] for i in want], [blocks[i] for i in want], case, 'the block of a band of the result')


def check_history(t):
    """one array indexed by many bands, one after another"""
    for _ in t.times(200, 2000):
        s, bands, blocks, td, case = problem(t)
        x = FrequencyAdaptive(blocks, td, s)
        edges = sorted(set([max(0., float(v)) for b in bands for v in (b.start_hz, b.stop_hz)] + [0., bands[-1].stop_hz + 1.]))
        near, log = edges[0], []
        for _k in range(t.rng.randint(2, 8)):
            r = t.rng.random()
            case = t.current = dict(case, log=list(log))
            if r < .15:
                for got, want in zip(x.iter_bands(), blocks):
                    t.equal(np.asarray(got), want, 'iteration yields the blocks, again', case)
                continue
            if r < .35:
                i = t.rng.randrange(len(bands))
                log.append(i)
                t.equal(np.asarray(x[:, bands[i]]), blocks[i], 'the block of a band, again', dict(case, band=i))
                near = max(0., float(bands[i].start_hz))
                continue
            if r < .42:
                x = t.rng.choice([x.like_dims, lambda y: y])(np.asarray(x) * 1) if t.rng.random() < .5 else x.like_dims(np.asarray(x))
                if not isinstance(x, FrequencyAdaptive):
                    x = FrequencyAdaptive(blocks, td, s)
                continue
            a = near if t.rng.random() < .6 else t.rng.choice(edges[:-1]) + t.rng.choice([0, 0, .125])
            b = t.rng.choice(edges) + t.rng.choice([0, 0, .125])
            if not a < b or FrequencyBand(a, b) in bands:
                continue
            near = a
            want = [i for i, d in enumerate(bands) if d.stop_hz >= a and d.start_hz < b]
            if not want:
                continue
            log.append((a, b))
            case = t.current = dict(case, band=(a, b))
            t.equal(np.asarray(x[:, FrequencyBand(a, b)]), np.concatenate([blocks[i] for i in want], axis=1), 'the coefficients of all overlapping bands, again', case)


class Weights(FrequencyWeighting):
    def _wdata(self, scale):
        return np.array([b.start_hz * 2. + b.stop_hz for b in scale])


def check_weights(t):
    for _ in t.times(300, 3000):
        s, bands, blocks, td, case = problem(t)
        x = FrequencyAdaptive(blocks, td, s)
        lo = t.rng.randrange(len(bands))
        hi = t.rng.randint(lo + 1, len(bands))
        sub = t.rng.random() < .4
        if sub and hi - lo == 1:
            x = x[:, bands[lo]]
            bands, blocks = bands[lo:hi], blocks[lo:hi]
        case = t.current = dict(case, sub=(lo, hi) if sub and hi - lo == 1 else None)
        f = [b.start_hz * 2. + b.stop_hz for b in bands]
        want = np.concatenate([b.astype(float) * w for b, w in zip(blocks, f)], axis=1)
        transposed = t.rng.random() < .4
        a = ArrayWithUnits(np.asarray(x, dtype=float), x.dimensions)
        if transposed:
            a, want = a.T, want.T
        case = dict(case, transposed=transposed)
        t.close(np.asarray(a * Weights()), want, 'every coefficient is weighted by the weight of its band', case)


def check_mismatch(t):
    for _ in t.times(100, 1000):
        s = rand_scale(t)
        n = len(s)
        m = n + t.rng.choice([-1, 1, 2]) if n > 1 else 2
        case = t.current = dict(bands=n, slices=m)
        t.raises(ValueError, lambda: ExplicitFrequencyDimension(s, [slice(i, i + 1) for i in range(m)]), 'another number of slices is rejected', case)
