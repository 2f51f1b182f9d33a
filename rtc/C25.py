from util import *
import numpy as np
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.timeseries import TimeDimension
from zounds.spectral import (FrequencyBand, LinearScale, GeometricScale, MelScale, BarkScale, FrequencyDimension,
                             ExplicitFrequencyDimension, AWeighting, WindowingFunc, IdentityWindowingFunc,
                             HanningWindowingFunc, OggVorbisWindowingFunc, FrequencyAdaptive)
from zounds.spectral.weighting import FrequencyWeighting


class Tables(FrequencyWeighting):
    """any weights, one for each band"""

    def __init__(self, t):
        super(Tables, self).__init__()
        self.rng, self.table = t.rng, {}

    def _wdata(self, scale):
        return np.array([self.of(b) for b in scale])

    def of(self, band):
        k = band.start_hz, band.stop_hz
        if k not in self.table:
            self.table[k] = self.rng.choice([-3, -2, -.5, .25, .5, 1.5, 2, 3, 7])
        return self.table[k]


def a_scale(t, n):
    k = t.rng.randrange(4)
    if k == 0:
        return LinearScale(FrequencyBand(20, 4000), n)
    if k == 1:
        return GeometricScale(20, 5000, t.rng.choice([.05, .2]), n)
    return (MelScale if k == 2 else BarkScale)(FrequencyBand(20, 4000), n)


def problem(t):
    rank = t.rng.choice([1, 2, 2, 3, 3, 4])
    ax = t.rng.randrange(rank)
    bands = t.rng.choice([1, 2, 3, 4, 5, 6, 6, 60])
    scale = a_scale(t, bands)
    explicit = t.rng.random() < .4
    owner = list(range(bands))
    if explicit:
        widths = [t.rng.randint(1, 4) for _ in range(bands)]
        edges = [0]
        for w in widths:
            edges.append(edges[-1] + w)
        owner = [b for b, w in enumerate(widths) for _ in range(w)]
        fdim = ExplicitFrequencyDimension(scale, [slice(a, b) for a, b in zip(edges, edges[1:])])
    else:
        fdim = FrequencyDimension(scale)
    shape = [t.rng.choice([0, 1, 2, 3, len(owner)]) for _ in range(rank)]
    shape[ax] = len(owner)
    raw = np.array([t.rng.randint(-40, 40) for _ in range(int(np.prod(shape)))], dtype=t.rng.choice(['float64', 'float32', 'int64', 'complex128'])).reshape(shape)
    if raw.dtype.kind == 'c':
        raw = raw + 1j * raw[::-1]
    dims = [fdim if j == ax else t.rng.choice([None, IdentityDimension(), TimeDimension(td(j + 1, 's'))]) for j in range(rank)]
    w = Tables(t)
    bl = list(scale)
    f = np.array([w.of(bl[b]) for b in owner]).reshape([-1 if j == ax else 1 for j in range(rank)])
    case = dict(shape=tuple(shape), axis=ax, scale=type(scale).__name__, bands=bands, explicit=explicit, dtype=str(raw.dtype))
    t.current = case
    return raw, ArrayWithUnits(raw, dims), w, f, case


def alike(got, want):
    return np.shape(got) == want.shape and np.allclose(np.asarray(got), want, rtol=1e-6, atol=1e-6)


def dims_kept(got, arr):
    return isinstance(got, ArrayWithUnits) and len(got.dimensions) == arr.ndim and all(
        type(a) is type(b) and (not isinstance(a, (FrequencyDimension, ExplicitFrequencyDimension)) or list(a.scale) == list(b.scale))
        and (not isinstance(a, TimeDimension) or a == b) for a, b in zip(got.dimensions, arr.dimensions))


def check_weighting(t):
    for _ in t.times(3000):
        raw, arr, w, f, case = problem(t)
        for name, got, want in (('times', arr * w, raw * f), ('times-left', w * arr, raw * f), ('multiply', np.multiply(w, arr), raw * f),
                                ('divide', arr / w, raw / f), ('inverse', (arr * w) / w, raw.astype(np.result_type(raw, float))),
                                ('inverse', (w * (arr / w)), raw.astype(np.result_type(raw, float)))):
            t.expect(alike(got, want), name, case)
            t.expect(dims_kept(got, arr), name + '-dimensions', case)
            if t.rng.random() < .1:
                t.hold(got, name, case)
        t.expect(np.array_equal(np.asarray(arr), raw), 'operand-unchanged', case)
        if raw.dtype.kind != 'i':
            arr *= w
            t.expect(alike(arr, raw if np.shares_memory(arr, raw) else raw * f), 'in-place', case)


def check_one_weighting(t):
    """one weighting applied to arrays over several scales, of the same length or not"""
    for _ in t.times(200, 2000):
        w = Tables(t)
        n, rank = t.rng.choice([1, 2, 3, 6]), t.rng.choice([1, 2, 3])
        ax = t.rng.randrange(rank)
        log = []
        pool = []
        for _k in range(t.rng.randint(2, 5)):
            if pool and t.rng.random() < .3:
                bands, edges, fdim = t.rng.choice(pool)
            else:
                scale = LinearScale(FrequencyBand(0, t.rng.choice([100, 200, 4000])), n) if t.rng.random() < .5 else a_scale(t, n)
                bands = list(scale)
                cuts = sorted(t.rng.sample(range(1, n + 3), n - 1)) if n > 1 else []
                edges = [0] + cuts + [n + 3]
                explicit = t.rng.random() < .5
                fdim = FrequencyDimension(scale) if not explicit else ExplicitFrequencyDimension(scale, [slice(a, b) for a, b in zip(edges, edges[1:])])
                edges = edges if explicit else list(range(n + 1))
                pool.append((bands, edges, fdim))
            owner = [b for b, (lo, hi) in enumerate(zip(edges, edges[1:])) for _ in range(lo, hi)]
            shape = [2] * rank
            shape[ax] = len(owner)
            raw = t.np_rng.uniform(-9, 9, shape)
            arr = ArrayWithUnits(raw, [fdim if j == ax else None for j in range(rank)])
            f = np.array([w.of(bands[b]) for b in owner]).reshape([-1 if j == ax else 1 for j in range(rank)])
            log.append(([(float(b.start_hz), float(b.stop_hz)) for b in bands], owner))
            case = t.current = dict(shape=shape, axis=ax, log=list(log))
            t.expect(alike(arr * w, raw * f), 'times-again', case)
            t.expect(alike(arr / w, raw / f), 'divide-again', case)
            t.expect(alike(w * arr, raw * f), 'times-left-again', case)


def check_in_place(t):
    for _ in t.times(500):
        raw, arr, w, f, case = problem(t)
        if raw.dtype.kind == 'i':
            continue
        want = raw * f
        x = ArrayWithUnits(raw.copy(), arr.dimensions)
        y = x
        y *= w
        t.expect(y is x and alike(x, want), 'in-place', case)
        y /= w
        t.expect(alike(x, raw), 'in-place-inverse', case)


def check_rejected(t):
    for _ in t.times(400):
        raw, arr, w, f, case = problem(t)
        bare = ArrayWithUnits(raw, [d if isinstance(d, TimeDimension) else None for d in arr.dimensions])
        bad = (ValueError, TypeError, AttributeError)
        t.raises(bad, lambda: bare * w, 'no-frequency-axis', case)
        t.raises(bad, lambda: w * bare, 'no-frequency-axis', case)
        t.raises(bad, lambda: bare / w, 'no-frequency-axis', case)
        t.raises(bad, lambda: raw * w, 'no-dimensions', case)
        for op in (np.add, np.subtract, np.power, np.maximum, np.floor_divide):
            t.raises(bad, lambda: op(arr, w), 'other-operation', (case, op.__name__))
            t.raises(bad, lambda: op(w, arr), 'other-operation', (case, op.__name__))
        t.raises(bad, lambda: arr + w, 'other-operation', case)
        t.raises(bad, lambda: arr - w, 'other-operation', case)


def check_a_weighting(t):
    for _ in t.times(300):
        n = t.rng.randint(1, 40)
        scale = a_scale(t, n)
        raw = np.array([t.rng.uniform(-1, 1) for _ in range(3 * n)]).reshape((3, n))
        arr = ArrayWithUnits(raw, [None, FrequencyDimension(scale)])
        case = dict(scale=type(scale).__name__, bands=n)
        t.current = case
        a = AWeighting()
        t.expect(alike((arr * a) / a, raw), 'a-weighting-inverse', case)
        t.expect(alike(arr * a, raw * a.weights(scale)), 'a-weighting', case)


def check_adaptive(t):
    for _ in t.times(150):
        n = t.rng.randint(1, 6)
        scale = GeometricScale(20, 5000, .05, n)
        rows = t.rng.randint(1, 3)
        arrs = [np.array([t.rng.uniform(-1, 1) for _ in range(rows * m)]).reshape((rows, m)) for m in (t.rng.randint(1, 5) for _ in range(n))]
        case = dict(widths=[a.shape[1] for a in arrs], rows=rows)
        t.current = case
        fa = FrequencyAdaptive(arrs, TimeDimension(td(500, 'ms'), td(1, 's')), scale)
        w = Tables(t)
        got, back = fa * w, (fa * w) / w
        for b, a in zip(scale, arrs):
            t.expect(alike(got[:, b], a * w.of(b)), 'adaptive', case)
            t.expect(alike(back[:, b], a), 'adaptive-inverse', case)


def check_windowing(t):
    for _ in t.times(1500):
        table = [t.rng.uniform(0, 1) for _ in range(200)]
        func = lambda n: np.array(table[n:2 * n])
        named = t.rng.choice([None, None, None, 'hann', 'ogg'])
        if named:
            wf, func = (HanningWindowingFunc(), np.hanning) if named == 'hann' else (OggVorbisWindowingFunc(), None)
        else:
            wf = WindowingFunc(func)
        for _ in range(3):
            rank = t.rng.choice([1, 2, 2, 3, 4])
            shape = [t.rng.choice([0, 1, 2, 3]) for _ in range(rank - 1)] + [t.rng.randint(1, 9)]
            dtype = t.rng.choice(['float64', 'float32', 'int16', 'complex128'])
            raw = np.array([t.rng.randint(-40, 40) for _ in range(int(np.prod(shape)))], dtype=dtype).reshape(shape)
            units = t.rng.random() < .6
            arr = ArrayWithUnits(raw, [TimeDimension(td(1, 's')) if t.rng.random() < .5 else None for _ in range(rank)]) if units else raw
            case = dict(shape=tuple(shape), dtype=dtype, units=units, window=named)
            t.current = case
            if func is None:
                win = np.ones(shape[-1]) * wf
            else:
                win = func(shape[-1])
            for name, got in (('window', arr * wf), ('window-left', wf * arr), ('window', np.multiply(arr, wf))):
                t.expect(np.shape(got) == raw.shape and np.allclose(np.asarray(got), raw * win, rtol=1e-5, atol=1e-5), name, case)
                if t.rng.random() < .1:
                    t.hold(got, name, case)
                if units:
                    t.expect(dims_kept(got, arr), name + '-dimensions', case)
            none = IdentityWindowingFunc()
            t.expect(np.array_equal(np.asarray(arr * none), raw) and np.array_equal(np.asarray(none * arr), raw), 'identity-window', case)
