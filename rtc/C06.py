import itertools
import numpy as np
from util import *
from zounds.nputil import sliding_window
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.timeseries import TimeDimension, TimeSlice


def layout(t, x):
    k = t.rng.choice(['plain', 'fortran', 'strided', 'reversed', 'transposed', 'broadcast'])
    if k == 'fortran':
        return np.asfortranarray(x)
    if k == 'strided':
        y = np.full((2 * x.shape[0],) + x.shape[1:], 99, dtype=x.dtype)
        y[::2] = x
        return y[::2]
    if k == 'reversed':
        return np.ascontiguousarray(x[..., ::-1])[..., ::-1]
    if k == 'transposed':
        return np.ascontiguousarray(x.T).T
    if k == 'broadcast':
        return np.broadcast_to(x[:1], x.shape)
    return x


def problem(t, rank=None):
    rank = rank or t.rng.choice([1, 1, 2, 2, 3, 4])
    hi = {1: 30, 2: 9, 3: 5, 4: 4}[rank]
    shape = tuple(t.rng.randint(1, hi) for _ in range(rank))
    if rank == 1 and t.rng.random() < .1:
        shape = (t.rng.randint(100, 3000),)
    ws = tuple(t.rng.randint(1, n) for n in shape)
    ss = tuple(t.rng.randint(1, n + 2) for n in shape)
    if shape[0] > 99:
        ss = (t.rng.randint(20, 400),)
    dt = t.rng.choice([np.float64, np.float32, np.uint8, np.int64, bool, complex])
    x = np.arange(int(np.prod(shape))).reshape(shape)
    return (x if dt is not bool else x % 3 == 0).astype(dt), shape, ws, ss


def counts(shape, ws, ss):
    return [(n - w) // s + 1 for n, w, s in zip(shape, ws, ss)]


def windows(x, shape, ws, ss):
    for p in itertools.product(*[range(N) for N in counts(shape, ws, ss)]):
        yield p, x[tuple(slice(i * s, i * s + w) for i, s, w in zip(p, ss, ws))]


def form(t, v):
    k = t.rng.choice(['tuple', 'list', 'array', 'int'])
    if k == 'int' and len(v) == 1:
        return v[0]
    return list(v) if k == 'list' else np.array(v) if k == 'array' else v


def check_windows(t):
    for _ in t.times(500, 5000):
        x, shape, ws, ss = problem(t)
        x = layout(t, x)
        step = t.rng.random() < .8
        if not step:
            ss = ws
        case = t.current = dict(shape=shape, ws=ws, ss=ss if step else None, dtype=str(x.dtype), strides=x.strides)
        k = (form(t, ws),) + ((form(t, ss),) if step else ())
        r = sliding_window(x, *k, flatten=False)
        N = counts(shape, ws, ss)
        if not t.equal(r.shape, tuple(N) + ws, 'shape', case):
            continue
        f = sliding_window(x, *k)
        if not t.equal(f.shape, (int(np.prod(N)),) + ws, 'flat shape', case):
            continue
        t.expect(r.dtype == x.dtype and f.dtype == x.dtype, 'dtype', case)
        for i, (p, want) in enumerate(windows(x, shape, ws, ss)):
            t.equal(r[p], want, 'window', case)
            t.equal(f[i], want, 'flattened window', case)
        if t.rng.random() < .2:
            t.hold(t.rng.choice([r, f]), 'windows', case)


def check_rejected(t):
    for _ in t.times(200, 1000):
        x, shape, ws, ss = problem(t)
        k = t.rng.randrange(len(shape))
        big = ws[:k] + (shape[k] + t.rng.randint(1, 3),) + ws[k + 1:]
        flatten = t.rng.random() < .5
        t.raises(ValueError, lambda: sliding_window(x, big, ss, flatten), 'too large', dict(shape=shape, ws=big))
        t.raises(ValueError, lambda: sliding_window(x, ws + (1,), ss + (1,), flatten), 'rank', dict(shape=shape, ws=ws + (1,)))
        if len(shape) > 1:
            t.raises(ValueError, lambda: sliding_window(x, ws[1:], ss[1:], flatten), 'rank', dict(shape=shape, ws=ws[1:]))
        t.raises(ValueError, lambda: sliding_window(x, ws, ss + (1,), flatten), 'rank of the steps', dict(shape=shape, ws=ws))


def check_units(t):
    for _ in t.times(300, 3000):
        x, shape, ws, ss = problem(t, t.rng.choice([1, 2, 3]))
        dims, w_, s_ = [], [], []
        for w, s in zip(ws, ss):
            if t.rng.random() < .6:
                f = td(t.rng.randint(1, 500), t.rng.choice(['ps', 'us', 'ms', 's']))
                d = f * t.rng.randint(1, 3) + td(t.rng.choice([0, 0, 1]), 'ps')
                dims.append(TimeDimension(f, d))
                w_.append(TimeSlice(duration=f * w))
                s_.append(TimeSlice(duration=f * s))
            else:
                dims.append(IdentityDimension())
                w_.append(w)
                s_.append(s)
        arr = ArrayWithUnits(x, dims)
        case = t.current = dict(shape=shape, ws=ws, ss=ss, dimensions=[str(d) for d in dims])
        r = arr.sliding_window(tuple(w_), tuple(s_))
        by = arr.sliding_window(ws, ss)
        for y in (r, by):
            t.expect(type(y) is ArrayWithUnits and len(y.dimensions) == y.ndim, 'units', case)
            if t.equal(y.shape, (int(np.prod(counts(shape, ws, ss))),) + ws, 'shape with units', case):
                for i, (p, want) in enumerate(windows(x, shape, ws, ss)):
                    t.equal(np.asarray(y)[i], want, 'window with units', case)
        t.expect(all(type(p) is type(q) and (not isinstance(p, TimeDimension) or p == q) for p, q in zip(r.dimensions, by.dimensions)),
                 'dimensions of spans and counts', case)
