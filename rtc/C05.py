import numpy as np
from util import *
import zounds
from zounds import TimeDimension, TimeSlice, ArrayWithUnits, IdentityDimension, SampleRate, SlidingWindow
from zounds.nputil import windowed


def sizes(t):
    w = t.rng.choice([2, 3, 4, 5, 7, 8, 16])
    h = t.rng.randint(1, w)
    n = t.rng.choice([0, 1, w - 1, w, w + 1, w + h, t.rng.randint(0, 60), t.rng.randint(0, 60)])
    if t.rng.random() < .04:
        w = t.rng.randint(17, 300)
        h = t.rng.randint(max(1, w // 20), w)
        n = t.rng.choice([w, w + h, t.rng.randint(0, 3000)])
    return n, w, h


def data(t, n):
    r = t.rng.random()
    dt = t.rng.choice([np.float32, np.float64, np.int16, np.uint8, np.int64, complex])
    if r < .5:
        return (np.arange(1, n + 1)).astype(dt)
    a = np.arange(1, 3 * n + 1).reshape((n, 3)).astype(dt)
    return a if r < .8 else np.asfortranarray(a) if r < .9 else np.arange(1, 6 * n + 1).reshape((2 * n, 3)).astype(dt)[::2]


def judge(t, key, a, left, win, w, h, pad, case):
    n = len(a)
    K = len(win) if win.ndim == a.ndim + 1 else 0
    a = np.asarray(a)
    if not pad:
        t.expect(K == 0 or (K - 1) * h + w <= n, key + '-inside', case, 'K=%d' % K)
        t.expect(n <= w or K * h + w > n, key + '-complete', case, 'K=%d' % K)
        t.equal(np.asarray(left), a[K * h:], key + '-leftover', case)
        want = np.array([a[k * h:k * h + w] for k in range(K)])
    else:
        t.expect(len(left) == 0, key + '-leftover', case)
        t.expect(K > 0 and (K - 1) * h + w >= n, key + '-covers', case, 'K=%d' % K)
        z = np.concatenate([a, np.zeros((max(0, K * h + w),) + a.shape[1:], dtype=a.dtype)])
        want = np.array([z[k * h:k * h + w] for k in range(K)])
    if K:
        t.equal(np.asarray(win), want, key + '-windows', case)
        t.expect(win.dtype == a.dtype, key + '-dtype', case, win.dtype)


def check_windowed(t):
    for _ in t.times(1500):
        n, w, h = sizes(t)
        a = data(t, n)
        pad = t.rng.random() < .4 and n > 0
        case = dict(shape=a.shape, dtype=str(a.dtype), w=w, h=h, pad=pad, contiguous=bool(a.flags['C_CONTIGUOUS']))
        t.current = case
        before = a.copy()
        ok, r = t.attempt(lambda: windowed(a, w, h, pad), 'windowed-raised', case)
        if ok:
            judge(t, 'windowed', a, r[0], r[1], w, h, pad, case)
            if n < 100 and t.rng.random() < .3:
                t.hold(r[1], 'windowed', case)
        t.equal(a, before, 'windowed-input-modified', case)
        if h == w and ok:
            l2, w2 = windowed(a, w, dopad=pad)
            t.equal(w2, r[1], 'default-hop', case)
    for bad in (0, -1):
        t.raises(ValueError, lambda: windowed(np.arange(5), bad, 1), 'bad-window', bad)
        t.raises(ValueError, lambda: windowed(np.arange(5), 2, bad), 'bad-hop', bad)


def check_with_units(t):
    for _ in t.times(600):
        n, w, h = sizes(t)
        a = data(t, n)
        if not n:
            continue
        pad = t.rng.random() < .4
        f = td(t.rng.choice([1, 3, 7, 22675737, 250]), t.rng.choice(['ps', 'ms']))
        arr = ArrayWithUnits(a, [TimeDimension(f, f)] + [IdentityDimension()] * (a.ndim - 1))
        case = dict(shape=a.shape, w=w, h=h, pad=pad, f=show(f))
        t.current = case
        ok, r = t.attempt(lambda: arr.sliding_window_with_leftovers(TimeSlice(duration=f * w), TimeSlice(duration=f * h), pad), 'units-raised', case)
        if not ok:
            continue
        left, win = r
        if win.ndim == a.ndim:
            t.expect(len(win) == 0 and n <= w and len(left) == n, 'units-none', case)
            continue
        judge(t, 'units', a, left, win, w, h, pad, case)
        d = win.dimensions
        t.expect(ps(d[0].frequency) == h * ps(f) and ps(d[0].duration) == w * ps(f) and ps(d[1].frequency) == ps(f) and
                 ps(d[1].duration) == ps(f), 'units-dimensions', case, repr(d))
        if not pad:
            t.expect(isinstance(left, ArrayWithUnits) and left.dimensions[0].frequency == f, 'units-leftover-dimension', case)


def run(x, f, w, h, parts, wfunc=None):
    dims = [TimeDimension(f, f)] + [IdentityDimension()] * (x.ndim - 1)
    chunks = [ArrayWithUnits(c, dims) for c in cut(x, parts)]
    out = stream(lambda src: SlidingWindow(SampleRate(frequency=f * h, duration=f * w), wfunc, needs=src), [chunks])
    return out


def check_streaming(t):
    for _ in t.times(250, 3000):
        f = t.rng.choice([td(10, 'ms'), td(22675736, 'ps'), td(7, 'us'), td(1, 's')])
        w = t.rng.choice([2, 3, 4, 5, 8]) if t.rng.random() < .95 else t.rng.randint(20, 120)
        h = t.rng.randint(max(1, w // 20), w)
        n = t.rng.choice([1, w, w + 1, w + h, 2 * w, t.rng.randint(1, 40)]) if w < 20 else t.rng.randint(1, 1000)
        x = np.arange(1., n + 1)
        if t.rng.random() < .3:
            x = np.arange(1., 2 * n + 1).reshape((n, 2))
        if t.rng.random() < .3:
            x = x.astype(t.rng.choice([np.float32, np.int32, np.int16]))
        x = special(t.rng, x)
        parts = partitions(t.rng, n)
        if parts and t.rng.random() < .2:
            parts.insert(t.rng.randint(0, len(parts)), 0)      # a chunk without samples
        case = dict(n=n, w=w, h=h, chunks=parts, x=x.tolist())
        t.current = case
        out = run(x, f, w, h, parts)
        got = np.concatenate([np.asarray(o) for o in out])
        whole = np.concatenate([np.asarray(o) for o in run(x, f, w, h, [n])])
        if n < 100:
            t.hold(t.rng.choice(out), 'stream-windows', case)
        t.equal(got, whole, 'chunked-equals-whole', case)
        K = len(got)
        z = np.concatenate([x, np.zeros((K * h + w,) + x.shape[1:])])
        t.equal(got, np.array([z[k * h:k * h + w] for k in range(K)]), 'stream-windows', case)
        t.expect((K - 1) * h + w >= n, 'stream-covers', case, 'K=%d' % K)


def check_window_function(t):
    f = td(10, 'ms')
    wf = zounds.HanningWindowingFunc()
    for _ in t.times(40, 300):
        w = t.rng.choice([2, 4, 5])
        h = t.rng.randint(1, w)
        n = t.rng.randint(1, 30)
        x = np.arange(1., n + 1)
        x = special(t.rng, x)
        parts = partitions(t.rng, n)
        if parts and t.rng.random() < .2:
            parts.insert(t.rng.randint(0, len(parts)), 0)      # a chunk without samples
        case = dict(n=n, w=w, h=h, chunks=parts, x=x.tolist())
        t.current = case
        got = np.concatenate([np.asarray(o) for o in run(x, f, w, h, parts, wf)])
        raw = np.concatenate([np.asarray(o) for o in run(x, f, w, h, [n])])
        t.close(got, raw * np.hanning(w), 'tapered-windows', case)


def _windowed(t, v):
    for pad in (False, True):
        n, w, h = int(v.get('n', 0)), int(v.get('w', 2)), int(v.get('h', 1))
        if n > 3000 or not (1 <= h <= w) or (pad and not n):
            return
        a = np.arange(1., n + 1)
        case = dict(n=n, w=w, h=h, pad=pad)
        ok, r = t.attempt(lambda: windowed(a, w, h, pad), 'windowed-raised', case)
        if ok:
            judge(t, 'windowed', a, r[0], r[1], w, h, pad, case)


REPLAY = {'windowed': _windowed}
