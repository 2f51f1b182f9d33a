import numpy as np
from util import *
import zounds
from zounds import TimeDimension, TimeSlice, ArrayWithUnits, IdentityDimension


def make(t):
    while True:
        r = _make(t)
        if (r[2] + 5) * ps(r[0]) + 4 * ps(r[1]) < 2 ** 53:
            return r


def _make(t):
    rng = t.rng
    fu, su = close_units(rng)
    k = rng.choice([1, 1, 7, 441, 22675, 2 ** 20 + 1])
    f = rng.randint(1, 12) * k if rng.random() < .7 else rng.randint(1, 10 ** 6)
    d = f + rng.choice([0, 0, f, f // 2, rng.randint(0, 3 * f)])
    n = rng.choice([0, 1, 2, 3, rng.randint(1, 60)]) if rng.random() < .98 else rng.randint(1000, 70000)
    f, d = td(f, fu), td(d, fu)
    extra = rng.random() < .4
    raw = np.arange(n * 3).reshape((n, 3)) if extra else np.arange(n)
    dims = [TimeDimension(f, d)] + ([IdentityDimension()] if extra else [])
    return f, d, n, su, raw, ArrayWithUnits(raw, dims)


def point(t, f, n, d, su, lo=0):
    """an instant near a sample boundary or anywhere"""
    rng = t.rng
    F, D = ps(f), ps(d)
    u = PS[su]
    i = rng.randint(0, max(1, n + 2))
    x = rng.choice([i * F, i * F + D, i * F + D - F, i * F + 1, i * F + D - 1, i * F - 1, i * F + F // 2, i * F + F // 150, i * F + F // 250])
    x = max(lo, x // u + rng.choice([0, 0, 1, -1]))
    return td(x, su)


def judge(t, key, arr, raw, f, d, n, got, S, E, case):
    F, D = ps(f), ps(d)
    inside = [i for i in range(n) if i * F < E and i * F + D > S]
    must = [i for i in inside if (E - i * F) * 200 > F]
    dim = got.dimensions[0]
    first = np.asarray(got)[:, 0] // 3 if raw.ndim == 2 else np.asarray(got)
    idx = [int(x) for x in first]
    ok = idx == list(range(idx[0], idx[0] + len(idx))) if idx else True
    t.expect(ok and set(must) <= set(idx) <= set(inside), key, case, 'selected %r, overlapping %r' % (idx, inside))
    if idx:
        t.equal(np.asarray(got), raw[idx[0]:idx[-1] + 1], key + '-data', case)
    t.expect(isinstance(dim, TimeDimension) and dim.frequency == f and dim.duration == d, key + '-dimension', case, repr(dim))
    t.expect(dim.size == len(idx), key + '-size', case, 'size %r of %d' % (dim.size, len(idx)))
    if idx:
        t.expect(ps(dim.end) == (len(idx) - 1) * F + D, key + '-end', case, 'end %r' % dim.end)


def check_time_slice(t):
    for _ in t.times(3000):
        f, d, n, su, raw, arr = make(t)
        s = point(t, f, n, d, su)
        if t.rng.random() < .2:
            got, S, E = arr[TimeSlice(start=s)], ps(s), 10 ** 30
            case = dict(f=show(f), d=show(d), n=n, start=show(s), duration=None)
        else:
            e = point(t, f, n, d, su)
            dur = e - s if e > s else td(t.rng.randint(1, 50), su)
            got, S, E = arr[TimeSlice(start=s, duration=dur)], ps(s), ps(s) + ps(dur)
            case = dict(f=show(f), d=show(d), n=n, start=show(s), duration=show(dur))
        t.current = case
        judge(t, 'time-slice', arr, raw, f, d, n, got, S, E, case)


def check_duration_bounds(t):
    for _ in t.times(3000):
        f, d, n, su, raw, arr = make(t)
        F, D = ps(f), ps(d)
        end = n * F + D - F
        u = PS[su]

        def bound():
            r = t.rng.random()
            if r < .25:
                return None, None
            p = point(t, f, n, d, su)
            if r < .6 or end // u < 1:
                return p, ps(p)
            v = min(end // u, max(1, ps(p) // u))
            return td(-v, su), end - v * u
        (a, A), (b, B) = bound(), bound()
        A = 0 if A is None else A
        B = end if B is None else B
        if a is None and b is None or A >= B:
            continue
        case = dict(f=show(f), d=show(d), n=n, lo=show(a), hi=show(b))
        t.current = case
        got = arr[slice(a, b)]
        judge(t, 'duration-slice', arr, raw, f, d, n, got, A, B, case)


def check_sample_rates(t):
    for sr in [zounds.SR96000(), zounds.SR48000(), zounds.SR44100(), zounds.SR22050(), zounds.SR16000(), zounds.SR11025()]:
        for _ in t.times(40):
            n = t.rng.randint(1, 400)
            a = ArrayWithUnits(np.arange(n), [TimeDimension(*sr)])
            F = ps(sr.frequency)
            i, k = t.rng.randint(0, n - 1), t.rng.randint(1, 30)
            sl = TimeSlice(start=sr.frequency * i, duration=sr.frequency * k)
            case = dict(rate=repr(sr), n=n, start=i, count=k)
            t.current = case
            t.equal(np.asarray(a[sl]), np.arange(i, min(n, i + k)), 'whole-samples', case)
            ms = t.rng.randint(0, 20)
            judge(t, 'milliseconds', a, np.arange(n), sr.frequency, sr.duration, n, a[TimeSlice(start=td(ms, 'ms'), duration=td(7, 'ms'))],
                  ms * 10 ** 9, (ms + 7) * 10 ** 9, dict(rate=repr(sr), n=n, ms=ms))


def check_span(t):
    for _ in t.times(300):
        f, d, n, su, raw, arr = make(t)
        dim = arr.dimensions[0]
        case = dict(f=show(f), d=show(d), n=n)
        t.expect(dim.size == n and dim.frequency == f and dim.duration == d, 'constructed', case, repr(dim))
        if n:
            t.expect(ps(dim.end) == (n - 1) * ps(f) + ps(d), 'end', case, repr(dim.end))
            t.expect(ps(dim.span.start) == 0 and ps(dim.span.duration) == (n - 1) * ps(f) + ps(d), 'span', case, repr(dim.span))
    for bad in (5, 1.5, 'x', None):
        t.raises(ValueError, lambda: TimeDimension(bad), 'bad-frequency', bad)
        if bad is not None:
            t.raises(ValueError, lambda: TimeDimension(td(1, 's'), bad), 'bad-duration', bad)


def check_history(t):
    """arrays made from others, which have been measured and sliced before"""
    for _ in t.times(500, 5000):
        f, d, n, su, raw, arr = make(t)
        n = min(n, 60)
        dims = arr.dimensions
        tail = raw.shape[1:]

        def fresh(m):
            return np.arange(m * int(np.prod(tail))).reshape((m,) + tail)
        if len(raw) != n:
            arr, raw = ArrayWithUnits(fresh(n), dims), fresh(n)
        log = []
        for _k in range(t.rng.randint(2, 6)):
            what = t.rng.choice(['span', 'slice', 'slice', 'bounds', 'concat', 'longer', 'like', 'part', 'transpose', 'copy', 'dimension'])
            log.append(what)
            case = t.current = dict(f=show(f), d=show(d), n=n, log=list(log))
            dim = arr.dimensions[0]
            if what == 'span':
                t.expect(dim.size == n and (not n or ps(dim.end) == (n - 1) * ps(f) + ps(d) == ps(dim.span.duration)), 'history-span', case, repr(dim))
                continue
            if what in ('slice', 'bounds'):
                a, b = point(t, f, n, d, su), point(t, f, n, d, su)
                if a >= b:
                    b = a + td(t.rng.randint(1, 50), su)
                got = arr[TimeSlice(start=a, duration=b - a)] if what == 'slice' else arr[a:b]
                if what == 'slice' or n:
                    judge(t, 'history-' + what, arr, raw, f, d, n, got, ps(a), ps(b), dict(case, start=show(a), stop=show(b)))
                continue
            if what == 'concat':
                k = t.rng.randint(1, 3)
                n *= k
                arr = ArrayWithUnits.concat([arr] * k)
                arr[...] = fresh(n)
            elif what == 'longer':
                n = t.rng.randint(0, 2 * n + 3)
                arr = ArrayWithUnits(fresh(n), arr.dimensions)
            elif what == 'like':
                n = t.rng.randint(0, 2 * n + 3)
                arr = ArrayWithUnits.from_example(fresh(n), arr)
            elif what == 'part':
                i = t.rng.randint(0, n)
                j = t.rng.randint(i, n)
                arr, n = arr[i:j].copy(), j - i
                arr[...] = fresh(n)
            elif what == 'transpose':
                arr = arr.T.T
            elif what == 'copy':
                arr = arr * 1
            else:
                other = dim.copy()
                t.expect(other == dim and other.size == n, 'history-copy', case, repr(other))
                n = t.rng.randint(0, 2 * n + 3)
                arr = ArrayWithUnits(fresh(n), [other] + list(arr.dimensions[1:]))
            if n > 200:
                n = t.rng.randint(0, 60)
                arr = arr[:n].copy()
                arr[...] = fresh(n)
            raw = fresh(n)
            t.expect(arr.shape == raw.shape and arr.dimensions[0].size == n, 'history-size', case, repr(arr.dimensions))


def _replay(t, v):
    """replays a counterexample in picoseconds (and the other unit pairs of the spec)"""
    for fu, su in (('ps', 'ps'), ('ms', 's'), ('ps', 'ms'), ('s', 'ms')):
        try:
            f, d = td(v.get('f', 1), fu), td(max(v.get('d', 1), v.get('f', 1)), fu)
            n = min(int(v.get('n', 5)), 3000)
            arr = ArrayWithUnits(np.arange(n), [TimeDimension(f, d)])
            S = td(v.get('s', 0), su)
            dur = td(v.get('dur', 1), su)
        except OverflowError:
            continue
        judge(t, 'replayed', arr, np.arange(n), f, d, n, arr[TimeSlice(start=S, duration=dur)], ps(S), ps(S) + ps(dur),
              dict(f=show(f), d=show(d), n=n, start=show(S), duration=show(dur)))


REPLAY = {'TimeDimension': _replay, 'ArrayWithUnits': _replay}
