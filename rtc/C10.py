import numpy as np
from util import *
import zounds
from zounds.timeseries import duration as D
from zounds import TimeSlice

UN = ('ps', 'ns', 'us', 'ms', 's', 'm', 'h')


def pick(t, zero=True):
    rng = t.rng
    base = rng.choice([0, 1, 2, 5, 60, 3600, 1000, rng.randint(0, 5000)])
    u = rng.choice(UN)
    x = base * rng.choice([1, 1, 10 ** 3, 60])
    while x * PS[u] > 2 ** 52:
        x //= 1000
    if not zero and x == 0:
        x = 1
    return td(x, u)


def convert(t, d):
    """the same duration in another unit (or itself)"""
    p = ps(d)
    us = [u for u in UN if p % PS[u] == 0]
    u = t.rng.choice(us)
    return td(p // PS[u], u)


def pair(t):
    a = TimeSlice(start=pick(t), duration=pick(t, False))
    r = t.rng.random()
    if r < .3:
        b = TimeSlice(start=convert(t, a.start), duration=convert(t, a.duration))
    elif r < .5:
        b = TimeSlice(start=convert(t, a.start), duration=pick(t, False))
    elif r < .65:
        b = TimeSlice(start=convert(t, a.end), duration=pick(t, False))
    elif r < .8:
        b = TimeSlice(start=a.start + a.duration // 2, duration=convert(t, a.duration))
    else:
        b = TimeSlice(start=pick(t), duration=pick(t, False))
    return (a, b) if t.rng.random() < .5 else (b, a)


def iv(x):
    return ps(x.start), ps(x.start) + ps(x.duration)


def check_pairs(t):
    for _ in t.times(4000):
        a, b = pair(t)
        (p, q), (r, s) = iv(a), iv(b)
        case = dict(a=(show(a.start), show(a.duration)), b=(show(b.start), show(b.duration)))
        t.current = case
        t.expect(ps(a.end) == q, 'end', case, a.end)
        want = max(0, min(q, s) - max(p, r))
        t.expect(ps((a & b).duration) == want == ps((b & a).duration), 'overlap', case, (a & b).duration)
        t.expect((b in a) == (p < r and s < q), 'contains-slice', case)
        t.expect((b.start in a) == (p < r < q), 'contains-instant', case)
        t.expect((a < b, a <= b, a > b, a >= b) == (p < r, p <= r, p > r, p >= r), 'order', case)
        same = (p, q) == (r, s)
        t.expect((a == b) == same and (a != b) == (not same), 'equality', case)
        if same:
            t.expect(hash(a) == hash(b) and len({a, b}) == 1, 'hash', case)
        d = pick(t)
        if q + ps(d) < 2 ** 53:
            c = a + d
            t.expect(ps(c.start) == p + ps(d) and ps(c.duration) == q - p and a.__radd__(d) == c, 'shift', case, repr(c))
        t.expect(iv(a) == (p, q) and iv(b) == (r, s), 'operands-changed', case)
    for bad in (5, 1.5, 'x'):
        t.raises(ValueError, lambda: TimeSlice(bad), 'bad-duration', bad)
        t.raises(ValueError, lambda: TimeSlice(td(1, 's'), bad), 'bad-start', bad)
        t.raises(ValueError, lambda: TimeSlice(td(1, 's')).__contains__(bad), 'bad-member', bad)


def check_unbounded(t):
    for _ in t.times(300):
        x = pick(t)
        a, b = TimeSlice(start=x), TimeSlice(start=convert(t, x))
        case = show(x)
        t.expect(a == b and hash(a) == hash(b), 'unbounded-equal', case)
        t.expect(a != TimeSlice(start=x, duration=pick(t, False)), 'unbounded-differs', case)
        t.expect((a + td(1, 'ms')).duration is None, 'unbounded-shift', case)
    t.expect(ps(TimeSlice(td(3, 's')).start) == 0, 'default-start', None)


def check_cutting(t):
    for _ in t.times(1000):
        n = t.rng.randint(1, 8) if t.rng.random() < .95 else t.rng.randint(9, 100)
        u = t.rng.choice(['ps', 'ms', 's'])
        v = [td(t.rng.randint(0, 10 if t.rng.random() < .9 else 5000), u) for _ in range(n)]
        got = TimeSlice.slices(v if t.rng.random() < .5 else np.array(v))
        case = [show(x) for x in v]
        t.current = case
        p = sorted(ps(x) for x in v)
        t.expect([iv(x) for x in got] == list(zip(p[:-1], p[1:])), 'tiling', case, repr(got))
    for _ in t.times(1000):
        us = t.rng.choice([('s', 'ms'), ('ms', 'us'), ('ps', 'ns'), ('h', 'm', 's'), ('ms', 's', 'm')])
        v = [td(t.rng.randint(0, 10 if t.rng.random() < .8 else 5000), t.rng.choice(us)) for _ in range(t.rng.randint(1, 6))]
        given = list(v)
        case = t.current = [show(x) for x in v]
        got = TimeSlice.slices(v)
        p = sorted(ps(x) for x in v)
        t.expect([iv(x) for x in got] == list(zip(p[:-1], p[1:])), 'tiling-units', case, repr(got))
        t.expect(v == given, 'tiling-operand', case)


def check_many(t):
    """the same slices compared, shifted and intersected again and again"""
    for _ in t.times(150):
        v = [x for _k in range(t.rng.randint(1, 3)) for x in pair(t)]
        was = [iv(x) for x in v]
        seen = dict()
        for x, i in zip(v, was):
            seen.setdefault(x, i)
            t.expect(seen[x] == i, 'found-again', i)
        for _k in range(t.rng.randint(3, 12)):
            j, k = t.rng.randrange(len(v)), t.rng.randrange(len(v))
            (p, q), (r, s) = was[j], was[k]
            case = t.current = ([(show(x.start), show(x.duration)) for x in v], j, k)
            t.expect(ps((v[j] & v[k]).duration) == max(0, min(q, s) - max(p, r)), 'overlap-again', case)
            t.expect((v[j] == v[k]) == (was[j] == was[k]), 'equality-again', case)
            t.expect(v[j] != v[k] or hash(v[j]) == hash(v[k]), 'hash-again', case)
            t.expect((v[k] in v[j]) == (p < r and s < q), 'contains-again', case)
            if q + 10 ** 12 < 2 ** 53:
                c = v[j] + td(1, 's')
                t.expect(iv(c) == (p + 10 ** 12, q + 10 ** 12), 'shift-again', case)
                if t.rng.random() < .3:
                    v.append(c)
                    was.append((p + 10 ** 12, q + 10 ** 12))
            t.expect([iv(x) for x in v] == was, 'operands-changed-again', case)


def check_units(t):
    for c, u in ((D.Hours, 'h'), (D.Minutes, 'm'), (D.Seconds, 's'), (D.Milliseconds, 'ms'), (D.Microseconds, 'us'),
                 (D.Nanoseconds, 'ns'), (D.Picoseconds, 'ps')):
        k = t.rng.randint(0, 1000)
        t.expect(c(k) == td(k, u) and ps(c(k)) == k * PS[u], 'unit', c.__name__, c(k))
