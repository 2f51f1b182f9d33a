"""C10: time slices are half-open intervals, in any mix of units."""
from engine.spec import *
from engine import bi
bi.GROWING.add('zounds.timeseries.timeseries')

ts_ = load('zounds.timeseries.timeseries')
dur_ = load('zounds.timeseries.duration')
TimeSlice = ts_.TimeSlice
td = np.timedelta64
UNITS = ['ps', 'ns', 'us', 'ms', 's', 'm', 'h']
PAIRS = [('ps', 'ps'), ('ps', 's'), ('s', 'ms'), ('ms', 'us'), ('h', 'ps'), ('m', 'h'), ('ns', 'us'), ('s', 'h')]


def ts(name, u, v=None, neg=False):
    return TimeSlice(start=td(Int(name + '_start', None if neg else 0), u), duration=td(Int(name + '_dur', 1), v or u))


def iv(x):
    return x.start.ps, x.start.ps + x.duration.ps


@spec('construction, end and shifting', each=PAIRS)
def basics(u, v):
    s, d, k = Int('s', 0), Int('d', 0), Int('k', 0)
    a = ok(TimeSlice, td(d, v), td(s, u))
    prove(And(Eq(a.start.ps, td(s, u).ps), Eq(a.duration.ps, td(d, v).ps)), 'start and duration are what was given')
    prove(Eq(a.end.ps, a.start.ps + a.duration.ps), 'the end is start plus duration')
    b = ok(lambda: a + td(k, v))
    c = ok(a.__radd__, td(k, v))
    prove(And(Eq(b.start.ps, a.start.ps + td(k, v).ps), Eq(b.duration.ps, a.duration.ps)), 'shifting moves the start and keeps the duration')
    prove(And(Eq(c.start.ps, b.start.ps), Eq(c.duration.ps, b.duration.ps)), 'the reflected addition agrees')
    e = ok(TimeSlice, start=td(s, u))
    prove(And(Eq(e.start.ps, a.start.ps), e.duration is None), 'a slice may have no duration')
    g = e + td(k, v)
    prove(And(Eq(g.start.ps, e.start.ps + td(k, v).ps), g.duration is None), 'shifting an unbounded slice keeps it unbounded')
    prove(Eq(ok(TimeSlice, td(d, v)).start.ps, 0), 'the start defaults to zero')


@spec('overlap of two slices', each=PAIRS)
def overlap(u, v):
    a, b = ts('a', u, v), ts('b', v, u)
    (p, q), (r, s) = iv(a), iv(b)
    lo, hi = ite(p >= r, p, r), ite(q <= s, q, s)
    want = ite(hi > lo, hi - lo, 0)
    x = ok(lambda: a & b)
    prove(Eq(x.duration.ps, want), 'has the length of the intersection')
    y = ok(lambda: b & a)
    prove(Eq(y.duration.ps, x.duration.ps), 'is symmetric')


@spec('containment', each=PAIRS)
def contains(u, v):
    a, b = ts('a', u, v), ts('b', v, u)
    (p, q), (r, s) = iv(a), iv(b)
    prove(Iff(ok(a.__contains__, b), And(p < r, s < q)), 'of a slice is strict interval containment')
    t = td(Int('t', 0), v)
    prove(Iff(ok(a.__contains__, t), And(p < t.ps, t.ps < q)), 'of an instant is strict')
    rejects(a.__contains__, ValueError, 3, _name='of anything else is rejected')


@spec('ordering', each=PAIRS)
def order(u, v):
    a, b = ts('a', u, v), ts('b', v, u)
    p, r = a.start.ps, b.start.ps
    prove(Iff(ok(lambda: a < b), p < r), '<')
    prove(Iff(ok(lambda: a <= b), p <= r), '<=')
    prove(Iff(ok(lambda: a > b), p > r), '>')
    prove(Iff(ok(lambda: a >= b), p >= r), '>=')
    t = td(Int('t', 0), v)
    prove(And(Iff(a < t, p < t.ps), Iff(a > t, p > t.ps), Iff(a <= t, p <= t.ps), Iff(a >= t, p >= t.ps)), 'slices compare with instants by start')


@spec('equality and hashing', each=PAIRS)
def equality(u, v):
    a, b = ts('a', u, v), ts('b', v, u)
    same = And(Eq(a.start.ps, b.start.ps), Eq(a.duration.ps, b.duration.ps))
    prove(Iff(ok(lambda: a == b), same), 'equal iff start and duration are equal, in any unit')
    prove(Iff(ok(lambda: a != b), Not(same)), 'unequal otherwise')
    if a == b:
        ha, hb = hashed(a), hashed(b)
        prove(len(ha) == len(hb), 'equal slices hash the same number of values')
        prove(And(*[Eq(x, y) for x, y in zip(ha, hb)]), 'equal slices hash equal values')
        cover('equal slices compared')


@spec('equality and hashing of unbounded slices', each=PAIRS[:4])
def unbounded(u, v):
    a, b = TimeSlice(start=td(Int('s', 0), u)), TimeSlice(start=td(Int('t', 0), v))
    prove(Iff(ok(lambda: a == b), Eq(a.start.ps, b.start.ps)), 'equal iff the starts are equal')
    c = TimeSlice(start=a.start, duration=td(Int('d', 1), v))
    prove(Not(ok(lambda: a == c)), 'a bounded slice differs from an unbounded one')
    if a == b:
        ha, hb = hashed(a), hashed(b)
        prove(len(ha) == len(hb) and And(*[Eq(x, y) for x, y in zip(ha, hb)]), 'equal slices hash equal values')


@spec('cutting at timestamps', each=['ps', 'ms', 's'])
def slices(u):
    n = Int('n', 1)
    raw = np.symarray('t', (n,), 'm8[%s]' % u)
    got = ok(TimeSlice.slices, raw)
    m = len_(got)
    prove(Eq(m, n - 1), 'one slice between each two consecutive instants')
    i = Int('i', 0)
    assume(i < m)
    x = item(got, i)
    prove(x.duration.ps >= 0, 'durations are not negative')
    if fork(i + 1 < m):
        y = item(got, i + 1)
        prove(Eq(x.start.ps + x.duration.ps, y.start.ps), 'each slice starts where the one before ends')
    j = Int('j', 0)
    assume(j < n)
    first, last = item(got, 0), item(got, m - 1)
    t = raw._get((j,))
    t = t.ps if isinstance(t, td) else t * td(1, u).ps
    prove(And(first.start.ps <= t, t <= last.start.ps + last.duration.ps), 'they run from the earliest to the latest instant')


@spec('cutting at a few timestamps', each=[2, 3])
def few(n):
    raw = [td(Int('t%d' % i, 0), 'ms') for i in range(n)]
    got = ok(TimeSlice.slices, raw)
    prove(len(got) == n - 1, 'one slice between each two consecutive instants')
    lo, hi = raw[0].ps, raw[0].ps
    for r in raw[1:]:
        lo, hi = ite(r.ps < lo, r.ps, lo), ite(r.ps > hi, r.ps, hi)
    prove(And(Eq(got[0].start.ps, lo), Eq(got[-1].start.ps + got[-1].duration.ps, hi)), 'they run from the earliest to the latest instant')
    for x, y in zip(got, got[1:]):
        prove(Eq(x.start.ps + x.duration.ps, y.start.ps), 'each slice starts where the one before ends')
    for r in raw:
        prove(Or(*([Eq(x.start.ps, r.ps) for x in got] + [Eq(hi, r.ps)])), 'every instant is a boundary')


@spec('non-durations are rejected')
def bad():
    k = Int('k')
    rejects(TimeSlice, ValueError, k, _name='as a duration')
    rejects(TimeSlice, ValueError, td(1, 's'), k, _name='as a start')
    rejects(TimeSlice, ValueError, Real('x'), _name='as a real duration')


@spec('convenience durations', each=[('Hours', 'h'), ('Minutes', 'm'), ('Seconds', 's'), ('Milliseconds', 'ms'), ('Microseconds', 'us'),
                                    ('Nanoseconds', 'ns'), ('Picoseconds', 'ps')])
def durations(cls, u):
    k = Int('k')
    d = ok(getattr(dur_, cls), k)
    prove(And(Eq(d.n, k), d.unit == u), 'count and unit')
