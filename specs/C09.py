"""C09: a variable-rate time series stays sorted and slices by overlap."""
from engine.spec import *
from engine import bi
from engine.bi import SSeq, as_sseq, is_symseq
bi.GROWING.add('zounds.timeseries.variablerate')

vr = load('zounds.timeseries.variablerate')
ts_ = load('zounds.timeseries.timeseries')
VRTS, TimeSlice = vr.VariableRateTimeSeries, ts_.TimeSlice
td = np.timedelta64
KINDS = [('none', 'uint8'), (1, 'float64'), (2, 'int16')]


def slice_(start, duration):
    s = object.__new__(TimeSlice)
    s.start, s.duration = td(start, 'ps'), td(duration, 'ps')
    return s


class Pairs(object):
    """any number of (time slice, data) pairs in any order"""

    def __init__(self, name, tail, dt, least=0, ordered=False):
        self.n = Int(name, least)
        self.tail = tail
        a = np.symarray(name + '.start', (self.n,), 'int64')
        d = np.symarray(name + '.duration', (self.n,), 'int64')
        self.start, self.duration = (lambda i: a._get((i,))), (lambda i: d._get((i,)))
        self.data = np.symarray(name + '.data', (self.n,) + tail, dt)
        forall_assume(self.n, lambda k: And(0 <= self.duration(k), self.duration(k) < 2 ** 53))
        forall_assume(self.n, lambda k: And(-2 ** 53 < self.start(k), self.start(k) < 2 ** 53))
        if ordered:
            forall_assume(self.n, lambda j, k: self.start(j) <= self.start(k), pairs=True)

    def seq(self):
        return SSeq(self.n, lambda k: (slice_(self.start(k), self.duration(k)), np.row(self.data, k)), 'list')

    def series(self):
        """a series in an arbitrary state: entries ordered by start"""
        r = np.recarray(self.n, dtype=[('timeslice', TimeSlice), ('slicedata', self.data.dtype, self.tail)])
        r[:] = self.seq()
        return ok(VRTS, r)

    def end(self, i):
        return self.start(i) + self.duration(i)

    def is_(self, got, j, i, e):
        """entry j of the series is pair i"""
        s = item(got.slices, j)
        r = And(0 <= i, i < self.n, Eq(s.start.ps, self.start(i)), Eq(s.duration.ps, self.duration(i)))
        return r if e is None else And(r, Eq(got.slicedata._get((j,) + e), self.data._get((i,) + e)))


def tails(rank):
    return (0,) if rank == 'none' else tuple(Int('width%d' % k, 1) for k in range(rank))


def at(tail):
    if tail == (0,):
        return None
    e = []
    for m in tail:
        i = fresh_int('e')
        assume(And(0 <= i, i < m))
        e.append(i)
    return tuple(e)


def ordered(got, n):
    j, k = Int('j', 0), Int('k', 0)
    assume(And(j <= k, k < n))
    prove(item(got.slices, j).start.ps <= item(got.slices, k).start.ps, 'ordered by start time')


@spec('built from pairs in any order', each=KINDS, seconds=120)
def build(rank, dt):
    p = Pairs('n', tails(rank), dt)
    got = ok(VRTS, p.seq())
    prove(Eq(len_(got), p.n) if False else Eq(got.raw_data.shape[0], p.n), 'as many entries as pairs')
    ordered(got, p.n)
    e = at(p.tail)
    j = Int('position', 0)
    assume(j < p.n)
    prove(some(p.is_(got, j, i, e) for i in positions(j)), 'every entry is one of the pairs, with its own data')
    i = Int('pair', 0)
    assume(i < p.n)
    prove(some(And(0 <= j, j < p.n, p.is_(got, j, i, e)) for j in positions(i, True)), 'every pair is an entry')


@spec('built from pairs whose data differ in type', each=[('int32', 'float64'), ('uint8', 'int16'), ('bool', 'float32')])
def types(a, b):
    w = Int('width', 1)
    xs = [np.symarray('x', (w,), a), np.symarray('y', (w,), b)]
    starts = [Int('s', 0), Int('t', 0)]
    pairs = [(slice_(s, Int('d', 0)), x) for s, x in zip(starts, xs)]
    assume(Not(Eq(starts[0], starts[1])))
    got = ok(VRTS, pairs)
    e = Int('e', 0)
    assume(e < w)
    first = 0 if fork(starts[0] < starts[1]) else 1
    for j in (0, 1):
        prove(Eq(item(got.slices, j).start.ps, starts[first ^ j]), 'ordered by start time')
        prove(Eq(got.slicedata._get((j, e)), xs[first ^ j]._get((e,))), 'each with its own data')


@spec('the span and the end', each=['any', 'empty'])
def span(kind):
    if kind == 'empty':
        got = ok(VRTS, [])
        prove(len(got) == 0, 'no entries')
        prove(And(Eq(got.end.ps, 0), Eq(got.span.start.ps, 0), Eq(got.span.duration.ps, 0)), 'nothing spans nothing')
        return
    p = Pairs('n', (0,), 'uint8', 1, True)
    got = p.series()
    end = ok(lambda: got.end)
    prove(Eq(end.ps, p.end(p.n - 1)), 'the end is that of the last entry')
    s = ok(lambda: got.span)
    prove(And(Eq(s.start.ps, p.start(0)), Eq(s.start.ps + s.duration.ps, p.end(p.n - 1))),
          'the span runs from the first start to the end of the last entry')


@spec('concatenation', each=KINDS, seconds=120)
def concat(rank, dt):
    tail = tails(rank)
    p, q = Pairs('n', tail, dt, 0, True), Pairs('m', tail, dt, 0, True)
    a, b = p.series(), q.series()

    def contract(self, data):
        s = as_sseq(data if is_symseq(data) else list(data))
        self.__dict__['given'] = s
    by_contract(VRTS, '__init__', contract, 'built from pairs in any order')
    got = ok(a.concat, b)
    prove(isinstance(got, VRTS), 'a series')
    s = got.given
    n = p.n + q.n
    prove(Eq(s.length, n), 'as many pairs as both')
    e = at(tail)

    def pair(j, x, i):
        t, d = s.get(j)
        r = And(0 <= i, i < x.n, 0 <= j, j < n, Eq(t.start.ps, x.start(i)), Eq(t.duration.ps, x.duration(i)))
        return r if e is None else And(r, Eq(d._get(e), x.data._get((i,) + e)))
    j = Int('position', 0)
    assume(j < n)
    prove(Or(*[pair(j, x, i) for x in (p, q) for i in (j, j - p.n, j - q.n)]), 'every pair is from one of them, with its own data')
    i = Int('pair', 0)
    if fork(i < p.n):
        prove(some(pair(j, p, i) for j in (i, i + q.n)), 'every entry of the first is kept')
        cover('first')
    else:
        assume(i < n)
        prove(some(pair(j, q, i - p.n) for j in (i, i - p.n)), 'every entry of the second is kept')
        cover('second')


@spec('indexing by a time slice', each=[k + (b,) for k in KINDS for b in (True, False)], seconds=120)
def select(rank, dt, bounded):
    p = Pairs('n', tails(rank), dt, 0, True)
    a = p.series()
    s, d = Int('start'), Int('duration', 0)
    q = ok(TimeSlice, td(d, 'ps') if bounded else None, td(s, 'ps'))
    overlaps = lambda i: And(p.end(i) > s, p.start(i) < s + d) if bounded else p.end(i) > s
    got = ok(lambda: a[q])
    m = got.raw_data.shape[0]
    ordered(got, m)
    e = at(p.tail)
    j = Int('position', 0)
    assume(j < m)
    c = [i for i in positions(j)]
    prove(some(And(p.is_(got, j, i, e), overlaps(i)) for i in c), 'every entry kept overlaps, with its own data')
    i = Int('entry', 0)
    assume(i < p.n)
    assume(overlaps(i))
    prove(some(And(0 <= j, j < m, p.is_(got, j, i, e)) for j in positions(i, True)), 'every overlapping entry is kept')
    # not twice
    j2 = Int('other', 0)
    assume(And(j < j2, j2 < m))
    prove(some(And(p.is_(got, j, f(j), e), p.is_(got, j2, f(j2), e), f(j) != f(j2)) for f in maps()), 'and only once')


def maps():
    n = len(positions(0))
    return [lambda j, k=k: positions(j)[k] for k in range(n)]


@spec('indexing by position', each=KINDS)
def by_position(rank, dt):
    p = Pairs('n', tails(rank), dt, 1, True)
    a = p.series()
    i = Int('i')
    assume(And(i >= -p.n, i < p.n))
    got = ok(lambda: a[i])
    k = ite(i < 0, i + p.n, i)
    e = at(p.tail)
    v = got.slicedata
    prove(And(Eq(got.timeslice.start.ps, p.start(k)), Eq(got.timeslice.duration.ps, p.duration(k)),
              True if e is None else Eq(v._get(e), p.data._get((k,) + e))), 'the entry at that position')


@spec('saving and restoring', each=KINDS, seconds=120)
def roundtrip(rank, dt):
    p = Pairs('n', tails(rank), dt, 0, True)
    a = p.series()
    enc, dec = vr.VariableRateTimeSeriesEncoder(), vr.VariableRateTimeSeriesDecoder()
    raw = ok(enc._prepare_data, a)
    prove(Eq(raw.shape[0], p.n), 'as many rows as entries')
    got = ok(dec._wrap_array, raw, None)
    prove(Eq(got.raw_data.shape[0], p.n), 'as many entries as before')
    e = at(p.tail)
    j = Int('position', 0)
    assume(j < p.n)
    prove(p.is_(got, j, j, e), 'the same slice with the same data at every position')


@spec('indexing by a range of positions', each=KINDS)
def by_range(rank, dt):
    p = Pairs('n', tails(rank), dt, 0, True)
    a = p.series()
    lo, hi = Int('lo', 0), Int('hi', 0)
    assume(And(lo <= hi, hi <= p.n))
    got = ok(lambda: a[lo:hi])
    prove(Eq(got.raw_data.shape[0], hi - lo), 'as many entries as positions')
    j = Int('position', 0)
    assume(j < hi - lo)
    prove(p.is_(got, j, lo + j, at(p.tail)), 'the entries at those positions, each with its own data')
