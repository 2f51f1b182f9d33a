"""C01: time slices select exactly the samples that overlap them."""
from engine.spec import *

ts_ = load('zounds.timeseries.timeseries')
core_ = load('zounds.core.axis')
TimeSlice, TimeDimension, AWU = ts_.TimeSlice, ts_.TimeDimension, core_.ArrayWithUnits
td = np.timedelta64
assumption('durations are below 2^53 of their common unit, so float64 quotients of durations have the floor, ceiling and '
           'rounding of the exact rational quotient')

UNITS = [('ps', 'ps'), ('ps', 'ms'), ('ms', 's'), ('s', 'ms')]


def axis(fu, n=None):
    f = td(Int('f', 1), fu)
    d = td(Int('d', 1), fu)
    assume(d >= f)
    n = Int('n', 0) if n is None else n
    return f, d, n


def overlapping(start_index, stop_index, n, f, d, s, e, prefix=''):
    """the run [start_index, stop_index) clipped to the axis is exactly the set of samples overlapping [s, e),
    but for an overlap of at most 0.5% of f at the end"""
    i = Int('i', 0)
    assume(i < n)
    F, D, S, E = f.ps, d.ps, s.ps, e.ps
    inside = And(i >= start_index, i < stop_index)
    prove(Implies(inside, And(i * F < E, i * F + D > S)), prefix + 'every selected sample overlaps the slice')
    prove(Implies(And(i * F + D > S, (E - i * F) * 200 > F), inside),
          prefix + 'every overlapping sample is selected')
    cover(prefix + 'sample compared')


@spec('TimeDimension.integer_based_slice: bounded slice', each=UNITS)
def bounded(fu, su):
    f, d, n = axis(fu)
    dim = TimeDimension(f, d, n)
    s, dur = td(Int('s', 0), su), td(Int('dur', 1), su)
    r = ok(dim.integer_based_slice, TimeSlice(start=s, duration=dur))
    prove(And(r.start >= 0, r.stop >= 0), 'bounds are nonnegative integers')
    prove(r.step is None, 'no step')
    overlapping(r.start, r.stop, n, f, d, s, s + dur)


@spec('TimeDimension.integer_based_slice: to the end', each=[('ps', 'ps'), ('ms', 's')])
def unbounded(fu, su):
    f, d, n = axis(fu)
    dim = TimeDimension(f, d, n)
    s = td(Int('s', 0), su)
    r = ok(dim.integer_based_slice, TimeSlice(start=s))
    # everything from the first overlapping sample on
    i = Int('i', 0)
    assume(i < n)
    prove(Iff(And(i >= r.start, i < r.stop), i * f.ps + d.ps > s.ps), 'exactly the samples ending after the start')
    prove(And(r.start >= 0, r.stop >= 0), 'bounds are nonnegative integers')


@spec('TimeDimension.integer_based_slice: python slice of durations', each=[
    (lo, hi, u) for lo in ('none', 'pos', 'neg') for hi in ('none', 'pos', 'neg') for u in (('ps', 'ps'), ('ms', 's'))])
def pyslice(lo, hi, u):
    fu, su = u
    f, d, n = axis(fu)
    dim = TimeDimension(f, d, n)
    end = f.ps * n + d.ps - f.ps
    k = {'ps': 1, 'ms': 10 ** 9, 's': 10 ** 12}[su]

    def bound(kind, name):
        if kind == 'none':
            return None, None
        if kind == 'pos':
            v = Int(name, 0)
            return td(v, su), v * k
        v = Int(name, 1)
        assume(v * k <= end)
        return td(-v, su), end - v * k
    a, A = bound(lo, 'a')
    b, B = bound(hi, 'b')
    A = 0 if A is None else A
    B = end if B is None else B
    assume(A < B)
    r = ok(dim.integer_based_slice, slice(a, b))
    overlapping(r.start, r.stop, n, f, d, td(A, 'ps'), td(B, 'ps'))


@spec('TimeDimension.integer_based_slice: other indices pass through')
def other():
    f, d, n = axis('ps')
    dim = TimeDimension(f, d, n)
    i, j, k = Int('i', 0), Int('j', 0), Int('k', 1)
    prove(ok(dim.integer_based_slice, i) is i, 'integers are returned unchanged')
    sl = slice(i, j, k)
    r = ok(dim.integer_based_slice, sl)
    prove(And(Eq(r.start, i), Eq(r.stop, j), Eq(r.step, k)), 'integer slices are returned unchanged')


@spec('TimeDimension: construction, span and end', each=['ps', 's'])
def span(fu):
    f, d, n = axis(fu)
    dim = TimeDimension(f, d, n)
    prove(And(dim.frequency == f, dim.duration == d, Eq(dim.size, n)), 'attributes')
    e = ok(lambda: dim.end)
    prove(Implies(n > 0, e.ps == (n - 1) * f.ps + d.ps), 'the end is where the last sample ends')
    sp = dim.span
    prove(sp.start.ps == 0, 'the span starts at zero')
    d2 = TimeDimension(f)
    prove(d2.duration == f, 'the duration defaults to the frequency')
    c = dim.copy()
    prove(And(c.frequency == f, c.duration == d, Eq(c.size, n)), 'copies are equal')
    m = Int('m', 0)
    ms = dim.metaslice(slice(None), m)
    prove(And(ms.frequency == f, ms.duration == d, Eq(ms.size, m)), 'a slice of the axis keeps frequency and duration and records its length')
    rejects(TimeDimension, ValueError, 5, _name='a frequency that is not a duration is rejected')
    rejects(TimeDimension, ValueError, f, 5, _name='a duration that is not a duration is rejected')


@spec('ArrayWithUnits[TimeSlice] on a time axis', each=[('ps', 'ps'), ('ms', 's')])
def array(fu, su):
    f, d, n = axis(fu)
    m = Int('m', 0)
    a = np.symarray('x', (n, m))
    arr = AWU(a, [TimeDimension(f, d), load('zounds.core.dimensions').IdentityDimension()])
    s, dur = td(Int('s', 0), su), td(Int('dur', 1), su)
    r = ok(lambda: arr[TimeSlice(start=s, duration=dur)])
    k = r.shape[0]
    dim = r.dimensions[0]
    prove(isinstance(dim, TimeDimension), 'the axis is still a time axis')
    prove(And(dim.frequency == f, dim.duration == d), 'frequency and duration are kept')
    prove(Eq(dim.size, k), 'the length is recorded')
    prove(len(r.shape) == 2 and Eq(r.shape[1], m), 'other axes are untouched')
    i, j, c = Int('i', 0), Int('j', 0), Int('c', 0)
    assume(And(i < n, j < k, c < m))
    F, D, S, E = f.ps, d.ps, s.ps, s.ps + dur.ps
    first = arr.dimensions[0].integer_based_slice(TimeSlice(start=s, duration=dur)).start
    prove(Eq(r._get((j, c)), a._get((first + j, c))), 'element j of the result is sample first+j')
    prove((first + j) * F < E, 'every selected sample begins before the end of the slice')
    prove((first + j) * F + D > S, 'every selected sample ends after the start of the slice')
    prove(Implies(And(i * F + D > S, (E - i * F) * 200 > F), And(i >= first, i < first + k)), 'every overlapping sample is in the result')
