"""C07: frequency bands select exactly the overlapping bands of a scale.

A general scale is any FrequencyScale whose bands have lower and upper edges that never decrease: band i is (lo(i), hi(i))."""
import z3
from engine.spec import *
from engine import core, bi

fs = load('zounds.spectral.frequencyscale')
tf = load('zounds.spectral.tfrepresentation')
core_ = load('zounds.core.axis')
Band, Scale, Hertz = fs.FrequencyBand, fs.FrequencyScale, fs.Hertz
AWU, FrequencyDimension = core_.ArrayWithUnits, tf.FrequencyDimension
Identity = load('zounds.core.dimensions').IdentityDimension
assumption('frequencies are real numbers; a scale has at least one band')


def edges(n):
    """any lower and upper edges of n bands; neither ever decreases, one of them increases"""
    c = core.ctx()
    lo_, hi_ = (z3.Function(c.fresh(k), z3.IntSort(), z3.RealSort()) for k in ('lo', 'hi'))
    lo, hi = lambda i: SReal(lo_(zint(i))), lambda i: SReal(hi_(zint(i)))
    forall_assume(n, lambda i: And(lo(i) < hi(i), hi(i) > 0))
    forall_assume(n, lambda i, j: And(lo(i) <= lo(j), hi(i) <= hi(j), Or(lo(i) < lo(j), hi(i) < hi(j))), pairs=True)
    return lo, hi


def band_list(n, lo, hi, kind='list'):
    return bi.SSeq(n, lambda k: Band(lo(k), hi(k)), kind)


def scale(n, even=False, cls=Scale):
    """any scale of n bands"""
    lo, hi = edges(n)
    assume(lo(0) < hi(n - 1))

    class AnyScale(cls):
        def _compute_bands(self):
            return band_list(n, lo, hi)
    r = AnyScale(Band(lo(0), hi(n - 1)), n, *([even] if cls is Scale else []))
    return r, lo, hi


def selects(sl, n, lo, hi, start, stop, even, name='exactly the overlapping bands'):
    i = Int('i', 0)
    assume(i < n)
    prove(And(sl.start >= 0, sl.start <= sl.stop), 'a run of bands')
    prove(sl.step is None, 'contiguous')
    overlap = And(hi(i) >= start, lo(i) < stop)
    chosen = And(i >= sl.start, i < sl.stop)
    if not even:
        prove(sl.stop <= n, 'bands of the scale')
        prove(Iff(chosen, overlap), name)
    else:
        prove(Implies(overlap, chosen), 'every overlapping band is selected')
        prove(Implies(And(chosen, i + 1 < sl.stop), overlap), 'at most one further band is selected')
        prove(Or(Eq((sl.stop - sl.start) % 2, 0), sl.stop >= n), 'an even number of bands, where there are further bands')


@spec('get_slice selects exactly the overlapping bands', each=[False, True])
def slices(even):
    n = Int('n', 1)
    s, lo, hi = scale(n, even)
    a, b = Real('a', 0), Real('b', 0)
    assume(a < b)
    r = ok(s.get_slice, Band(a, b))
    selects(r, n, lo, hi, a, b, even)
    if even:
        plain, _, _ = scale(n)
        plain._compute_bands = s._compute_bands
        p = ok(plain.get_slice, Band(a, b))
        prove(Eq(r.start, p.start), 'the same first band')
        prove(Or(Eq(r.stop, p.stop), And(Eq(r.stop, p.stop + 1), Eq((p.stop - p.start) % 2, 1))), 'a further band only to make the count even')


@spec('a python slice of hertz bounds', each=[(x, y) for x in ('pos', 'neg', 'none') for y in ('pos', 'neg', 'none') if x != y or x != 'none'])
def hertz(x, y):
    n = Int('n', 1)
    s, lo, hi = scale(n)
    top = hi(n - 1)

    def bound(kind, missing, name):
        if kind == 'none':
            return None, missing
        v = Real(name, 0)
        if kind == 'pos':
            return Hertz(v), v
        assume(And(v > 0, v <= top))
        return Hertz(-v), top - v
    a, A = bound(x, lo(0), 'from')
    b, B = bound(y, top, 'to')
    assume(A < B)
    assume(And(B > lo(0), B > 0))
    r = ok(s.get_slice, slice(a, b))
    selects(r, n, lo, hi, A, B, False)


@spec('integer slices and positions are those of the list of bands')
def plain_slices():
    n = Int('n', 1)
    s, lo, hi = scale(n)
    i, j = Int('i', 0), Int('j', 0)
    r = ok(s.get_slice, slice(i, j))
    prove(And(Eq(r.start, i), Eq(r.stop, j)), 'integer slices are returned unchanged')
    assume(i < n)
    b = ok(lambda: s[i])
    prove(And(isinstance(b, Band), Eq(b.start_hz, lo(i)), Eq(b.stop_hz, hi(i))), 'the band at a position')
    prove(Eq(s.__len__(), n), 'length')


def is_run(r, start, stop, n, lo, hi, name):
    """scale r consists of the bands start .. stop-1"""
    k = Int('k', 0)
    m = r.__len__()
    prove(Eq(m, stop - start), name + ': one band per selected band')
    assume(k < m)
    b = item(r.bands, k)
    prove(And(Eq(b.start_hz, lo(start + k)), Eq(b.stop_hz, hi(start + k))), name + ': the selected bands')


SCALES = {'scale': Scale, 'bark': fs.BarkScale, 'mel': fs.MelScale}


@spec('slicing a scale keeps the selected bands', each=[(k, w) for k in ('scale', 'bark', 'mel', 'explicit', 'linear', 'geometric') for w in ('band', 'int', 'step')])
def sub(kind, what):
    s, n, lo, hi = any_scale(kind)
    if what == 'int':
        i, j = Int('i', 0), Int('j', 1)
        assume(And(i < j, j <= n))
        r = ok(lambda: s[i:j])
    elif what == 'step':
        i, j = Int('i', 0), Int('j', 1)
        assume(And(i < j, j <= n))
        r = ok(lambda: s[i:j:2])
        k = Int('k', 0)
        prove(Eq(r.__len__(), (j - i + 1) // 2), 'one band per selected band')
        assume(k < r.__len__())
        b = item(r.bands, k)
        prove(And(Eq(b.start_hz, lo(i + 2 * k)), Eq(b.stop_hz, hi(i + 2 * k))), 'every other band')
        return
    else:
        a, b = Real('a', 0), Real('b', 0)
        assume(a < b)
        band = Band(a, b)
        sl = ok(s.get_slice, band)
        i, j = sl.start, sl.stop
        assume(i < j)
        r = ok(lambda: s[band])
    prove(isinstance(r, Scale), 'a scale')
    is_run(r, i, j, n, lo, hi, kind)


def any_scale(kind):
    n = Int('n', 1)
    if kind in SCALES:
        s, lo, hi = scale(n, cls=SCALES[kind])
    elif kind == 'explicit':
        lo, hi = edges(n)
        assume(lo(0) < hi(n - 1))
        s = fs.ExplicitScale(band_list(n, lo, hi))
    elif kind == 'linear':
        a, b = Real('f0', 0), Real('f1', 0)
        assume(a < b)
        s = fs.LinearScale(Band(a, b), n)
        step = (b - a) / n
        assume(step > 0)
        lo, hi = lambda k: a + step * k, lambda k: a + step * (k + 1)
    else:
        a, b, q = Real('c0', 0), Real('c1', 0), Real('ratio', 0)
        assume(And(a > 0, a < b, q > 0, q < 2))
        s = fs.GeometricScale(a, b, q, n)
        lo, hi = lambda k: item(s.bands, k).start_hz, lambda k: item(s.bands, k).stop_hz
    return s, n, lo, hi


@spec('a linear scale tiles its range with equal bands')
def linear():
    n = Int('n', 1)
    a, b = Real('f0', 0), Real('f1', 0)
    assume(a < b)
    s = ok(fs.LinearScale, Band(a, b), n)
    bands = ok(lambda: s.bands)
    prove(Eq(len_(bands), n), 'n bands')
    i = Int('i', 0)
    assume(i < n)
    x = item(bands, i)
    prove(Eq((x.stop_hz - x.start_hz) * n, b - a), 'bands of equal width')
    prove(Eq((x.start_hz - a) * n, (b - a) * i), 'band i starts after i bands')
    prove(Implies(Eq(i, 0), Eq(x.start_hz, a)), 'the first band starts at the lower limit')
    prove(Implies(Eq(i, n - 1), Eq(x.stop_hz, b)), 'the last band stops at the upper limit')
    assume(i + 1 < n)
    prove(Eq(item(bands, i + 1).start_hz, x.stop_hz), 'bands are adjacent')


@spec('bands: interval arithmetic')
def bands():
    a, b, c, d = Real('a'), Real('b'), Real('c'), Real('d')
    rejects(Band, ValueError, b, a, _name='an empty band is rejected') if b >= a else None
    assume(And(a < b, c < d))
    x, y = ok(Band, a, b), ok(Band, c, d)
    prove(And(Eq(x.start_hz, a), Eq(x.stop_hz, b)), 'edges')
    prove(Eq(x.bandwidth, b - a), 'bandwidth')
    prove(Eq(x.center_frequency * 2, a + b), 'centre')
    s = ok(Band.from_start, a, b - a)
    prove(And(Eq(s.start_hz, a), Eq(s.stop_hz, b)), 'from its start and width')
    s = ok(Band.from_center, (a + b) / 2, b - a)
    prove(And(Eq(s.start_hz, a), Eq(s.stop_hz, b)), 'from its centre and width')
    prove(Iff(bool(x == y), And(Eq(a, c), Eq(b, d))), 'equal when the edges are')
    low, high = ite(a > c, a, c), ite(b < d, b, d)
    if low < high:
        r = ok(x.intersect, y)
        prove(And(Eq(r.start_hz, low), Eq(r.stop_hz, high)), 'intersection')
        prove(Eq(ok(x.intersection_ratio, y) * (b - a), high - low), 'the part of a band covered by another')
    else:
        rejects(x.intersect, ValueError, y, _name='an empty intersection is rejected')
    w = Real('w')
    assume(w <= 0)
    rejects(Band.from_start, ValueError, a, w, _name='an empty band is rejected')
    rejects(Band.from_center, ValueError, a, w, _name='an empty band is rejected')


@spec('an empty slice of hertz is rejected')
def empty_slice():
    n = Int('n', 1)
    s, lo, hi = scale(n)
    a, b = Real('a', 0), Real('b', 0)
    assume(b <= a)
    r = run(s.get_slice, slice(Hertz(a), Hertz(b)))
    from engine.spec import Raised
    prove(isinstance(r, Raised), 'rejected')


@spec('a frequency axis has as many entries as its scale has bands')
def validated():
    n, m = Int('n', 1), Int('m', 0)
    s, lo, hi = scale(n)
    a = np.symarray('x', (m, Int('k', 0)))
    if m == n:
        r = ok(AWU, a, [FrequencyDimension(s), Identity()])
        prove(r.dimensions[0].scale is s, 'the axis has the scale')
    else:
        rejects(AWU, ValueError, a, [FrequencyDimension(s), Identity()], _name='another number of entries is rejected')


@spec('slicing a frequency axis keeps the scale of the selected bands', each=[('band', 0), ('band', 1), ('int', 0), ('hertz', 1)], seconds=120)
def axis(what, pos):
    n, k = Int('n', 1), Int('k', 0)
    s, lo, hi = scale(n)
    shape, dims = ((n, k), [FrequencyDimension(s), Identity()]) if pos == 0 else ((k, n), [Identity(), FrequencyDimension(s)])
    a = np.symarray('x', shape)
    arr = AWU(a, dims)
    if what == 'int':
        i, j = Int('i', 1), Int('j', 1)
        assume(And(i < j, j <= n))
        ix = slice(i, j)
    else:
        f, g = Real('f', 0), Real('g', 0)
        assume(f < g)
        ix = Band(f, g) if what == 'band' else slice(Hertz(f), Hertz(g))
        sl = s.get_slice(ix)
        i, j = sl.start, sl.stop
        assume(i < j)
    r = ok(lambda: arr[ix] if pos == 0 else arr[:, ix])
    prove(len(r.shape) == 2 and Eq(r.shape[pos], j - i), 'one entry per selected band')
    d = r.dimensions[pos]
    prove(isinstance(d, FrequencyDimension), 'still a frequency axis')
    p, q = Int('p', 0), Int('q', 0)
    assume(And(p < j - i, q < k))
    prove(Eq(r._get((p, q) if pos == 0 else (q, p)), a._get((i + p, q) if pos == 0 else (q, i + p))), 'the entries of the selected bands')
    is_run(d.scale, i, j, n, lo, hi, 'axis')
