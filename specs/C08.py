"""C08: frequency-adaptive arrays return each band's own coefficients"""
import z3
from engine.spec import *
from engine import core, bi
bi.GROWING.add('zounds.spectral.frequencyadaptive')

fs = load('zounds.spectral.frequencyscale')
tf = load('zounds.spectral.tfrepresentation')
fa_ = load('zounds.spectral.frequencyadaptive')
ts = load('zounds.timeseries')
core_ = load('zounds.core.axis')
Band, Scale = fs.FrequencyBand, fs.FrequencyScale
AWU, Explicit, Adaptive = core_.ArrayWithUnits, tf.ExplicitFrequencyDimension, fa_.FrequencyAdaptive
assumption('frequencies are real numbers; a scale has at least one band, with lower and upper edges that never decrease, no two bands the same')
assumption('every block has at least one coefficient')


def scale(n):
    c = core.ctx()
    lo_, hi_ = (z3.Function(c.fresh(k), z3.IntSort(), z3.RealSort()) for k in ('lo', 'hi'))
    lo, hi = lambda i: SReal(lo_(zint(i))), lambda i: SReal(hi_(zint(i)))
    forall_assume(n, lambda i: And(lo(i) < hi(i), hi(i) > 0))
    forall_assume(n, lambda i, j: And(lo(i) <= lo(j), hi(i) <= hi(j), Or(lo(i) < lo(j), hi(i) < hi(j))), pairs=True)
    assume(lo(0) < hi(n - 1))

    class AnyScale(Scale):
        def _compute_bands(self):
            return bi.SSeq(n, lambda k: Band(lo(k), hi(k)), 'list')
    return AnyScale(Band(lo(0), hi(n - 1)), n), lo, hi


def blocks(n, rows):
    """n blocks of coefficients, of any widths"""
    c = core.ctx()
    w_ = z3.Function(c.fresh('width'), z3.IntSort(), z3.IntSort())
    f = z3.Function(c.fresh('coeff'), z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())
    w = lambda k: SInt(w_(zint(k)))
    forall_assume(n, lambda k: w(k) >= 1)
    at = lambda k, i, j: SReal(f(zint(k), zint(i), zint(j)))
    arrs = bi.SSeq(n, lambda k: mnumpy.lazy((rows, w(k)), mnumpy.dtype('float64'), lambda ix: at(k, ix[0], ix[1])), 'list')
    return arrs, w, at


def adaptive():
    n, rows = Int('n', 1), Int('rows', 0)
    s, lo, hi = scale(n)
    arrs, w, at = blocks(n, rows)
    td = ts.TimeDimension(ts.Seconds(1))
    x = ok(Adaptive, arrs, td, s)
    return x, n, rows, s, lo, hi, w, at


@spec('every block is stored and returned')
def stored():
    x, n, rows, s, lo, hi, w, at = adaptive()
    k, i, j = Int('k', 0), Int('i', 0), Int('j', 0)
    assume(And(k < n, i < rows, j < w(k)))
    b = ok(lambda: x[:, item(s.bands, k)])
    prove(len(b.shape) == 2 and And(Eq(b.shape[0], rows), Eq(b.shape[1], w(k))), 'the shape of the block')
    prove(Eq(b._get((i, j)), at(k, i, j)), 'the coefficients of the block')


def overlapping(s, n, lo, hi):
    """a query band that overlaps the bands f .. l-1"""
    a, b = Real('a', 0), Real('b', 0)
    assume(a < b)
    q = Band(a, b)
    sl = s.get_slice(q)
    f, l = sl.start, sl.stop
    assume(f < l)
    k = Int('any', 0)
    assume(k < n)
    prove(Iff(And(f <= k, k < l), And(hi(k) >= a, lo(k) < b)), 'the overlapping bands')
    return q, f, l


@spec('a wider band returns the coefficients of all bands it overlaps')
def wider():
    x, n, rows, s, lo, hi, w, at = adaptive()
    q, f, l = overlapping(s, n, lo, hi)
    forall_assume(n, lambda m: Not(And(Eq(q.start_hz, lo(m)), Eq(q.stop_hz, hi(m)))))
    r = ok(lambda: x[:, q])
    off = mnumpy.running(n, w)
    prove(And(Eq(r.shape[0], rows), Eq(r.shape[1], off.at(l) - off.at(f))), 'all rows, all coefficients of the overlapping bands')
    k, i, j = Int('k', 0), Int('i', 0), Int('j', 0)
    assume(And(i < rows, f <= k, k < l, j < w(k)))
    prove(Eq(r._get((i, off.at(k) - off.at(f) + j)), at(k, i, j)), 'the coefficients of the overlapping bands, in order')
    d = r.dimensions[1]
    prove(isinstance(d, Explicit) and Eq(d.scale.__len__(), l - f), 'the scale of the overlapping bands')
    b = ok(lambda: r[:, Band(lo(k), hi(k))])
    prove(len(b.shape) == 2 and And(Eq(b.shape[0], rows), Eq(b.shape[1], w(k))), 'a band of the result')
    prove(Eq(b._get((i, j)), at(k, i, j)), 'the coefficients of a band of the result')


@spec('iteration yields one block per band, in order')
def iteration():
    x, n, rows, s, lo, hi, w, at = adaptive()
    k, i, j = Int('k', 0), Int('i', 0), Int('j', 0)
    assume(And(k < n, i < rows, j < w(k)))
    it = ok(x.iter_bands)
    prove(Eq(len_(it), n), 'one block per band')
    b = item(it, k)
    prove(len(b.shape) == 2 and And(Eq(b.shape[0], rows), Eq(b.shape[1], w(k))), 'the shape of the block')
    prove(Eq(b._get((i, j)), at(k, i, j)), 'the coefficients of the block')


@spec('an explicit dimension has as many slices as bands')
def matching():
    n, m = Int('n', 1), Int('m', 1)
    s, lo, hi = scale(n)
    off = mnumpy.running(m, lambda k: SInt(z3.Function('piece', z3.IntSort(), z3.IntSort())(zint(k))))
    slices = bi.SSeq(m, lambda k: slice(off.at(k), off.at(k + 1)), 'list')
    if n == m:
        d = ok(Explicit, s, slices)
        prove(d.scale is s, 'the scale')
    else:
        rejects(Explicit, ValueError, s, slices, _name='another number of slices is rejected')


def same_arrays(r, n, rows, s, lo, hi, w, at, name):
    k, i, j = Int('k', 0), Int('i', 0), Int('j', 0)
    assume(And(k < n, i < rows, j < w(k)))
    prove(Eq(r.shape[0], rows), name + ': the rows')
    b = ok(lambda: r[:, item(s.bands, k)])
    prove(len(b.shape) == 2 and And(Eq(b.shape[0], rows), Eq(b.shape[1], w(k))), name + ': the shape of a block')
    prove(Eq(b._get((i, j)), at(k, i, j)), name + ': the coefficients of a block')


@spec('from an array with an explicit frequency dimension', each=['constructor', 'like_dims', 'from_array_with_units'], seconds=120)
def rebuilt(how):
    x, n, rows, s, lo, hi, w, at = adaptive()
    y = np.asarray(x)
    if how == 'constructor':
        r = ok(Adaptive, y, x.dimensions[0], explicit_freq_dimension=x.dimensions[1])
    elif how == 'like_dims':
        r = ok(x.like_dims, y)
    else:
        r = ok(Adaptive.from_array_with_units, AWU(y, x.dimensions))
    prove(isinstance(r, Adaptive), 'an adaptive array')
    same_arrays(r, n, rows, s, lo, hi, w, at, how)


class Weights(object):
    """contract on the loop of ExplicitFrequencyDimension.weights: after i bands, the coefficients of the first i bands
    have the weight of their band"""

    def __init__(self, n, w, weight):
        self.off = mnumpy.running(n, w)
        self.n, self.w, self.weight = n, w, weight
        self.which = z3.Function(core.ctx().fresh('which'), z3.IntSort(), z3.IntSort())

        def out(st):
            got = [v for v in st._d.values() if isinstance(v, np.ndarray) and not any(v is g for g in self.given)]
            if len(got) != 1 or len(got[0].shape) != 1:
                raise Unsupported('loop contract: the result is not identified')
            return got[0]

        def inv(st):
            a, i = out(st), st._i
            b, j = fresh_int('b', 0), fresh_int('j', 0)
            return [Implies(And(b < i, b < n, j < w(b)), Eq(a._get((self.off.at(b) + j,)), weight(b)))]

        def objs(st):
            a, i = out(st), st._i
            g = z3.Function(core.ctx().fresh('garbage'), z3.IntSort(), z3.RealSort())
            a._buf.fn = lambda c: ite(self.owner(c[0]) < i, weight(self.owner(c[0])), SReal(g(zint(c[0]))))
        core.R.contracts[('zounds.spectral.tfrepresentation.ExplicitFrequencyDimension.weights', 0)] = bi.LoopContract(inv, objs=objs)

    def owner(self, c):
        o = SInt(self.which(zint(c)))
        core.ctx().add(zbool(Implies(And(c >= 0, c < self.off.at(self.n)),
                                     And(o >= 0, o < self.n, self.off.at(o) <= c, c < self.off.at(o) + self.w(o)))))
        self.off.at(o)
        return o


@spec('per-band weights are expanded to the coefficients of each band', each=[(1, 0), (2, 1), (2, 0), (3, 2)], seconds=120)
def weights(ndim, axis):
    n = Int('n', 1)
    s, lo, hi = scale(n)
    _, w, _ = blocks(n, 1)
    off = mnumpy.running(n, w)
    d = ok(Explicit, s, bi.SSeq(n, lambda k: slice(off.at(k), off.at(k + 1)), 'list'))
    f = z3.Function(core.ctx().fresh('weight'), z3.IntSort(), z3.RealSort())
    weight = lambda k: SReal(f(zint(k)))
    con = Weights(n, w, weight)
    given = mnumpy.lazy((n,), mnumpy.dtype('float64'), lambda ix: weight(ix[0]))
    others = [Int('size%d' % k, 1) for k in range(ndim - 1)]
    shape = others[:axis] + [off.at(n)] + others[axis:]
    arr = np.symarray('x', tuple(shape))
    con.given = [given, arr]
    r = ok(d.weights, given, arr, axis)
    full = ok(np.broadcast_to, r, tuple(shape))
    ix = [Int('i%d' % k, 0) for k in range(ndim)]
    for k in range(ndim):
        if k != axis:
            assume(ix[k] < shape[k])
    b, j = Int('b', 0), Int('j', 0)
    assume(And(b < n, j < w(b)))
    ix[axis] = off.at(b) + j
    prove(Eq(full._get(tuple(ix)), weight(b)), 'every coefficient of a band has the weight of the band')
