"""C27: frequency-scale transforms weight exactly the bands they overlap"""
import z3
from engine.spec import *
from engine import core, bi

fs = load('zounds.spectral.frequencyscale')
tf = load('zounds.spectral.tfrepresentation')
fn_ = load('zounds.spectral.functional')
sw = load('zounds.spectral.sliding_window')
ts = load('zounds.timeseries')
axis_ = load('zounds.core.axis')
C08 = borrow('C08')
AWU, FrequencyDimension, WindowingFunc = axis_.ArrayWithUnits, tf.FrequencyDimension, sw.WindowingFunc
assumption('frequencies and numbers are real numbers; a scale has at least one band, with increasing lower and upper edges')
assumption('no edge of a source band coincides with one of a target band (whether bands that only touch overlap is the subject of C07)')
assumption('the source scale is not always-even')


def apps(k):
    return z3.Function(core.ctx().fresh('f'), *([z3.IntSort()] * k + [z3.RealSort()]))


class Problem(object):
    def __init__(self, kind):
        self.m, self.n = Int('m', 1), Int('n', 1)
        self.target, self.tlo, self.thi = C08.scale(self.m)
        self.source, self.slo, self.shi = C08.scale(self.n)
        c = core.ctx()
        first, last = (z3.Function(c.fresh(k), z3.IntSort(), z3.IntSort()) for k in ('first', 'last'))
        self.first_, self.last_ = (lambda r: SInt(first(zint(r)))), (lambda r: SInt(last(zint(r))))
        self.known = []
        w = apps(2)
        self.win = (lambda size, k: SReal(w(zint(size), zint(k))))
        if kind == 'function':
            self.window = ok(WindowingFunc, lambda size: mnumpy.lazy((size,), mnumpy.dtype('float64'), lambda ix: self.win(size, ix[0])))
        elif kind in ('identity', 'none'):
            self.window = ok(sw.IdentityWindowingFunc) if kind == 'identity' else None
            self.win = lambda size, k: 1.0
        else:
            self.window = Real('window')
            self.win = lambda size, k: self.window

    def run_of(self, r):
        """the run of source bands that overlap target band r (it is one because the edges increase)"""
        f, l = self.first_(r), self.last_(r)
        key = z3.simplify(zint(r)).get_id()
        if key not in [k for k, _ in self.known]:
            self.known.append((key, z3.simplify(zint(r))))
            c = core.ctx()
            v = z3.Int(c.fresh('v'))
            s = SInt(v)
            rng = z3.And(v >= 0, v < zint(self.n))
            c.add(z3.Implies(z3.And(zint(r) >= 0, zint(r) < zint(self.m)), zbool(And(f >= 0, f <= self.n, l >= 0, l <= self.n))))
            inside = And(r >= 0, r < self.m)
            c.add(z3.ForAll([v], z3.Implies(z3.And(rng, zbool(inside)), zbool(And(
                Iff(s < f, self.shi(s) < self.tlo(r)), Iff(s < l, self.slo(s) < self.thi(r)),
                Not(Eq(self.shi(s), self.tlo(r))), Not(Eq(self.slo(s), self.thi(r)))))),
                patterns=[zreal(self.shi(s)), zreal(self.slo(s))]))
        return f, l

    def overlap(self, r, c):
        return And(self.shi(c) > self.tlo(r), self.slo(c) < self.thi(r))

    def weight(self, r, c):
        f, l = self.run_of(r)
        return ite(self.overlap(r, c), self.win(l - f, c - f), 0.0)

    def contract(self):
        def out(st):
            got = [v for v in st._d.values() if type(v) is np.ndarray and len(v.shape) == 2]
            if len(got) != 1:
                raise Unsupported('loop contract: the weights are not identified')
            return got[0]

        def inv(st):
            a, i = out(st), st._i
            r, c = fresh_int('r', 0), fresh_int('c', 0)
            return [Implies(And(r < self.m, c < self.n), Eq(a._get((r, c)), ite(r < i, self.weight(r, c), 0.0)))]

        def objs(st):
            a, i = out(st), st._i
            a._buf.fn = lambda ix: ite(ix[0] < i, self.weight(ix[0], ix[1]), 0.0)
        core.R.contracts[('zounds.spectral.frequencyscale.FrequencyScale._basis', 0)] = bi.LoopContract(inv, objs=objs)


def numbers(shape):
    f = apps(len(shape))
    return mnumpy.lazy(shape, mnumpy.dtype('float64'), lambda ix: SReal(f(*[zint(i) for i in ix])))


@spec('the weights of every band', each=['function', 'number', 'identity'], seconds=150)
def basis(kind):
    p = Problem(kind)
    p.contract()
    w = ok(p.target._basis, p.source, p.window)
    prove(len(w.shape) == 2 and And(Eq(w.shape[0], p.m), Eq(w.shape[1], p.n)), 'one row per target band, one column per source band')
    r, c = Int('r', 0), Int('c', 0)
    assume(And(r < p.m, c < p.n))
    f, l = p.run_of(r)
    prove(Implies(Not(p.overlap(r, c)), Eq(w._get((r, c)), 0)), 'source bands outside the target band have no weight')
    prove(Implies(p.overlap(r, c), And(f <= c, c < l, Eq(w._get((r, c)), p.win(l - f, c - f)))), 'the window is spread over the bands that overlap')


def weighted(p):
    """contract of _basis: the weights (any table of numbers here)"""
    f = apps(2)
    p.weight = lambda r, c: SReal(f(zint(r), zint(c)))

    def contract(self, other, window):
        if self is not p.target or other is not p.source:
            return Ellipsis
        if p.window is None:
            k, i = Int('k', 0), Int('i', 0)
            x = window * np.ones(k)
            prove(Implies(i < k, Eq(x._get((i,)), 1)), 'without a window all bands count in full')
        elif window is not p.window:
            return Ellipsis
        return mnumpy.lazy((p.m, p.n), mnumpy.dtype('float64'), lambda ix: p.weight(*ix))
    by_contract(fs.FrequencyScale, '_basis', contract, 'the weights of every band')


@spec('applying a scale', each=[('function', 1), ('function', 2), ('number', 2)], seconds=100)
def applied(kind, rank):
    p = Problem(kind)
    frames = Int('frames', 0)
    shape = (frames, p.n)[-rank:]
    raw = numbers(shape)
    x = ok(AWU, raw, [ts.TimeDimension(ts.Seconds(1)), FrequencyDimension(p.source)][-rank:])
    weighted(p)
    r = ok(p.target.apply, x, p.window)
    prove(len(r.shape) == rank and Eq(r.shape[-1], p.m), 'one column per band')
    if rank == 2:
        prove(Eq(r.shape[0], frames), 'one row per frame')
    ix = [Int('frame', 0), Int('band', 0)][-rank:]
    assume(And(*[i < n for i, n in zip(ix, r.shape)]))
    b = ix[-1]
    want = mnumpy.reduce_box('sum', [p.n], lambda k: p.weight(b, k[0]) * raw._get(tuple(ix[:-1]) + (k[0],)), mnumpy.dtype('float64'))
    got = r._get(tuple(ix))
    mnumpy.congruence()
    prove(Eq(got, want), 'the window-weighted sum of the bands that overlap')


@spec('applying a scale to a spectrogram', each=['function', 'number', 'none'], seconds=100)
def spectrogram(kind):
    p = Problem(kind)
    frames = Int('frames', 0)
    raw = numbers((frames, p.n))
    x = ok(AWU, raw, [ts.TimeDimension(ts.Seconds(1)), FrequencyDimension(p.source)])
    weighted(p)
    r = ok(fn_.apply_scale, x, p.target, p.window)
    prove(isinstance(r, AWU) and len(r.shape) == 2 and And(Eq(r.shape[0], frames), Eq(r.shape[1], p.m)), 'one row per frame, one column per band')
    prove(isinstance(r.dimensions[0], ts.TimeDimension) and isinstance(r.dimensions[1], FrequencyDimension)
          and r.dimensions[1].scale is p.target, 'the dimensions')
    f, b = Int('frame', 0), Int('band', 0)
    assume(And(f < frames, b < p.m))
    want = mnumpy.reduce_box('sum', [p.n], lambda k: p.weight(b, k[0]) * abs_(raw._get((f, k[0]))), mnumpy.dtype('float64'))
    got = r._get((f, b))
    mnumpy.congruence()
    prove(Eq(got, want), 'the window-weighted sum of the magnitudes that overlap')


def abs_(x):
    return ite(x < 0, -x, x)
