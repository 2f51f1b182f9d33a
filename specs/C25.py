"""C25: frequency weightings apply per band, and division undoes multiplication"""
import itertools
import z3
from engine.spec import *
from engine import core, bi

wt_ = load('zounds.spectral.weighting')
tf = load('zounds.spectral.tfrepresentation')
fs = load('zounds.spectral.frequencyscale')
sw = load('zounds.spectral.sliding_window')
axis_ = load('zounds.core.axis')
dims_ = load('zounds.core.dimensions')
C08 = borrow('C08')
AWU, Dimension, Identity = axis_.ArrayWithUnits, dims_.Dimension, dims_.IdentityDimension
FrequencyDimension, Explicit = tf.FrequencyDimension, tf.ExplicitFrequencyDimension
Weighting, AWeighting, WindowingFunc = wt_.FrequencyWeighting, wt_.AWeighting, sw.WindowingFunc
assumption('arrays of up to four axes, each of any length')
assumption('numbers are real numbers; a division by a weight needs a weight that is not zero')
assumption('the slices of an explicit frequency dimension follow each other from zero, each of any length')


class AnyDim(Dimension):
    """an arbitrary dimension, that is not a frequency dimension"""

    def __init__(self, tag):
        self.tag = tag

    def copy(self):
        return AnyDim(self.tag)


class Bands(object):
    """any scale of n bands"""

    def __init__(self, n):
        self.n_bands = n

    def __len__(self):
        return self.n_bands


def numbers(name, shape, dtype='float64'):
    sort = z3.IntSort() if dtype.startswith('int') else z3.RealSort()
    f = z3.Function(core.ctx().fresh(name), *([z3.IntSort()] * len(shape) + [sort]))
    return mnumpy.lazy(shape, mnumpy.dtype(dtype), lambda ix: wrap(f(*[zint(i) for i in ix])))


def any_weighting(n):
    data = numbers('weight', (n,))

    class AnyWeighting(Weighting):
        def _wdata(self, scale):
            prove(Eq(scale.__len__(), n), 'the weights are those of the scale of the frequency axis')
            return data
    return AnyWeighting(), data


def tags(arr):
    return [getattr(d, 'tag', 'frequency' if isinstance(d, (FrequencyDimension, Explicit)) else None) for d in arr.dimensions]


AXES = [(r, k) for r in (1, 2, 3, 4) for k in range(r)]


def judge(rank, k, arr, raw, shape, w, weight, position):
    """position: gives, for an arbitrary band, the position of one of its coefficients"""
    want_tags = ['frequency' if j == k else j for j in range(rank)]
    todo = []

    def check(r, op, name):
        prove(isinstance(r, AWU) and len(r.shape) == rank and And(*[Eq(x, y) for x, y in zip(r.shape, shape)]), name + ': the shape is kept')
        prove(tags(r) == want_tags, name + ': the dimensions are kept')
        todo.append((r, op, name))
    check(ok(lambda: arr * w), lambda a, v: a * v, 'multiplication')
    check(ok(lambda: w * arr), lambda a, v: a * v, 'multiplication from the left')
    check(ok(np.multiply, arr, w), lambda a, v: a * v, 'multiplication')
    check(ok(np.multiply, w, arr), lambda a, v: a * v, 'multiplication from the left')
    b, pos = position()
    ix = [Int('p%d' % j, 0) for j in range(rank)]
    assume(And(*[p < n for p, n in zip(ix, shape)]))
    ix[k] = pos
    ix = tuple(ix)
    v = weight._get((b,))
    assume(Not(Eq(v, 0)))
    check(ok(lambda: arr / w), lambda a, v: a / v, 'division')
    check(ok(lambda: (arr * w) / w), lambda a, v: a, 'division of a product')
    check(ok(lambda: (arr / w) * w), lambda a, v: a, 'product of a quotient')
    for r, op, name in todo:
        prove(Eq(r._get(ix), op(raw._get(ix), v)), name + ': every coefficient is scaled by the weight of its band')


@spec('a frequency axis', each=AXES)
def plain(rank, k):
    shape = tuple(Int('n%d' % j, 0) for j in range(rank))
    n = shape[k]
    raw = numbers('a', shape)
    arr = ok(AWU, raw, [FrequencyDimension(Bands(n)) if j == k else AnyDim(j) for j in range(rank)])
    w, weight = any_weighting(n)

    def position():
        b = Int('band', 0)
        assume(b < n)
        return b, b
    judge(rank, k, arr, raw, shape, w, weight, position)


@spec('in place', each=AXES)
def in_place(rank, k):
    shape = tuple(Int('n%d' % j, 0) for j in range(rank))
    n = shape[k]
    raw = numbers('a', shape)
    was = raw.copy()
    arr = ok(AWU, raw, [FrequencyDimension(Bands(n)) if j == k else AnyDim(j) for j in range(rank)])
    w, weight = any_weighting(n)

    def both():
        x = arr
        x *= w
        return x
    r = ok(both)
    prove(r is arr, 'the array itself is changed')
    ix = tuple(Int('p%d' % j, 0) for j in range(rank))
    assume(And(*[p < m for p, m in zip(ix, shape)]))
    prove(Eq(r._get(ix), was._get(ix) * weight._get((ix[k],))), 'every coefficient is scaled by the weight of its band')


@spec('a frequency axis with several coefficients per band', each=AXES, seconds=120)
def explicit(rank, k):
    n = Int('n', 1)
    s, lo, hi = C08.scale(n)
    _, width, _ = C08.blocks(n, 1)
    w, weight = any_weighting(n)
    con = C08.Weights(n, width, lambda b: weight._get((b,)))
    off = con.off
    d = ok(Explicit, s, bi.SSeq(n, lambda b: slice(off.at(b), off.at(b + 1)), 'list'))
    others = [Int('size%d' % j, 0) for j in range(rank - 1)]
    shape = tuple(others[:k] + [off.at(n)] + others[k:])
    raw = numbers('a', shape)
    arr = ok(AWU, raw, [d if j == k else AnyDim(j) for j in range(rank)])
    con.given = [weight, arr]

    def position():
        b, j = Int('band', 0), Int('j', 0)
        assume(And(b < n, j < width(b)))
        return b, off.at(b) + j
    r = ok(lambda: arr * w)
    prove(tags(r) == ['frequency' if j == k else j for j in range(rank)], 'the dimensions are kept')
    q = ok(lambda: arr / w)
    b, pos = position()
    ix = [Int('p%d' % j, 0) for j in range(rank)]
    assume(And(*[p < m for p, m in zip(ix, shape)]))
    ix[k] = pos
    ix = tuple(ix)
    v = weight._get((b,))
    prove(Eq(r._get(ix), raw._get(ix) * v), 'every coefficient is multiplied by the weight of its band')
    assume(Not(Eq(v, 0)))
    prove(Eq(q._get(ix), raw._get(ix) / v), 'every coefficient is divided by the weight of its band')


@spec('everything else is rejected', each=[1, 2, 3])
def rejected(rank):
    shape = tuple(Int('n%d' % j, 0) for j in range(rank))
    raw = numbers('a', shape)
    w, weight = any_weighting(shape[-1])
    other = AWU(raw, [AnyDim(j) if j % 2 else None for j in range(rank)])
    refuse = (ValueError, TypeError, AttributeError)
    for op in (lambda x, y: x * y, lambda x, y: x / y):
        rejects(op, refuse, other, w, _name='an array without a frequency axis is rejected')
        rejects(op, refuse, raw, w, _name='an array without dimensions is rejected')
    rejects(lambda: w * other, refuse, _name='an array without a frequency axis is rejected')
    arr = AWU(raw, [FrequencyDimension(Bands(shape[-1])) if j == rank - 1 else None for j in range(rank)])
    for f in (np.add, np.subtract, np.power, np.floor_divide, np.maximum):
        rejects(f, refuse, arr, w, _name='other operations are rejected')
        rejects(f, refuse, w, arr, _name='other operations are rejected')
    for op in (lambda x, y: x + y, lambda x, y: x - y, lambda x, y: x ** y):
        rejects(op, refuse, arr, w, _name='other operations are rejected')


@spec('A-weighting')
def a_weighting():
    n = Int('n', 1)
    s, lo, hi = C08.scale(n)
    forall_assume(n, lambda i: lo(i) > 0)
    r = ok(AWeighting()._wdata, s)
    prove(len(r.shape) == 1 and Eq(r.shape[0], n), 'one weight per band')
    b = Int('b', 0)
    assume(b < n)
    v = r._get((b,))
    for x in core.ctx().reds:
        x.bound((b,))
    prove(v >= 1, 'no weight is zero, so that division undoes multiplication')


@spec('windowing functions', each=[(r, k, d) for r in (1, 2, 3, 4) for k in ('units', 'plain') for d in ('float64', 'int64')])
def windowing(rank, kind, dtype):
    f = z3.Function('window', z3.IntSort(), z3.IntSort(), z3.RealSort())
    window = lambda size: mnumpy.lazy((size,), mnumpy.dtype('float64'), lambda ix: SReal(f(zint(size), zint(ix[0]))))
    wf = ok(WindowingFunc, window)
    none = ok(sw.IdentityWindowingFunc)
    todo = []
    for j in range(2):
        shape = tuple(Int('n%d_%d' % (j, i), 0) for i in range(rank))
        raw = numbers('a%d' % j, shape, dtype)
        arr = AWU(raw, [AnyDim(i) for i in range(rank)]) if kind == 'units' else raw
        for r in (ok(lambda: arr * wf), ok(lambda: wf * arr), ok(np.multiply, arr, wf), ok(np.multiply, wf, arr)):
            todo.append((r, raw, shape, True))
        for r in (ok(lambda: arr * none), ok(lambda: none * arr)):
            todo.append((r, raw, shape, False))
    for r, raw, shape, windowed in todo:
        prove(len(r.shape) == rank and And(*[Eq(x, y) for x, y in zip(r.shape, shape)]), 'the shape is kept')
        if kind == 'units':
            prove(tags(r) == list(range(rank)), 'the dimensions are kept')
    for r, raw, shape, windowed in todo:
        ix = tuple(Int('p%d' % i, 0) for i in range(rank))
        assume(And(*[p < n for p, n in zip(ix, shape)]))
        v = raw._get(ix)
        if windowed:
            prove(Eq(r._get(ix), v * SReal(f(zint(shape[-1]), zint(ix[-1])))), 'every window is multiplied by the same window')
        else:
            prove(Eq(r._get(ix), v), 'no window, no change')
