"""C03: structural operations keep data, axes and dimensions consistent"""
import itertools
import z3
from engine.spec import *
from engine import core, bi

axis_ = load('zounds.core.axis')
dims_ = load('zounds.core.dimensions')
ts = load('zounds.timeseries')
tf = load('zounds.spectral.tfrepresentation')
fs = load('zounds.spectral.frequencyscale')
AWU, Dimension, Identity = axis_.ArrayWithUnits, dims_.Dimension, dims_.IdentityDimension
TimeDimension, FrequencyDimension = ts.TimeDimension, tf.FrequencyDimension
td = np.timedelta64
assumption('arrays of up to four axes, each of any length')


class AnyDim(Dimension):
    """an arbitrary dimension"""

    def __init__(self, tag):
        self.tag = tag

    def copy(self):
        return AnyDim(self.tag)

    def __eq__(self, other):
        return isinstance(other, AnyDim) and self.tag == other.tag


def sizes(rank, low=0, name='n'):
    return tuple(Int('%s%d' % (name, k), low) for k in range(rank))


def data(shape, name='a', kind='float64'):
    if kind != 'float64':
        return mnumpy.symarray(name, shape, kind)
    f = z3.Function(core.ctx().fresh(name), *([z3.IntSort()] * len(shape) + [z3.RealSort()]))
    return mnumpy.lazy(shape, mnumpy.dtype('float64'), lambda ix: SReal(f(*[zint(i) for i in ix])) if shape else SReal(z3.Real(name)))


def example(rank, low=0):
    shape = sizes(rank, low)
    raw = data(shape)
    return shape, raw, ok(AWU, raw, [AnyDim(k) for k in range(rank)])


def tags(arr):
    return [getattr(d, 'tag', 'identity' if type(d) is Identity else None) for d in arr.dimensions]


LATER = []


def same_data(got, ref, what=''):
    """the numbers are those of plain numpy (the elements are compared last: that assumes that there are some)"""
    gs, rs = getattr(got, 'shape', ()), getattr(ref, 'shape', ())
    prove_detail(len(gs) == len(rs) and And(*[Eq(x, y) for x, y in zip(gs, rs)]), 'the shape is that of plain numpy', what)
    if len(gs) == len(rs):
        LATER.append((got, ref, rs, what))


def same_elements(got, ref, shape, what):
    at = lambda x: x._get(pos) if hasattr(x, '_get') else x
    pos = tuple(Int('p%d' % k, 0) for k in range(len(shape)))
    assume(And(*[p < n for p, n in zip(pos, shape)]))
    prove_detail(Eq(at(got), at(ref)), 'the numbers are those of plain numpy', what)


def contract(name, **k):
    def deco(fn):
        def run_(*a):
            del LATER[:]
            fn(*a)
            for x in LATER:
                same_elements(*x)
        return spec(name, **k)(run_)
    return deco


def carries(got, want, what=''):
    prove_detail(tags(got) == list(want), 'every axis has its own dimension', '%s: %s instead of %s' % (what, tags(got), list(want)))


@contract('construction', each=[0, 1, 2, 3, 4])
def construction(rank):
    shape = sizes(rank)
    raw = data(shape)
    arr = ok(AWU, raw, [AnyDim(k) for k in range(rank)])
    same_data(arr, raw)
    carries(arr, range(rank))
    carries(ok(AWU, raw, [None] * rank), ['identity'] * rank)
    rejects(AWU, ValueError, raw, [AnyDim(k) for k in range(rank + 1)], _name='too many dimensions are rejected')
    if rank:
        rejects(AWU, ValueError, raw, [AnyDim(k) for k in range(rank - 1)], _name='too few dimensions are rejected')
    f = Int('f', 1)
    shared = TimeDimension(td(f, 'ps'))
    arr = ok(AWU, raw, [shared] * rank)
    prove(And(*[And(Eq(d.size, n), Eq(d.frequency.ps, f)) for d, n in zip(arr.dimensions, shape)]), 'each time axis records its own length')
    prove(shared.size is None, 'the dimension that was passed in is not changed')


class Bands(object):
    """any scale of n bands"""

    def __init__(self, n):
        self.n_bands = n

    def __len__(self):
        return self.n_bands


@contract('a frequency axis must match its scale', each=[1, 2, 3])
def frequency_axis(rank):
    for k in range(rank):
        shape = sizes(rank, name='n%d_' % k)
        raw = data(shape)
        n = Int('bands%d' % k, 0)
        dims = [FrequencyDimension(Bands(n)) if j == k else None for j in range(rank)]
        r = run(AWU, raw, dims)
        if isinstance(r, Raised):
            prove(isinstance(r.e, ValueError), 'rejected')
            prove(Not(Eq(n, shape[k])), 'only a mismatch is rejected')
        else:
            prove(Eq(n, shape[k]), 'only a match is accepted')


@contract('transposition', each=[1, 2, 3, 4])
def transposition(rank):
    shape, raw, arr = example(rank)
    t = ok(lambda: arr.T)
    same_data(t, raw.T)
    carries(t, reversed(range(rank)))
    for perm in itertools.permutations(range(rank)):
        t = ok(arr.transpose, perm)
        same_data(t, raw.transpose(perm), perm)
        carries(t, perm, perm)
        t = ok(arr.transpose, *[p - rank for p in perm])
        same_data(t, raw.transpose(perm), perm)
        carries(t, perm, perm)
    t = ok(arr.transpose)
    same_data(t, raw.T)
    carries(t, reversed(range(rank)))


@contract('squeezing', each=[0, 1, 2, 3, 4])
def squeezing(rank):
    shape, raw, arr = example(rank)
    s = ok(arr.squeeze)
    kept = [k for k in range(rank) if not fork(Eq(shape[k], 1))]
    same_data(s, np.squeeze(raw))
    carries(s, kept)


def with_ones(shape, where):
    """insert axes of one at the given places"""
    out, axes = [], []
    for k in range(len(shape) + 1):
        out += [1] * where.count(k)
        axes += ['identity'] * where.count(k)
        if k < len(shape):
            out.append(shape[k])
            axes.append(k)
    return tuple(out), axes


@contract('reshape adds singleton axes', each=[1, 2, 3])
def add_axes(rank):
    shape, raw, arr = example(rank)
    ps = [w for n in (1, 2) for w in itertools.combinations_with_replacement(range(rank + 1), n)]
    for where in ps:
        new, axes = with_ones(shape, where)
        for sh in (new, list(new)):
            r = ok(arr.reshape, sh)
            same_data(r, raw.reshape(new), where)
            good = [t == a or fork(Eq(n, 1)) for t, a, n in zip(tags(r), axes, new)]
            prove_detail(len(good) == len(tags(r)) and all(good), 'every axis has its own dimension', '%s: %s instead of %s' % (where, tags(r), axes))


@contract('reshape removes singleton axes', each=[(r, w) for r in (1, 2, 3) for n in (1, 2) for w in itertools.combinations_with_replacement(range(r + 1), n)])
def remove_axes(rank, *where):
    where = where[0] if isinstance(where[0], tuple) else where
    shape = sizes(rank, 2)
    if choose():
        z = Int('empty', 0)
        assume(And(z < rank))
        shape = tuple(ite(Eq(z, k), 0, n) for k, n in enumerate(shape))
    full, axes = with_ones(shape, where)
    raw = data(full)
    arr = ok(AWU, raw, [AnyDim(('one', j) if a == 'identity' else a) for j, a in enumerate(axes)])
    r = ok(arr.reshape, shape)
    same_data(r, raw.reshape(shape))
    carries(r, range(rank))
    # some come and others go
    for other in itertools.combinations(range(rank + 1), 1):
        new, naxes = with_ones(shape, other)
        r = ok(arr.reshape, new)
        same_data(r, raw.reshape(new))
        got = [t for t, n in zip(tags(r), naxes) if n != 'identity']
        prove_detail(got == list(range(rank)), 'every surviving axis has its own dimension', '%s: %s' % (new, got))
    r = ok(arr.reshape, full)
    same_data(r, raw)
    got = [t for t, n in zip(tags(r), axes) if n != 'identity']
    prove(got == list(range(rank)), 'a reshape to the same shape changes nothing')


@contract('any other reshape makes new axes')
def other_reshape():
    shape, raw, arr = example(2, 2)
    n, m = shape
    for new in ((n * m,), (-1,), (1, n * m), (m * n, 1)):
        r = ok(arr.reshape, new)
        same_data(r, raw.reshape(new))
        carries(r, ['identity'] * len(new))


def axis_choices(rank):
    out = [None]
    for k in range(1, rank + 1):
        for c in itertools.combinations(range(rank), k):
            out.append(c)
            out.append(tuple(a - rank if j % 2 == 0 else a for j, a in enumerate(c)))
    return out + list(range(rank)) + [k - rank for k in range(rank)]


@contract('reductions', each=[(r, op) for r in (1, 2, 3, 4) for op in ('sum', 'max')])
def reductions(rank, op):
    shape, raw, arr = example(rank, 1)
    for axis in axis_choices(rank):
        red = set(range(rank)) if axis is None else {a % rank for a in (axis if isinstance(axis, tuple) else (axis,))}
        for keep in (False, True):
            what = '%s keepdims=%s' % (axis, keep)
            r = ok(getattr(arr, op), axis=axis, keepdims=keep)
            ref = getattr(raw, op)(axis=axis, keepdims=keep)
            same_data(r, ref, what)
            if getattr(ref, 'shape', ()):
                carries(r, ['identity' if k in red else k for k in range(rank)] if keep else [k for k in range(rank) if k not in red], what)


@contract('concatenation of arrays of different types', each=[(r, k) for r in (1, 2) for k in ('int32', 'float32', 'bool')])
def mixed(rank, kind):
    for axis in range(rank):
        base = sizes(rank, name='n%d_' % axis)
        raws = []
        for j in range(2):
            shape = list(base)
            shape[axis] = Int('len%d_%d' % (axis, j), 0)
            raws.append(data(tuple(shape), 'a%d' % j, 'float64' if j else kind))
        for order in ((0, 1), (1, 0)):
            arrs = [ok(AWU, raws[j], [AnyDim(k) for k in range(rank)]) for j in order]
            for r in [ok(AWU.concat, arrs, axis=axis)] + ([ok(arrs[0].concatenate, arrs[1])] if axis == 0 else []):
                prove_detail(r.dtype.kind == 'f' and r.dtype.itemsize == 8, 'the type is one that holds the numbers of both', axis)
                same_data(r, np.concatenate([raws[j] for j in order], axis=axis), axis)
                carries(r, range(rank), axis)


@contract('concatenation', each=[(r, m) for r in (1, 2, 3) for m in (2, 3)])
def concatenation(rank, m):
    for axis in list(range(rank)) + [k - rank for k in range(rank)]:
        base = sizes(rank, name='n%d_' % (axis + rank))
        raws = []
        for j in range(m):
            shape = list(base)
            shape[axis] = Int('len%d_%d' % (axis + rank, j), 0)
            raws.append(data(tuple(shape), 'a%d' % j))
        arrs = [ok(AWU, r, [AnyDim(k) for k in range(rank)]) for r in raws]
        r = ok(AWU.concat, arrs, axis=axis)
        same_data(r, np.concatenate(raws, axis=axis), axis)
        carries(r, range(rank), axis)
        for k in range(rank):
            for j in range(m):
                wrong = list(arrs)
                wrong[j] = ok(AWU, raws[j], [AnyDim('other' if i == k else i) for i in range(rank)])
                rejects(AWU.concat, ValueError, wrong, axis=axis, _name='different dimensions are rejected')
        if axis == 0:
            r = ok(arrs[0].concatenate, arrs[1])
            same_data(r, np.concatenate(raws[:2]), 'concatenate')
            carries(r, range(rank), 'concatenate')
            for k in range(rank):
                rejects(arrs[0].concatenate, ValueError, ok(AWU, raws[1], [AnyDim('other' if i == k else i) for i in range(rank)]),
                        _name='different dimensions are rejected')


@contract('concatenation of time series')
def time_series():
    n, m, k = Int('n', 0), Int('m', 0), Int('k', 0)
    f, g, o, p = Int('f', 1), Int('g', 1), Int('o', 0), Int('p', 0)
    a = ok(AWU, data((n, k)), [TimeDimension(td(f, 'ps'), td(f + o, 'ps')), None])
    b = ok(AWU, data((m, k), 'b'), [TimeDimension(td(g, 'ps'), td(g + p, 'ps')), None])
    alike = And(Eq(f, g), Eq(o, p))
    for r in (run(a.concatenate, b), run(AWU.concat, [a, b])):
        if isinstance(r, Raised):
            prove(isinstance(r.e, ValueError), 'rejected')
            prove(Not(alike), 'only different rates are rejected')
        else:
            prove(alike, 'only equal rates are concatenated')
            d = r.dimensions[0]
            prove(And(Eq(d.size, n + m), Eq(d.frequency.ps, f), Eq(d.duration.ps, f + o)), 'the result records its own length and keeps the rate')
    c = ok(AWU, data((m, k), 'b'), [None, None])
    for x, y in ((a, c), (c, a)):
        rejects(x.concatenate, ValueError, y, _name='dimensions of different kinds are rejected')
        rejects(AWU.concat, ValueError, [x, y], _name='dimensions of different kinds are rejected')
