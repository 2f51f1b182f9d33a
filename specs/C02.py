"""C02: indexing keeps each axis and its dimension together"""
import itertools
import z3
from engine.spec import *
from engine import core, bi

axis_ = load('zounds.core.axis')
dims_ = load('zounds.core.dimensions')
ts = load('zounds.timeseries')
fs = load('zounds.spectral.frequencyscale')
tf = load('zounds.spectral.tfrepresentation')
AWU, Custom = axis_.ArrayWithUnits, axis_.CustomSlice
Dimension, Identity = dims_.Dimension, dims_.IdentityDimension
assumption('a dimension translates its own custom slices into integer slices, and returns integer slices unchanged')
assumption('index lists are lists of integers within the bounds of their axis; several lists have the same length')


class Span(Custom):
    """a custom slice: each dimension translates it in its own way"""

    def __init__(self, name):
        self.at = {}
        self.name = name

    def on(self, tag):
        if tag not in self.at:
            self.at[tag] = slice(Int('%s_start_%s' % (self.name, tag)), Int('%s_stop_%s' % (self.name, tag)))
        return self.at[tag]


class AnyDim(Dimension):
    """an arbitrary dimension: what it promises is all that indexing may rely on"""

    def __init__(self, tag):
        self.tag = tag

    def copy(self):
        return AnyDim(self.tag)

    def metaslice(self, index, size):
        return AnyDim(self.tag)

    def integer_based_slice(self, index):
        return index.on(self.tag) if isinstance(index, Span) else index


def sizes(rank):
    return tuple(Int('n%d' % k, 0) for k in range(rank))


def data(shape, name='a'):
    f = z3.Function(core.ctx().fresh(name), *([z3.IntSort()] * len(shape) + [z3.RealSort()]))
    return mnumpy.lazy(shape, mnumpy.dtype('float64'), lambda ix: SReal(f(*[zint(i) for i in ix])))


# one component of an index: i integer, s slice between integers, t slice with a missing bound, r slice with a step,
# l list of positions, c custom slice, N new axis, E ellipsis
def component(kind, pos, size, m):
    nm = 'x%d' % pos
    if kind == 'i':
        v = Int(nm)
        assume(And(-size <= v, v < size))
        return v
    if kind == 's':
        return slice(Int(nm + '_start'), Int(nm + '_stop'))
    if kind == 't':
        return slice(Int(nm + '_start'), None) if pos % 2 else slice(None, Int(nm + '_stop'))
    if kind == 'a':
        return slice(None)
    if kind == 'r':
        return slice(None, None, -1 if pos % 2 else 2)
    if kind == 'l':
        f = z3.Function(core.ctx().fresh(nm), z3.IntSort(), z3.IntSort())
        if not is_sym(m):
            out = [SInt(f(z3.IntVal(k))) for k in range(m)]
            for v in out:
                assume(And(-size <= v, v < size))
            return out
        forall_assume(m, lambda k: And(-size <= SInt(f(zint(k))), SInt(f(zint(k))) < size))
        return bi.SSeq(m, lambda k: SInt(f(zint(k))), 'list')
    if kind == 'c':
        return Span(nm)
    return {'N': None, 'E': Ellipsis}[kind]


def axes_of(pattern, rank):
    """the axis each component addresses, and the axis of origin of every axis of the result: as numpy documents it"""
    used = sum(1 for k in pattern if k not in 'NE')
    fill = rank - used
    ax, at, plan = 0, [], []          # plan: per entry None (new), axis number, or 'L' (joined into the list axis)
    for k in pattern:
        at.append(ax)
        if k == 'N':
            plan.append(('one', None))
        elif k == 'E':
            plan.append(('gap', None))
            plan += [('keep', ax + j) for j in range(fill)]
            ax += fill
        else:
            plan.append(('list' if k == 'l' else 'int' if k == 'i' else 'keep', ax))
            ax += 1
    if 'E' not in pattern:
        plan += [('keep', ax + j) for j in range(fill)]
    out = []
    joint = [j for j, (w, _) in enumerate(plan) if w in ('list', 'int')] if 'l' in pattern else []
    adjacent = joint and joint[-1] - joint[0] == len(joint) - 1
    if joint and not adjacent:
        out.append('list')
    for j, (w, a) in enumerate(plan):
        if w == 'one':
            out.append('new')
        elif w == 'keep':
            out.append(a)
        elif joint and adjacent and j == joint[0]:
            out.append('list')
    return at, out


def translated(x, tag):
    return x.on(tag) if isinstance(x, Span) else x


def show(pattern):
    return ' '.join(pattern)


def one(pattern, rank, m, check):
    shape = sizes(rank)
    raw = data(shape)
    arr = ok(AWU, raw, [AnyDim(k) for k in range(rank)])
    at, want = axes_of(pattern, rank)
    index = tuple(component(k, j, shape[at[j]] if k not in 'NE' else None, m) for j, k in enumerate(pattern))
    plain = tuple(translated(x, at[j]) for j, x in enumerate(index))
    if len(index) == 1:
        index = index[0]
    check(pattern, raw, arr, index, plain, want)


def reading(pattern, raw, arr, index, plain, want):
    got = run(lambda: arr[index])
    prove_detail(not isinstance(got, Raised), 'the index is accepted', '%s: %r' % (show(pattern), getattr(got, 'e', None)))
    if isinstance(got, Raised):
        return
    ref = raw[plain]
    nd = len(want)
    shape = ref.shape if nd else ()
    gs = got.shape if hasattr(got, 'shape') else ()
    prove_detail(len(gs) == nd and And(*[Eq(x, y) for x, y in zip(gs, shape)]), 'the shape is that of plain numpy indexing', show(pattern))
    if len(gs) != nd:
        return
    pos = tuple(Int('p%d' % k, 0) for k in range(nd))
    assume(And(*[p < n for p, n in zip(pos, shape)]))
    if nd:
        prove_detail(Eq(got._get(pos), ref._get(pos)), 'the elements are those of plain numpy indexing', show(pattern))
        tags = [getattr(d, 'tag', 'identity' if isinstance(d, Identity) else None) for d in got.dimensions]
        prove_detail(tags == ['identity' if w in ('new', 'list') else w for w in want],
                     'every axis carries the dimension it came from', '%s: %s instead of %s' % (show(pattern), tags, want))
    else:
        prove_detail(Eq(got._get(()) if hasattr(got, '_get') else got, ref if not hasattr(ref, '_get') else ref._get(())),
                     'the elements are those of plain numpy indexing', show(pattern))


def writing(pattern, raw, arr, index, plain, want):
    copy = raw.copy()
    ref_shape = copy[plain].shape if want else ()
    value = data(ref_shape, 'v') if want and len(pattern) % 2 else Real('value')
    got = run(lambda: arr.__setitem__(index, value))
    prove_detail(not isinstance(got, Raised), 'the assignment is accepted', '%s: %r' % (show(pattern), getattr(got, 'e', None)))
    if isinstance(got, Raised):
        return
    copy[plain] = value
    pos = tuple(Int('p%d' % k, 0) for k in range(raw.ndim))
    assume(And(*[p < n for p, n in zip(pos, raw.shape)]))
    prove_detail(Eq(arr._get(pos), copy._get(pos)), 'exactly the selected elements change', show(pattern))
    prove([d.tag for d in arr.dimensions] == list(range(raw.ndim)), 'the dimensions of the array stay')


def patterns(rank, kinds, new=1, ellipsis=True):
    out = []
    for r in range(rank + 1):
        for base in itertools.product(kinds, repeat=r):
            for e in ([None] + list(range(r + 1)) if ellipsis else [None]):
                p = list(base)
                if e is not None:
                    p.insert(e, 'E')
                out.append(tuple(p))
                for n in range(1, new + 1):
                    for where in itertools.combinations_with_replacement(range(len(p) + 1), n):
                        q = list(p)
                        for w in reversed(where):
                            q.insert(w, 'N')
                        out.append(tuple(q))
    return [p for p in dict.fromkeys(out) if p]


def sweep_of(ps):
    """each pattern on its own paths"""
    lo, hi = 0, len(ps)
    while hi - lo > 1:
        mid = (lo + hi) // 2
        if choose():
            hi = mid
        else:
            lo = mid
    return ps[lo]


def sweep(ps, rank, check, m=None):
    one(sweep_of(ps), rank, Int('m', 0) if m is None else m, check)


def part(ps, k, n):
    return [p for j, p in enumerate(ps) if j % n == k]


@spec('reading, one axis', seconds=100, paths=20000)
def reading1():
    sweep(patterns(1, 'istarlc', new=2), 1, reading)


@spec('reading, two axes', seconds=100, paths=20000, each=[(k,) for k in range(4)])
def reading2(k):
    sweep(part(patterns(2, 'istarlc', new=1), k, 4), 2, reading)


@spec('reading, three axes', seconds=100, paths=20000, each=[(k,) for k in range(8)])
def reading3(k):
    ps = patterns(3, 'islc', new=1)
    sweep(part(ps, k, 8), 3, reading, 2)


@spec('reading, four axes', seconds=100, paths=20000, each=[(k,) for k in range(4)])
def reading4(k):
    ps = [p for p in patterns(4, 'ilc', new=0) if len(p) >= 3]
    sweep(part(ps, k, 4), 4, reading, 2)


@spec('writing, one axis', seconds=100, paths=20000)
def writing1():
    sweep(patterns(1, 'istarlc', new=1), 1, writing)


@spec('writing, two axes', seconds=100, paths=20000, each=[(k,) for k in range(4)])
def writing2(k):
    sweep(part(patterns(2, 'istlc', new=1), k, 4), 2, writing, 2)


@spec('writing, three axes', seconds=100, paths=20000, each=[(k,) for k in range(4)])
def writing3(k):
    sweep(part(patterns(3, 'ilc', new=0), k, 4), 3, writing, 2)


class Bands(object):
    """any frequency scale, by contract (C07): a selection from it is a scale of exactly the selected bands"""

    def __init__(self, tag, n, first=0, step=1):
        self.tag, self.n, self.first, self.step = tag, n, first, step

    def __len__(self):
        return self.n

    @property
    def n_bands(self):
        return self.n

    def get_slice(self, index):
        return index.on(self.tag) if isinstance(index, Span) else index

    def __getitem__(self, index):
        start, stop, step, length = bi.slice_indices(self.get_slice(index), self.n)
        return Bands(self.tag, length, self.first + start * self.step, self.step * step)


assumption('a selection from a frequency scale is a scale of the selected bands (discharged by C07)')
TimeDimension, FrequencyDimension = ts.TimeDimension, tf.FrequencyDimension
KINDS = ['TF', 'FT', 'IF', 'TI', 'TIF', 'FTI', 'TTF']


def real(kind, rank):
    shape = sizes(rank)
    raw = data(shape)
    td = np.timedelta64
    dims, tags = [], {}
    for k, d in enumerate(kind):
        if d == 'T':
            f, over = Int('f%d' % k, 1), Int('o%d' % k, 0)
            dims.append(TimeDimension(td(f, 'ps'), td(f + over, 'ps')))
        elif d == 'F':
            dims.append(FrequencyDimension(Bands(k, shape[k])))
        else:
            dims.append(None if k % 2 else Identity())
    return shape, raw, dims


def same_origin(d, o, k, x, shape, j):
    """dimension d of the result comes from dimension o of axis k, selected by x"""
    if type(d) is not (Identity if o is None else type(o)):
        return False
    if isinstance(d, TimeDimension):
        return And(Eq(d.frequency.ps, o.frequency.ps), Eq(d.duration.ps, o.duration.ps), Eq(d.size, shape[j]))
    if isinstance(d, FrequencyDimension):
        start, stop, step, length = bi.slice_indices(x, o.scale.n)
        return d.scale.tag == k and And(Eq(d.scale.n, length), Eq(d.scale.first, start), Eq(d.scale.step, step))
    return True


def mixed(kind, pattern, m):
    rank = len(kind)
    shape, raw, dims = real(kind, rank)
    arr = ok(AWU, raw, dims)
    at, want = axes_of(pattern, rank)
    index = tuple(component(k if kind[at[j]:at[j] + 1] != 'I' or k != 'c' else 's', j, shape[at[j]] if k not in 'NE' else None, m)
                  for j, k in enumerate(pattern))
    plain = tuple(translated(x, at[j]) for j, x in enumerate(index))
    spans = {j: at[j] for j, x in enumerate(index) if isinstance(x, Span)}
    by_contract(TimeDimension, 'integer_based_slice',
                lambda self, x: x.on(at[[j for j in spans if index[j] is x][0]]) if isinstance(x, Span) else Ellipsis, 'C01')
    got = run(lambda: arr[index])
    what = '%s on %s' % (show(pattern), kind)
    prove_detail(not isinstance(got, Raised), 'the index is accepted', '%s: %r' % (what, getattr(got, 'e', None)))
    if isinstance(got, Raised):
        return
    ref = raw[plain]
    if not want:
        prove_detail(Eq(got._get(()) if hasattr(got, '_get') else got, ref._get(()) if hasattr(ref, '_get') else ref), 'the element', what)
        return
    prove_detail(len(got.shape) == len(want) and And(*[Eq(x, y) for x, y in zip(got.shape, ref.shape)]), 'the shape', what)
    if len(got.shape) != len(want):
        return
    pos = tuple(Int('p%d' % k, 0) for k in range(len(want)))
    assume(And(*[p < n for p, n in zip(pos, got.shape)]))
    prove_detail(Eq(got._get(pos), ref._get(pos)), 'the elements', what)
    sel = {at[j]: x for j, x in enumerate(plain) if isinstance(x, slice)}
    good = [type(d) is Identity if w in ('new', 'list') else same_origin(d, dims[w], w, sel.get(w, slice(None)), got.shape, j)
            for j, (w, d) in enumerate(zip(want, got.dimensions))]
    prove_detail(len(good) == len(got.dimensions) and And(*good), 'every axis carries the dimension it came from, of its own length', what)


@spec('time, frequency and identity axes', seconds=100, paths=20000, each=[(k, j) for k in ['TF', 'FT', 'TI'] for j in range(2)])
def real_dimensions(kind, j):
    mixed(kind, sweep_of(part(patterns(2, 'islc', new=1) + patterns(2, 'irc', new=0), j, 2)), 2)


@spec('time, frequency and identity axes', seconds=100, paths=20000, each=['TIF', 'FTI', 'TTF'])
def three_real_dimensions(kind):
    mixed(kind, sweep_of(patterns(3, 'iac', new=0)), 2)
