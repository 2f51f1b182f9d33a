"""C06: N-dimensional sliding windows are exact, in-bounds views of the input.

Window position p_k and offset o_k on axis k address input element p_k*s_k+o_k; positions and offsets are arbitrary."""
from engine.spec import *

npx = load('zounds.nputil.npx')
core_ = load('zounds.core.axis')
ts_ = load('zounds.timeseries.timeseries')
AWU, TimeDimension, TimeSlice = core_.ArrayWithUnits, ts_.TimeDimension, ts_.TimeSlice
Identity = load('zounds.core.dimensions').IdentityDimension
td = np.timedelta64
assumption('arrays of one to four axes; the axes are symbolic in length')


def problem(rank, contig=True):
    shape = tuple(Int('n%d' % k, 1) for k in range(rank))
    ws = tuple(Int('w%d' % k, 1) for k in range(rank))
    ss = tuple(Int('s%d' % k, 1) for k in range(rank))
    for w, n in zip(ws, shape):
        assume(w <= n)
    return np.symarray('x', shape, contig=contig), shape, ws, ss


def positions(shape, ws, ss):
    """how many positions there are on each axis"""
    return [(n - w) // s + 1 for n, w, s in zip(shape, ws, ss)]


def at(Ns, ws):
    p, o = [], []
    for N, w in zip(Ns, ws):
        x, y = Int('p', 0), Int('o', 0)
        assume(And(x < N, y < w))
        p.append(x)
        o.append(y)
    return tuple(p), tuple(o)


def source(p, o, ss):
    return tuple(x * s + y for x, y, s in zip(p, o, ss))


def arg(x, rank, form):
    return x[0] if rank == 1 and form == 'int' else list(x) if form == 'list' else x


@spec('sliding windows, one axis per position', each=[(1, 'int', True), (1, 'tuple', False), (2, 'tuple', True), (2, 'list', False), (3, 'tuple', True),
                                                      (4, 'tuple', False)], seconds=200)
def view(rank, form, contig):
    a, shape, ws, ss = problem(rank, contig)
    r = ok(npx.sliding_window, a, arg(ws, rank, form), arg(ss, rank, form), False)
    Ns = positions(shape, ws, ss)
    prove(len(r.shape) == 2 * rank, 'one axis per position and one per offset')
    prove(And(*[Eq(x, y) for x, y in zip(r.shape[:rank], Ns)]), 'floor((n-w)/s)+1 positions per axis')
    prove(And(*[Eq(x, y) for x, y in zip(r.shape[rank:], ws)]), 'windows of the asked size')
    p, o = at(Ns, ws)
    src = source(p, o, ss)
    prove(And(*[And(x >= 0, x < n) for x, n in zip(src, shape)]), 'the element read is inside the input')
    prove(Eq(r._get(p + o), a._get(src)), 'window p at offset o is element p*s+o')
    prove(r.dtype == a.dtype, 'element type kept')


@spec('sliding windows, flattened in row-major order', each=[(1, 'int'), (1, 'tuple'), (2, 'tuple'), (3, 'tuple'), (4, 'tuple')], seconds=200)
def flat(rank, form):
    a, shape, ws, ss = problem(rank)
    r = ok(npx.sliding_window, a, arg(ws, rank, form), arg(ss, rank, form))
    Ns = positions(shape, ws, ss)
    total = Ns[0]
    for N in Ns[1:]:
        total = total * N
    prove(len(r.shape) == rank + 1, 'one axis of windows and one per offset')
    prove(Eq(r.shape[0], total), 'as many windows as positions')
    prove(And(*[Eq(x, y) for x, y in zip(r.shape[1:], ws)]), 'windows of the asked size')
    p, o = at(Ns, ws)
    row = p[0]
    for x, N in zip(p[1:], Ns[1:]):
        row = row * N + x
    prove(Eq(r._get((row,) + o), a._get(source(p, o, ss))), 'windows are listed in row-major order of position')


@spec('the step defaults to the window size', each=[1, 2])
def default(rank):
    a, shape, ws, ss = problem(rank)
    r = ok(npx.sliding_window, a, arg(ws, rank, 'int'), flatten=False)
    Ns = positions(shape, ws, ws)
    p, o = at(Ns, ws)
    prove(And(*[Eq(x, y) for x, y in zip(r.shape[:rank], Ns)]), 'adjacent windows')
    prove(Eq(r._get(p + o), a._get(source(p, o, ws))), 'adjacent windows')


@spec('a window larger than the array, or of another rank, is rejected', each=[1, 2, 3])
def rejected(rank):
    a, shape, ws, ss = problem(rank)
    for k in range(rank):
        big = Int('big', 1)
        assume(big > shape[k])
        for flatten in (False, True):
            rejects(npx.sliding_window, ValueError, a, ws[:k] + (big,) + ws[k + 1:], ss, flatten, _name='larger than the array')
    one = Int('one', 1)
    rejects(npx.sliding_window, ValueError, a, ws + (one,), ss + (one,), _name='too many axes')
    rejects(npx.sliding_window, ValueError, a, ws, ss + (one,), _name='steps for too many axes')
    if rank > 1:
        rejects(npx.sliding_window, ValueError, a, ws[1:], ss[1:], _name='too few axes')
        rejects(npx.sliding_window, ValueError, a, ws[0], ss[0], _name='too few axes')


WHOLE = 'TimeDimension: a slice of q whole samples from the start is translated to the indices [0, q)'


@spec(WHOLE, each=['ps', 's'])
def whole(u):
    f, q, n, d = Int('f', 1), Int('q', 1), Int('n', 0), Int('d', 1)
    assume(d >= f)
    dim = TimeDimension(td(f, u), td(d, u), n)
    r = ok(dim.integer_based_slice, TimeSlice(duration=td(f * q, u)))
    prove(Eq(r.stop, q), 'stops at q')
    prove(And(Eq(r.start, 0), r.step is None), 'starts at 0')


def whole_samples(pairs):
    """use the contract above for slices of q*f on an axis of frequency f"""
    def contract(self, sl):
        if isinstance(sl, TimeSlice) and same(sl.start.ps, 0):
            for f, q in pairs:
                if same(self.frequency.ps, f) and (same(sl.duration.ps, q * f) or same(sl.duration.ps, f * q)):
                    return slice(0, q)
        return Ellipsis
    by_contract(TimeDimension, 'integer_based_slice', contract, WHOLE)


def same_dims(a, b):
    def key(d):
        return (d.frequency.ps, d.duration.ps) if isinstance(d, TimeDimension) else ()
    return And(*[And(type(x) is type(y), len(key(x)) == len(key(y)), *[Eq(p, q) for p, q in zip(key(x), key(y))]) for x, y in zip(a, b)])


@spec('windows given as time spans mean the same as their sample counts',
      each=[('t',), ('t', 'i'), ('i', 't'), ('t', 't'), ('t', 'step')], seconds=200)
def spans(*kinds):
    step = 'step' not in kinds
    kinds = [k for k in kinds if k != 'step']
    rank = len(kinds)
    a, shape, ws, ss = problem(rank)
    if not step:
        ss = ws
    dims, spans_, hops, pairs = [], [], [], []
    for k, w, s in zip(kinds, ws, ss):
        if k == 't':
            f, d = Int('f', 1), Int('d', 1)
            assume(d >= f)
            dims.append(TimeDimension(td(f, 'ps'), td(d, 'ps')))
            spans_.append(TimeSlice(duration=td(w * f, 'ps')))
            hops.append(TimeSlice(duration=td(s * f, 'ps')))
            pairs += [(f, w), (f, s)]
        else:
            dims.append(Identity())
            spans_.append(w)
            hops.append(s)
    whole_samples(pairs)
    arr = AWU(a, dims)
    want = ok(npx.sliding_window, a, ws, ss)
    r = ok(arr.sliding_window, tuple(spans_), *([tuple(hops)] if step else []))
    by = ok(arr.sliding_window, ws, *([ss] if step else []))
    prove(isinstance(r, AWU) and isinstance(by, AWU), 'an array with units')
    prove(len(r.shape) == len(want.shape) == len(by.shape), 'shape')
    prove(And(*[And(Eq(x, y), Eq(x, z)) for x, y, z in zip(r.shape, want.shape, by.shape)]), 'shape')
    prove(len(r.dimensions) == len(by.dimensions) == len(r.shape), 'one dimension per axis')
    prove(same_dims(r.dimensions, by.dimensions), 'same dimensions')
    i = tuple(Int('i', 0) for _ in want.shape)
    assume(And(*[x < n for x, n in zip(i, want.shape)]))
    prove(And(Eq(r._get(i), want._get(i)), Eq(by._get(i), want._get(i))), 'same elements')
