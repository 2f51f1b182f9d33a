"""C19: merging aligned streams pairs samples by position regardless of chunking.

Invariant over all schedules: E rows have been emitted, source s has delivered R_s >= E rows, the cache of s holds its rows
E .. R_s - 1, and some source has delivered exactly E (nothing that could be emitted is held back)."""
from engine.spec import *

basic = load('zounds.basic.basic')
core_ = load('zounds.core.axis')
ts_ = load('zounds.timeseries.timeseries')
ff = load('featureflow')
Identity = load('zounds.core.dimensions').IdentityDimension
AWU, TimeDimension = core_.ArrayWithUnits, ts_.TimeDimension
td = np.timedelta64


class Source(object):
    def __init__(self, name, total, f, mixed=False):
        self.node = ff.Node()
        self.width = Int('width_' + name, 1)
        self.data = np.symarray('x_' + name, (total, self.width))
        self.f, self.split = f, None
        if mixed:
            # whole numbers so far, and other numbers from here on
            self.early = np.symarray('whole_' + name, (total, self.width), 'int32')

    def rows(self, lo, hi, early=False):
        return AWU((self.early if early and self.split is not None else self.data)[lo:hi], [TimeDimension(td(self.f, 'ps')), Identity()])


    def at(self, i, j):
        if self.split is not None:
            return ite(i < self.split, self.early._get((i, j)), self.data._get((i, j)))
        return self.data._get((i, j))


def sources(n, mixed=None):
    f, total = Int('frequency', 1), Int('total', 0)
    return [Source('abc'[k], total, f, mixed == k) for k in range(n)], total


def merge(ss):
    return ok(basic.Merge, dict((str(k), s.node) for k, s in enumerate(ss)))


def lowest(xs):
    m = xs[0]
    for x in xs[1:]:
        m = ite(x < m, x, m)
    return m


def state(nd, ss, total, order):
    state_is(nd, '_cache')
    prove(set(nd._cache) == {id(s.node) for s in ss} and all(v is None for v in nd._cache.values()), 'initially nothing is cached')
    E = Int('emitted', 0)
    Rs = []
    for k, s in enumerate(ss):
        r = Int('received%d' % k, 0)
        assume(And(E <= r, r <= total))
        Rs.append(r)
    assume(Or(*[Eq(r, E) for r in Rs]))
    caches = {}
    for k, s in enumerate(ss):
        # a source that has sent nothing yet has no array
        if hasattr(s, 'early'):
            s.split = Rs[k]
        caches[id(s.node)] = s.rows(E, Rs[k], early=True) if fork(Rs[k] > 0) else None
    nd._cache = type(nd._cache)((k, caches[k]) for k in order or nd._cache)
    return E, Rs


def invariant(nd, ss, E, Rs):
    for k, s in enumerate(ss):
        c = nd._cache[id(s.node)]
        if c is None:
            prove(And(Eq(Rs[k], 0), Eq(E, 0)), 'invariant: no array only before the first chunk')
            continue
        prove(And(len(c.shape) == 2, Eq(c.shape[0], Rs[k] - E), Eq(c.shape[1], s.width)), 'invariant: the cache has the rows not emitted yet')
        i, j = Int('i', 0), Int('j', 0)
        assume(And(i < Rs[k] - E, j < s.width))
        prove(Eq(c._get((i, j)), s.at(E + i, j)), 'invariant: in order from the next row to emit')
    prove(Eq(lowest(Rs), E), 'invariant: every row that all sources have supplied has been emitted')


@spec('each chunk emits exactly the rows that are now complete', each=[(2, 0), (2, 1), (3, 0), (3, 2)], seconds=200)
def step(n, p):
    # the caches are kept in some order: the initial one, and any that steps lead to
    seen, order = [], None
    while order not in seen:
        seen.append(order)
        order = one_step(n, p, order)


@spec('chunks of whole numbers followed by others', each=[(2, 0), (2, 1)], seconds=200)
def types(n, p):
    one_step(n, p, None, mixed=p)


def one_step(n, p, order, mixed=None):
    ss, total = sources(n, mixed)
    nd = merge(ss)
    ids = [id(s.node) for s in ss]
    initial = [ids.index(k) for k in nd._cache]
    E, Rs = state(nd, ss, total, order and [ids[k] for k in order])
    k = Int('chunk', 0)
    assume(Rs[p] + k <= total)
    ok(nd._enqueue, ss[p].rows(Rs[p], Rs[p] + k), ss[p].node)
    Rs[p] = Rs[p] + k
    r = run(nd._dequeue)
    if isinstance(r, Raised):
        prove(r.is_(ff.NotEnoughData), 'waits only by signalling that data is missing')
        prove(Eq(lowest(Rs), E), 'waits only while some source has nothing for the next row')
        cover('waiting')
        out = E
    else:
        m = lowest(Rs) - E
        prove(m > 0, 'emits only when every source has supplied the next row')
        got = ok(lambda: list(nd._process(r)))
        prove(len(got) == 1, 'one chunk')
        a = got[0]
        w = sum([s.width for s in ss[1:]], ss[0].width)
        prove(And(len(a.shape) == 2, Eq(a.shape[0], m), Eq(a.shape[1], w)), 'as many rows as are complete, as wide as all sources together')
        prove(And(type(a.dimensions[0]) is TimeDimension, Eq(a.dimensions[0].frequency.ps, ss[0].f)), 'still a time series')
        i, j = Int('row', 0), Int('column', 0)
        assume(i < m)
        off = 0
        for k, s in enumerate(ss):
            c = fresh_int('c')
            assume(And(0 <= c, c < s.width))
            prove(Eq(a._get((i, off + c)), s.at(E + i, c)), 'row i holds row i of every source, in dependency order')
            off = off + s.width
        out = E + m
        cover('emitting')
    invariant(nd, ss, out, Rs)
    left = [ids.index(k) for k in nd._cache]
    return None if left == initial else left


@spec('fewer than two sources are rejected')
def few():
    rejects(basic.Merge, ValueError, {'a': ff.Node()})
