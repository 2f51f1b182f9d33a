"""C14: a growable array is a faithful append-only sequence.

Every state a growable array can reach is (array, logical size <= physical size, growth rate): the constructor makes any
of them, so one step from an arbitrary such state covers every history by induction."""
from engine.spec import *

stateful('Growable')

npx = load('zounds.nputil.npx')
Growable = npx.Growable
KINDS = [(0, 'float64'), (1, 'float64'), (2, 'int16'), (0, 'uint64')]


def growable(extra, dt):
    n, p = Int('n', 0), Int('p', 0)
    assume(p <= n)
    rate = Real('rate')
    assume(rate > 0)
    tail = tuple(Int('m%d' % k, 1) for k in range(extra))
    a = np.symarray('a', (n,) + tail, dt)
    g = ok(Growable, a, p, rate)
    return n, p, tail, a._snapshot(), g


def at(tail):
    e = []
    for m in tail:
        i = fresh_int('e')
        assume(And(0 <= i, i < m))
        e.append(i)
    return tuple(e)


@spec('initially', each=KINDS)
def initially(extra, dt):
    n, p, tail, a, g = growable(extra, dt)
    prove(And(Eq(g.logical_size, p), Eq(g.physical_size, n)), 'sizes are those given')
    x = g.logical_data
    prove(Eq(x.shape[0], p), 'the logical content has the logical size')
    j, e = Int('j', 0), at(tail)
    assume(j < p)
    prove(Eq(x._get((j,) + e), a((j,) + e)), 'and holds the first entries given')


def judge(g, n, p, tail, a, k, new):
    prove(Eq(g.logical_size, p + k), 'the logical size counts what was appended')
    prove(And(g.physical_size >= n, g.physical_size >= g.logical_size), 'the physical size never shrinks and is never below the logical size')
    prove(Eq(g.physical_size, g.data.shape[0]), 'the physical size is that of the wrapped array')
    x = g.logical_data
    prove(And(Eq(x.shape[0], p + k), *[Eq(s, t) for s, t in zip(x.shape[1:], tail)]), 'the logical content has the logical size')
    j, e = Int('j', 0), at(tail)
    assume(j < p + k)
    v = x._get((j,) + e)
    if fork(j < p):
        prove(Eq(v, a((j,) + e)), 'what was there before is unchanged')
        cover('old content')
    elif is_sym(k) or k:
        prove(Eq(v, new(j - p, e)), 'followed by what was appended, in order')
        cover('new content')


@spec('appending one item', each=KINDS, seconds=120)
def append(extra, dt):
    n, p, tail, a, g = growable(extra, dt)
    if extra:
        item_ = np.symarray('item', tail, dt)
        f = item_._snapshot()
        new = lambda j, e: f(e)
    else:
        item_ = Real('item') if dt == 'float64' else np.symarray('item', (1,), dt)._get((0,))
        new = lambda j, e: item_
    r = ok(g.append, item_)
    prove(r is g, 'returns the array itself')
    judge(g, n, p, tail, a, 1, new)


@spec('appending many items', each=KINDS, seconds=120)
def extend(extra, dt):
    n, p, tail, a, g = growable(extra, dt)
    k = Int('k', 0)
    items = np.symarray('items', (k,) + tail, dt)
    f = items._snapshot()
    r = ok(g.extend, items)
    prove(r is g, 'returns the array itself')
    judge(g, n, p, tail, a, k, lambda j, e: f((j,) + e))


@spec('appending a list of items', each=[0, 1, 3])
def extend_list(k):
    n, p, tail, a, g = growable(0, 'float64')
    xs = [Real('x%d' % i) for i in range(k)]
    ok(g.extend, xs)
    judge(g, n, p, tail, a, k, lambda j, e: item(xs, j) if xs else 0)


@spec('items of another shape are refused', each=[(how, dt) for how in ('append', 'extend') for dt in ('float64', 'int16')], seconds=120)
def refused(how, dt):
    n, p, tail, a, g = growable(1, dt)
    q, k = Int('width', 2), Int('k', 1)
    assume(Not(Eq(q, tail[0])))
    bad = np.symarray('bad', (q,) if how == 'append' else (k, q), dt)
    rejects(getattr(g, how), ValueError, bad)
    judge(g, n, p, tail, a, 0, lambda j, e: 0)


@spec('non-positive growth rates are rejected')
def rate():
    n, r = Int('n', 0), Real('rate')
    assume(r <= 0)
    rejects(Growable, ValueError, np.symarray('a', (n,)), 0, r)


@spec('defaults')
def defaults():
    n = Int('n', 0)
    a = np.symarray('a', (n,))
    g = ok(Growable, a)
    prove(Eq(g.logical_size, 0), 'an empty logical content by default')
    ok(g.append, 1.0)
    prove(And(Eq(g.logical_size, 1), g.physical_size >= 1), 'that can be appended to')
