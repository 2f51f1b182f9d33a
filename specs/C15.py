"""C15: reservoirs hold only samples they were given, aligned across keys.

Invariant of a reservoir: the occupied slots are among the slots, and before the first addition none is. What a slot holds
(and which slots are occupied) is arbitrary before an addition; the addition is then followed slot by slot."""
import z3
from engine.spec import *

stateful('Reservoir', 'MultiplexedReservoir')
from engine import core, bi

rs = load('zounds.learn.random_samples')
axis_ = load('zounds.core.axis')
ts_ = load('zounds.timeseries.timeseries')
NotEnoughData = load('featureflow').NotEnoughData
Identity = load('zounds.core.dimensions').IdentityDimension
AWU = axis_.ArrayWithUnits
td = np.timedelta64
bi.SSet.always = True
assumption('slots given explicitly are slot numbers (0 or more, less than the size)')
assumption('all chunks have the same shape of rows; under a multiplexed reservoir, the same number of rows for every key')


class Rows(object):
    """rows of width features (or plain numbers), any content"""

    def __init__(self, name, units=False, rank=2):
        self.name, self.units, self.rank = name, units, rank
        self.width = Int('width_' + name, 1)
        self.f = z3.Function(core.ctx().fresh('content_' + name), z3.IntSort(), z3.IntSort(), z3.RealSort())

    def value(self, i, f):
        return SReal(self.f(zint(i), zint(f)))

    def chunk(self, n, start=0):
        shape = (n, self.width)[:self.rank]
        a = mnumpy.lazy(shape, mnumpy.dtype('float64'), lambda ix: self.value(start + ix[0], ix[1] if self.rank > 1 else 0))
        return AWU(a, [ts_.TimeDimension(td(Int('frequency', 1), 'ps')), Identity()][:self.rank]) if self.units else a

    def feature(self):
        if self.rank == 1:
            return 0
        f = Int('feature_' + self.name, 0)
        assume(f < self.width)
        return f

    def at(self, a, i, f):
        return a._get((i, f)[:self.rank])


class Held(object):
    """a reservoir after any history of additions: some occupied slots, each with some row"""

    def __init__(self, n, rows, occupied, r=None):
        self.n, self.rows = n, rows
        self.r = ok(rs.Reservoir, n) if r is None else r
        state_is(self.r, 'nsamples', 'arr', 'indices')
        self.old = Rows('held', rows.units, rows.rank)
        self.old.width = rows.width
        if occupied is None:
            self.occupied = lambda k: False
        else:
            self.occupied = lambda k: And(k >= 0, k < n, SBool(occupied(zint(k))))
            self.r.arr = self.old.chunk(n)
            if rows.units:
                self.r.arr = AWU(self.old.chunk(n), [Identity(), Identity()][:rows.rank])
            self.r.indices = bi.SSet(0, n, self.occupied)

    def has(self, k):
        s = self.r.indices
        if not isinstance(s, bi.SSet):
            raise Unsupported('the representation of the occupied slots')
        return And(k >= s.lo, k < s.hi, s.has(k))

    def judge_add(self, samples, m, chosen, first, rows=None):
        """every slot holds the last row written to it, or what it held"""
        rows = rows or self.rows
        prove(Eq(chosen.shape[0], m), 'one slot for every row')
        arr = self.r.arr
        prove(len(arr.shape) == rows.rank and Eq(arr.shape[0], self.n), 'as many slots as asked for')
        s, f, j = Int('slot', 0), rows.feature(), Int('written', 0)
        assume(And(s < self.n, j < m))
        last = choose('written to')
        if last:
            c = lambda k: chosen._get((k,))
            assume(Eq(c(j), s))
            forall_assume(m, lambda k: Implies(k > j, Not(Eq(c(k), s))))
            prove(self.has(s), 'a slot that is written is occupied')
            prove(Eq(rows.at(arr, s, f), rows.value(j, f)), 'and holds the last row written to it')
        else:
            forall_assume(m, lambda k: Not(Eq(chosen._get((k,)), s)))
            prove(Iff(self.has(s), self.occupied(s)), 'no other slot becomes occupied')
            if not first:
                prove(Implies(self.occupied(s), Eq(rows.at(arr, s, f), rows.at(self.old.chunk(self.n), s, f))), 'other slots keep their rows')


def unfinished(cls, *a, **k):
    """a node whose inputs have not all ended yet"""
    class Node(cls):
        done = False

        @property
        def _finalized(self):
            return self.done
    return ok(Node, *a, **k)


def occupied_():
    return z3.Function(core.ctx().fresh('occupied'), z3.IntSort(), z3.BoolSort())


KINDS = [('plain', 2), ('plain', 1), ('units', 2)]


@spec('adding to a reservoir', each=[(k, r, h, how) for k, r in KINDS for h in ('first', 'later') for how in ('random', 'given')], seconds=100)
def add(kind, rank, history, how):
    n, m = Int('slots', 1), Int('rows', 0)
    rows = Rows('new', kind == 'units', rank)
    h = Held(n, rows, None if history == 'first' else occupied_())
    if how == 'given':
        if history == 'first':
            h.r.indices = bi.SSet(0, n, lambda k: False)
        f = z3.Function(core.ctx().fresh('given'), z3.IntSort(), z3.IntSort())
        chosen = mnumpy.lazy((m,), mnumpy.dtype('int64'), lambda ix: SInt(f(zint(ix[0]))))
        forall_assume(m, lambda k: And(chosen._get((k,)) >= 0, chosen._get((k,)) < n))
        ok(h.r.add, rows.chunk(m), indices=chosen)
    else:
        ok(h.r.add, rows.chunk(m))
        if len(core.ctx().draws) != 1:
            raise Unsupported('how slots are drawn')
        chosen = core.ctx().draws[0][2]
    h.judge_add(None, m, chosen, history == 'first')


@spec('mismatched slots are rejected')
def mismatch():
    n, m, q = Int('slots', 1), Int('rows', 0), Int('given', 0)
    assume(Not(Eq(m, q)))
    rows = Rows('new')
    h = Held(n, rows, occupied_())
    rejects(h.r.add, ValueError, rows.chunk(m), indices=mnumpy.symarray('given', (q,), 'int64'))


@spec('rows of another shape are refused', each=['plain', 'units'])
def other_shape(kind):
    n, m, q = Int('slots', 1), Int('rows', 1), Int('width', 2)
    rows = Rows('new', kind == 'units', 2)
    h = Held(n, rows, occupied_())
    bad = mnumpy.symarray('bad', (m, q))
    assume(Not(Eq(q, rows.chunk(m).shape[1])))
    f = z3.Function(core.ctx().fresh('given'), z3.IntSort(), z3.IntSort())
    chosen = mnumpy.lazy((m,), mnumpy.dtype('int64'), lambda ix: SInt(f(zint(ix[0]))))
    forall_assume(m, lambda k: And(chosen._get((k,)) >= 0, chosen._get((k,)) < n))
    rejects(h.r.add, ValueError, bad, indices=chosen)
    s = Int('slot', 0)
    assume(s < n)
    prove(Iff(h.has(s), h.occupied(s)), 'no slot becomes occupied')
    g = rows.feature()
    prove(Implies(h.occupied(s), Eq(rows.at(h.r.arr, s, g), rows.at(h.old.chunk(n), s, g))), 'the rows stay')


@spec('the rows of a reservoir', each=KINDS, seconds=100)
def get(kind, rank):
    n = Int('slots', 1)
    rows = Rows('new', kind == 'units', rank)
    h = Held(n, rows, occupied_())
    out = ok(h.r.get)
    count = out.shape[0]
    prove(len(out.shape) == rank and count <= n, 'at most as many rows as slots')
    f, i, j, s = rows.feature(), Int('i', 0), Int('j', 0), Int('slot', 0)
    assume(And(i < count, j < count, s < n))
    holds = lambda k, t: And(h.has(t), Eq(rows.at(out, k, f), rows.at(h.old.chunk(n), t, f)))
    at = witness(positions(i, depth=1), lambda t: And(t >= 0, t < n, holds(i, t)), 'every row is that of an occupied slot')
    bt = witness(positions(j, depth=1), lambda t: And(t >= 0, t < n, holds(j, t)), 'every row is that of an occupied slot')
    prove(Implies(Not(Eq(i, j)), Not(Eq(at, bt))), 'no slot twice')
    assume(h.has(s))
    witness(positions(s, back=True, depth=1), lambda t: And(t >= 0, t < count, Eq(rows.at(out, t, f), rows.at(h.old.chunk(n), s, f))), 'every occupied slot is there')
    prove(Eq(ok(len_of, h.r), count), 'its length is the number of occupied slots')


def len_of(x):
    return x.__len__()


def witness(candidates, holds, name):
    """one of the candidates satisfies the condition"""
    conds = []
    for t in reversed(list(candidates)):
        c = holds(t)
        if c is True or is_sym(c) and mnumpy.entails(zbool(c)):
            prove(c, name)
            return t
        conds.append(c)
    prove(Or(*conds), name)
    return t


@spec('batches', each=KINDS, seconds=100)
def batch(kind, rank):
    n, b = Int('slots', 1), Int('batch', 1)
    rows = Rows('new', kind == 'units', rank)
    h = Held(n, rows, occupied_())
    have = len_(bi.as_sseq(h.r.indices))
    if fork(b > have):
        rejects(h.r.get_batch, ValueError, b)
        return
    out = ok(h.r.get_batch, b)
    prove(len(out.shape) == rank and Eq(out.shape[0], b), 'as many rows as asked for')
    f, i = rows.feature(), Int('i', 0)
    assume(i < b)
    got = z3.simplify(zreal(rows.at(out, i, f)))
    at = [SInt(t.arg(0)) for t in apps_of(h.old.f, got)]
    witness(at, lambda t: And(h.has(t), Eq(rows.at(out, i, f), rows.at(h.old.chunk(n), t, f))), 'every row is that of an occupied slot')


def apps_of(f, z, out=None):
    out = [] if out is None else out
    if z3.is_app(z):
        if z.decl().eq(f) and not any(z.eq(o) for o in out):
            out.append(z)
        for k in range(z.num_args()):
            apps_of(f, z.arg(k), out)
    return out


@spec('a multiplexed reservoir', each=[(k, c) for k in ('first', 'later') for c in (1, 2, 3)], seconds=100)
def multiplexed(history, keys):
    n, m = Int('slots', 1), Int('rows', 0)
    mr = ok(rs.MultiplexedReservoir, n)
    state_is(mr, 'reservoir', 'nsamples')
    names = 'abc'[:keys]
    content = dict((k, Rows(k)) for k in names)
    occ, held = occupied_(), {}
    if history == 'later':
        held = dict((k, Held(n, content[k], occ)) for k in names)
        mr.reservoir = dict((k, held[k].r) for k in names)
    samples = dict((k, content[k].chunk(m)) for k in reversed(names))
    ok(mr.add, samples)
    draws = core.ctx().draws
    if not draws:
        raise Unsupported('how slots are drawn')
    if history == 'first':
        prove(set(mr.reservoir.keys()) == set(names), 'one reservoir per key')
        held = dict((k, Held(n, content[k], None, mr.reservoir[k])) for k in names)
    for k in names:
        held[k].judge_add(None, m, draws[0][2], history == 'first')


@spec('the rows of a multiplexed reservoir', seconds=100)
def multiplexed_get():
    n = Int('slots', 1)
    mr = ok(rs.MultiplexedReservoir, n)
    state_is(mr, 'reservoir', 'nsamples')
    occ = occupied_()
    content = dict((k, Rows(k)) for k in 'ab')
    held = dict((k, Held(n, content[k], occ)) for k in 'ab')
    mr.reservoir = dict((k, held[k].r) for k in 'ab')
    out = ok(mr.get)
    prove(set(out.keys()) == {'a', 'b'}, 'the same keys')
    a, b = out['a'], out['b']
    prove(Eq(a.shape[0], b.shape[0]), 'the same number of rows under every key')
    i = Int('i', 0)
    assume(i < a.shape[0])
    fa, fb = content['a'].feature(), content['b'].feature()
    old = lambda k, t, f: content[k].at(held[k].old.chunk(n), t, f)
    witness(positions(i, depth=1), lambda t: And(t >= 0, t < n, held['a'].has(t), Eq(a._get((i, fa)), old('a', t, fa)), Eq(b._get((i, fb)), old('b', t, fb))),
            'row i under every key comes from the same slot')


@spec('other keys are rejected')
def other_keys():
    n, m = Int('slots', 1), Int('rows', 1)
    mr = ok(rs.MultiplexedReservoir, n)
    state_is(mr, 'reservoir', 'nsamples')
    content = dict((k, Rows(k)) for k in 'abc')
    occ = occupied_()
    mr.reservoir = dict((k, Held(n, content[k], occ).r) for k in 'ab')
    rejects(mr.add, ValueError, dict((k, content[k].chunk(m)) for k in 'ac'))
    rejects(mr.add, ValueError, dict((k, content[k].chunk(m)) for k in 'a'))


@spec('shuffled samples', each=[False, True])
def shuffled(multi):
    n, m = Int('slots', 1), Int('rows', 0)
    node = unfinished(rs.ShuffledSamples, nsamples=n, multiplexed=multi)
    rows = Rows('new')
    data = {'x': rows.chunk(m)} if multi else rows.chunk(m)
    ok(node._enqueue, data, None)
    rejects(node._dequeue, NotEnoughData)
    node.done = True
    draws = core.ctx().draws
    if len(draws) != 1:
        raise Unsupported('how slots are drawn')
    out = ok(node._dequeue)
    cover('rows')
    out = out['x'] if multi else out
    f, i = rows.feature(), Int('i', 0)
    assume(i < out.shape[0])
    prove(out.shape[0] <= n, 'no more rows than slots')
    got = z3.simplify(zreal(rows.at(out, i, f)))
    at = [SInt(t.arg(0)) for t in apps_of(rows.f, got)]
    witness(at, lambda t: And(t >= 0, t < m, Eq(rows.at(out, i, f), rows.value(t, f))), 'every row is one that was given')


class Stream(object):
    """a sampler that has seen some rows of a stream"""

    def __init__(self, n, kind, rank, seen):
        self.n, self.seen = n, seen
        self.rows = Rows('stream', kind == 'units', rank)
        self.s = unfinished(rs.ReservoirSampler, nsamples=n)
        state_is(self.s, '_r', '_index', '_nsamples')
        self.from_ = z3.Function(core.ctx().fresh('from'), z3.IntSort(), z3.IntSort())
        if seen is not None:
            self.s._index = seen
            r = mnumpy.lazy((n, self.rows.width)[:rank], mnumpy.dtype('float64'),
                            lambda ix: ite(ix[0] < seen, self.rows.value(self.source(ix[0]), ix[1] if rank > 1 else 0), 0.0))
            self.s._r = AWU(r, [Identity()] * rank) if kind == 'units' else r
        else:
            self.seen = 0

    def source(self, slot):
        """position in the stream of what a filled slot holds: that of the slot while there is room"""
        t = SInt(self.from_(zint(slot)))
        assume(Implies(And(slot >= 0, slot < self.n, slot < self.seen), And(t >= 0, t < self.seen, Implies(self.seen <= self.n, Eq(t, slot)))))
        return ite(self.seen <= self.n, slot, t)

    def judge(self, total):
        s, arr = self.s, self.s._r
        prove(Eq(s._index, total), 'counts the rows seen')
        prove(Eq(arr.shape[0], self.n), 'as many slots as asked for')
        f, k = self.rows.feature(), Int('slot', 0)
        assume(And(k < self.n, k < total))
        got = z3.simplify(zreal(self.rows.at(arr, k, f)))
        at = [SInt(t.arg(0)) for t in apps_of(self.rows.f, got)]
        witness(at, lambda t: Implies(total > self.n, And(t >= 0, t < total, Eq(self.rows.at(arr, k, f), self.rows.value(t, f)))), 'every filled slot holds a row of the stream')
        prove(Implies(total <= self.n, Eq(self.rows.at(arr, k, f), self.rows.value(k, f))), 'all of it while there is room')


@spec('sampling a stream', each=[(k, r, h) for k, r in KINDS for h in ('first', 'later')], seconds=120)
def sampler(kind, rank, history):
    n, m = Int('slots', 1), Int('rows', 0)
    st = Stream(n, kind, rank, None if history == 'first' else Int('seen', 0))
    ok(st.s._enqueue, st.rows.chunk(m, st.seen), None)
    st.judge(st.seen + m)


@spec('the rows of a sampled stream', each=KINDS, seconds=120)
def sampled(kind, rank):
    n, seen = Int('slots', 1), Int('seen', 1)
    st = Stream(n, kind, rank, seen)
    rejects(st.s._dequeue, NotEnoughData)
    st.s.done = True
    out = ok(st.s._dequeue)
    rows = st.rows
    prove(Eq(out.shape[0], ite(seen < n, seen, n)), 'all rows, or as many as there are slots')
    prove(isinstance(out, AWU) == (kind == 'units'), 'the type of the rows')
    f, i, s = rows.feature(), Int('i', 0), Int('t', 0)
    assume(And(i < out.shape[0], s < seen))
    got = z3.simplify(zreal(rows.at(out, i, f)))
    witness([SInt(t.arg(0)) for t in apps_of(rows.f, got)], lambda t: And(t >= 0, t < seen, Eq(rows.at(out, i, f), rows.value(t, f))), 'every row is from the stream')
    if fork(seen <= n):
        witness(positions(s, back=True, depth=1), lambda t: And(t >= 0, t < out.shape[0], Eq(rows.at(out, t, f), rows.value(s, f))), 'a short stream comes back whole')
