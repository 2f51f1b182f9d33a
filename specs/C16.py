"""C16: a preprocessing pipeline applies its steps in order and inverts them in reverse."""
import z3
from engine.spec import *
from engine import core, bi

pre = load('zounds.learn.preprocess')
axis_ = load('zounds.core.axis')
ts_ = load('zounds.timeseries.timeseries')
Identity = load('zounds.core.dimensions').IdentityDimension
NotEnoughData = load('featureflow').NotEnoughData
AWU = axis_.ArrayWithUnits
td = np.timedelta64
bi.GROWING.add('zounds.learn.preprocess')
assumption('floats are treated as real numbers')
assumption('numpy functions obey their documentation')

# ------------------------------------------------------------------ steps in general
#
# Data are abstract: a content and units. Step k maps (content, units) to something, records something, and its inverse
# undoes it: V(k, F(k, c, u), I(k, c, u)) = c, whatever the units of the transformed data are.

D, U, X = z3.DeclareSort('Data'), z3.DeclareSort('Units'), z3.DeclareSort('Recorded')
INT = z3.IntSort()


def term(k):
    return k if z3.is_expr(k) else zint(k)


class Token(object):
    def __init__(self, t):
        self.t = t


class Steps(object):
    def __init__(self, n, invertible=True):
        f = lambda name, *s: z3.Function(core.ctx().fresh(name), *s)
        self.n, self.invertible = n, invertible
        self.F, self.G = f('forward', INT, D, U, D), f('forward_units', INT, D, U, U)
        self.I, self.V, self.W = f('record', INT, D, U, X), f('inverse', INT, D, X, D), f('inverse_units', INT, D, X, U)
        self.hands, self.has = f('hands_over', INT, z3.BoolSort()), f('has_units', U, z3.BoolSort())
        self.Y, self.Z = f('stage', INT, D), f('stage_units', INT, U)
        this = self

        class Data(object):
            def __init__(self, data, **kwargs):
                self.content, self.units = data.content, kwargs['units'].t

            def kwargs(self):
                if not fork(SBool(this.has(self.units))):
                    raise AttributeError('kwargs')
                return {'units': Token(self.units)}
        self.Data = Data
        self.first = self.data(self.Y(0), self.Z(0))

    def data(self, content, units):
        d = self.Data.__new__(self.Data)
        d.content, d.units = content, units
        return d

    def stage(self, k):
        """the data that step k is given"""
        k = term(k)
        return self.data(self.Y(k), self.Z(k))

    def same(self, d, e):
        return SBool(z3.And(d.content == e.content, d.units == e.units))

    def step(self, k):
        return Step(self, k)

    def sequence(self):
        return bi.SSeq(self.n, self.step)


class Step(object):
    def __init__(self, steps, k):
        self.steps, self.k, self.op = steps, term(k), Forward(steps, term(k))

    def known(self, d):
        """the inverse undoes the step on this data"""
        s, k = self.steps, self.k
        rec = s.I(k, d.content, d.units)
        core.ctx().add(z3.And(s.Y(k + 1) == s.F(k, s.Y(k), s.Z(k)), s.Z(k + 1) == s.G(k, s.Y(k), s.Z(k))))
        if s.invertible:
            core.ctx().add(s.V(k, s.F(k, d.content, d.units), rec) == d.content)
        return rec

    def inversion_data(self, d):
        return {'recorded': Token(self.known(d))}

    def inverse(self, d, recorded):
        s = self.steps
        self.known(s.stage(self.k))
        return s.data(s.V(self.k, d.content, recorded.t), s.W(self.k, d.content, recorded.t))


class Forward(object):
    version = 'version'

    def __init__(self, steps, k):
        self.steps, self.k = steps, k

    def __call__(self, d):
        s, k = self.steps, self.k
        rec = Step(s, k).known(d)
        out = s.data(s.F(k, d.content, d.units), s.G(k, d.content, d.units))
        if fork(SBool(s.hands(k))):
            return pre.ForwardResult(out, recorded=Token(rec))
        return out


def judge_result(s, r):
    prove(s.same(r.data, s.stage(s.n)), 'each step is applied to the output of the one before')
    back = ok(r.inverse_transform)
    prove(SBool(back.content == s.first.content), 'the inverses, in reverse order, restore the data')
    prove(Implies(SBool(s.has(s.first.units)), Or(Eq(s.n, 0), SBool(back.units == s.first.units))), 'and its type and units')


@spec('a few steps', each=[0, 1, 2, 3], seconds=100)
def few(n):
    s = Steps(n)
    p = ok(pre.Pipeline, [s.step(k) for k in range(n)])
    judge_result(s, ok(p.transform, s.first))


def transform_contract(s):
    """after i steps: the data are those of stage i, and what each step so far needs for its inversion is recorded"""
    def lists(st):
        return st.inversion_data, st.wrap_data

    def recorded(k):
        return s.I(k, s.Y(k), s.Z(k))

    def inv(st):
        kept, wraps = lists(st)
        i = st._i
        out = [s.same(st.data, s.stage(i)), Eq(len_(kept), i), Eq(len_(wraps), i)]
        k = fresh_int('k', 0)
        if fork(k < i):
            d = item(kept, k)
            cls, kw = item(wraps, k)
            z = s.Z(term(k))
            ok_ = isinstance(d, dict) and set(d) == {'recorded'}
            out.append(ok_ and SBool(d['recorded'].t == recorded(term(k))))
            out.append(cls is s.Data and ((kw is None and Not(SBool(s.has(z)))) or
                                          (kw is not None and And(SBool(s.has(z)), SBool(kw['units'].t == z)))))
        return out

    def wrap(k):
        z = s.Z(term(k))
        return s.Data, ({'units': Token(z)} if fork(SBool(s.has(z))) else None)

    def objs(st):
        kept, wraps = lists(st)
        i = st._i
        kept.length = wraps.length = i
        kept.get = lambda k: {'recorded': Token(recorded(term(k)))}
        wraps.get = wrap
    core.R.contracts[('zounds.learn.preprocess.Pipeline.transform', 0)] = bi.LoopContract(
        inv, havoc={'data': lambda st: s.stage(st._i)}, objs=objs)


def inverse_contract(s):
    """after undoing i steps, the data are those of stage n - i"""
    def inv(st):
        i = st._i
        z = s.stage(s.n - i)
        return [SBool(st.data.content == z.content),
                Implies(And(i > 0, SBool(s.has(z.units))), SBool(st.data.units == z.units)),
                Implies(Eq(i, 0), SBool(st.data.units == z.units))]

    def fresh(st):
        f = core.ctx().fresh
        return s.data(z3.Const(f('content'), D), z3.Const(f('units'), U))
    core.R.contracts[('zounds.learn.preprocess.PipelineResult.inverse_transform', 0)] = bi.LoopContract(inv, havoc={'data': fresh})


@spec('any number of steps', seconds=100)
def many():
    s = Steps(Int('steps', 0))
    transform_contract(s)
    inverse_contract(s)
    p = ok(pre.Pipeline, [])
    state_is(p, 'processors', 'version')
    p.processors = s.sequence()
    judge_result(s, ok(p.transform, s.first))


@spec('with a wrapper')
def wrapped():
    s = Steps(2)
    p = ok(pre.Pipeline, [s.step(k) for k in range(2)])
    got = []

    def wrapper(d):
        got.append(d)
        return s.stage(2)
    r = ok(p.transform, s.first, wrapper=wrapper)
    prove(len(got) == 1 and s.same(got[0], s.stage(2)), 'the wrapper is given the transformed data')
    judge_result(s, r)


@spec('parts of a pipeline', seconds=100)
def parts():
    s = Steps(Int('steps', 0))
    p = ok(pre.Pipeline, [])
    state_is(p, 'processors', 'version')
    one = [s.step(k) for k in range(4)]
    q = ok(pre.Pipeline, one)
    for i in range(-4, 4):
        prove(ok(q.__getitem__, i) is one[i], 'a step by its number')
    for sl in (slice(None), slice(1, 3), slice(None, 2), slice(-2, None), slice(None, None, -1), slice(0, 4, 2), slice(3, 1)):
        r = ok(q.__getitem__, sl)
        prove(isinstance(r, pre.Pipeline), 'a slice of a pipeline is a pipeline')
        same_steps(r.processors, one[sl], 'of exactly the chosen steps')
    for ix in ([], [2], [3, 0, 0], [-1, 1]):
        r = ok(q.__getitem__, ix)
        prove(isinstance(r, pre.Pipeline), 'a selection of steps is a pipeline')
        same_steps(r.processors, [one[i] for i in ix], 'of exactly the chosen steps')
    same_steps(q.processors, one, 'the pipeline is left as it was')


def same_steps(got, want, name):
    got = list(got)
    prove(len(got) == len(want) and all(a is b for a, b in zip(got, want)), name)


@spec('a pipeline is assembled in the order of its steps', each=[1, 2, 3])
def assembled(n):
    import itertools
    Preprocessor = pre.Preprocessor
    for order in itertools.permutations(range(n)):
        nodes = [Preprocessor() for _ in range(n)]
        node = ok(pre.PreprocessingPipeline, needs=tuple(nodes))
        results = [pre.PreprocessResult(object(), pre.Op(lambda d: d), name=str(k)) for k in range(n)]
        for k in order:
            rejects(node._dequeue, NotEnoughData, _name='no pipeline before all steps are there')
            ok(node._enqueue, results[k], nodes[k])
        p = ok(node._dequeue)
        got = list(p.processors)
        prove([g.name for g in got] == [str(k) for k in range(n)], 'the steps in the order in which they were given')
        prove(all(g.op is r.op and g.inverse is r.inverse and g.inversion_data is r.inversion_data for g, r in zip(got, results)), 'unchanged')


# ------------------------------------------------------------------ the steps themselves

RANKS = (1, 2, 3)


def shape(rank, n=None):
    return (Int('examples', 1) if n is None else n,) + tuple(Int('width%d' % d, 1) for d in range(1, rank))


def dims(rank):
    return [ts_.TimeDimension(td(Int('frequency', 1), 'ps')), Identity(), Identity()][:rank]


def make(name, sh, kind):
    x = mnumpy.symarray(name, sh)
    return AWU(x, dims(len(sh))) if kind == 'units' else x


def index(sh, name='at'):
    ix = tuple(Int('%s%d' % (name, d), 0) for d in range(len(sh)))
    assume(And(*[i < n for i, n in zip(ix, sh)]))
    return ix


def through(node, x, train=None):
    """the transformed and the restored data, of a pipeline of this one step"""
    r = ok(lambda: list(node._process(x if train is None else train)))
    prove(len(r) == 1, 'one result')
    p = ok(pre.Pipeline, [r[0].for_storage()])
    out = ok(p.transform, x)
    return out.data, ok(out.inverse_transform), r[0]


def same_shape(a, sh, name):
    prove(len(a.shape) == len(sh) and And(*[Eq(p, q) for p, q in zip(a.shape, sh)]), name)


def restored(x, back, kind, sh, ix, exact=True):
    same_shape(back, sh, 'the shape is restored')
    if kind == 'units':
        prove(isinstance(back, AWU) and len(back.dimensions) == len(sh) and
              And(*[a is b or ok(lambda: a == b) for a, b in zip(back.dimensions, x.dimensions)]), 'type and units are restored')
    else:
        prove(not isinstance(back, AWU), 'a plain array')
    if exact:
        prove(Eq(back._get(ix), x._get(ix)), 'the data are restored')


KINDS = [(k, r) for k in ('plain', 'units') for r in RANKS]


@spec('unit norm', each=KINDS, seconds=120)
def unit_norm(kind, rank):
    sh = shape(rank)
    x = make('x', sh, kind)
    y, back, _ = through(pre.UnitNorm(), x)
    ix = index(sh)
    same_shape(y, sh, 'same shape')
    a, b = y._get(ix), back._get(ix)
    mnumpy.norms_bound((flat(ix[1:], sh[1:]),))
    prove(Eq(b, x._get(ix)), 'the data are restored')
    restored(x, back, kind, sh, ix, exact=False)
    v = x._get(ix)
    prove(And(-1 <= a, a <= 1, Eq(a > 0, v > 0), Eq(a < 0, v < 0)), 'scaled to within one, keeping the sign; zero stays zero')


def flat(ix, sh):
    k = 0
    for i, n in zip(ix, sh):
        k = k * n + i
    return k


@spec('multiplication', each=KINDS, seconds=60)
def multiply(kind, rank):
    sh = shape(rank)
    x = make('x', sh, kind)
    f = Real('factor')
    assume(Not(Eq(f, 0)))
    y, back, _ = through(pre.Multiply(f), x)
    ix = index(sh)
    prove(Eq(y._get(ix), x._get(ix) * f), 'multiplied')
    restored(x, back, kind, sh, ix)


@spec('companding', each=[(s,) + k for s in ('Log', 'MuLawCompressed') for k in KINDS], seconds=60)
def companding(step, kind, rank):
    sh = shape(rank)
    x = make('x', sh, kind)
    y, back, _ = through(getattr(pre, step)(), x)
    ix = index(sh)
    same_shape(y, sh, 'same shape')
    a, v = y._get(ix), x._get(ix)
    prove(And(Iff(a > 0, v > 0), Iff(a < 0, v < 0)), 'keeps the sign, and zero')
    restored(x, back, kind, sh, ix)


@spec('weighting', each=[k + (w,) for k in KINDS for w in ('number', 'features', 'all') if k[1] > 1 or w != 'features'], seconds=60)
def weighted(kind, rank, form):
    sh = shape(rank)
    x = make('x', sh, kind)
    if form == 'number':
        w = Real('weight')
        at = lambda ix: w
        assume(Not(Eq(w, 0)))
    else:
        f = z3.Function(core.ctx().fresh('weight'), *([INT] * max(rank - 1, 1) + [z3.RealSort()]))
        ws = sh[1:]
        if form == 'all':
            f = z3.Function(core.ctx().fresh('weight'), *([INT] * rank + [z3.RealSort()]))
            ws = sh
        w = mnumpy.lazy(ws, mnumpy.dtype('float64'), lambda ix: SReal(f(*[zint(i) for i in ix])))
        at = lambda ix: w._get(ix[len(ix) - len(ws):])
    y, back, _ = through(pre.Weighted(w), x)
    ix = index(sh)
    assume(Not(Eq(at(ix), 0)))
    prove(Eq(y._get(ix), x._get(ix) * at(ix)), 'multiplied')
    restored(x, back, kind, sh, ix)


@spec('reshaping', each=[k + (to,) for k in KINDS for to in ('split', 'flat', 'extra') if not (k[1] == 1 and to == 'split')], seconds=60)
def reshaped(kind, rank, to):
    sh = shape(rank)
    if to == 'split':
        a, b = Int('outer', 1), Int('inner', 1)
        sh = sh[:-1] + (a * b,)
        new = sh[1:-1] + (a, b)
    elif to == 'flat':
        new = (-1,)
    else:
        new = sh[1:] + (1,)
    x = make('x', sh, kind)
    y, back, _ = through(pre.Reshape(new), x)
    prove(Eq(y.shape[0], sh[0]), 'the examples are kept')
    ix = index(sh)
    restored(x, back, kind, sh, ix)


@spec('mean and deviation', each=KINDS, seconds=60)
def meanstd(kind, rank):
    sh = shape(rank)
    train = make('train', shape(rank)[:1] + sh[1:], kind)
    x = make('x', sh, kind)
    y, back, res = through(pre.MeanStdNormalization(), x, train)
    ix = index(sh)
    same_shape(y, sh, 'same shape')
    restored(x, back, kind, sh, ix, exact=False)
    mean, std = res.op.mean, res.op.std
    m = mean._get(ix[1:]) if rank > 1 else mean
    s = std._get(ix[1:]) if rank > 1 else std
    if choose('constant'):
        assume(Eq(s, 0))
        prove(Eq(y._get(ix), 0), 'a constant feature is mapped to zero')
        prove(Eq(back._get(ix), m), 'and restored to its mean')
    else:
        assume(Not(Eq(s, 0)))
        prove(Eq(y._get(ix), (x._get(ix) - m) / s), 'centred and scaled')
        prove(Eq(back._get(ix), x._get(ix)), 'the data are restored')


@spec('instance scaling', each=KINDS, seconds=60)
def instance(kind, rank):
    sh = shape(rank)
    x = make('x', sh, kind)
    most = Real('max_value')
    assume(most > 0)
    y, back, _ = through(pre.InstanceScaling(max_value=most), x)
    ix = index(sh)
    same_shape(y, sh, 'same shape')
    a, v = y._get(ix), x._get(ix)
    prove(And(Iff(a > 0, v > 0), Iff(a < 0, v < 0)), 'keeps the sign, and zero')
    prove(And(a <= most, -a <= most), 'never larger than asked for')
    restored(x, back, kind, sh, ix)


SLICES = ['range', 'from', 'upto', 'number', 'step']


@spec('slicing', each=[k + (sl,) for k in KINDS for sl in SLICES if k[1] > 1], seconds=60)
def sliced(kind, rank, form):
    sh = shape(rank)
    x = make('x', sh, kind)
    n = sh[-1]
    a, b = Int('start', 0), Int('stop', 0)
    assume(And(a < b, b <= n))
    sl, inside = {
        'range': (slice(a, b), lambda i: And(i >= a, i < b)),
        'from': (slice(a, None), lambda i: i >= a),
        'upto': (slice(None, b), lambda i: i < b),
        'number': (a, lambda i: Eq(i, a)),
        'step': (slice(None, None, 2), lambda i: Eq(i % 2, 0))}[form]
    y, back, _ = through(pre.Slicer(slicex=sl), x)
    ix = index(sh)
    restored(x, back, kind, sh, ix, exact=False)
    prove(Eq(back._get(ix), ite(inside(ix[-1]), x._get(ix), 0)), 'the slice is restored and the rest filled with zeros')
