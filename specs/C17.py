"""C17: companding functions are exact inverses and keep sign, order and range (over the reals)."""
import z3
from engine.spec import *
from engine import core

lo = load('zounds.loudness.loudness')
npx = load('zounds.nputil.npx')
assumption('floats are treated as real numbers')


def sign(v):
    return ite(v > 0, 1, ite(v < 0, -1, 0))


def number(name):
    return Real(name)


PAIRS = [('mu_law', 'inverse_mu_law'), ('log_modulus', 'inverse_log_modulus')]


def call(f, x, mu):
    return ok(f, x, mu) if mu is not None else ok(f, x)


def params(name, default):
    if name != 'mu_law' or default:
        return None
    mu = Real('mu')
    assume(mu > 0)
    return mu


VARIANTS = [('mu_law', 'inverse_mu_law', False), ('mu_law', 'inverse_mu_law', True), ('log_modulus', 'inverse_log_modulus', True)]


@spec('one number', each=VARIANTS, seconds=120)
def scalar(fwd, inv, default):
    F, G = getattr(lo, fwd), getattr(lo, inv)
    mu = params(fwd, default)
    x = number('x')
    y = call(F, x, mu)
    prove(Eq(sign(y), sign(x)), 'keeps the sign, and zero')
    prove(Eq(call(G, y, mu), x), 'the inverse undoes it')
    prove(Eq(call(F, -x, mu), -y), 'odd')
    if fwd == 'mu_law':
        one = call(F, 1.0, mu)
        prove(Eq(one, 1), 'one is mapped to one')


@spec('order', each=VARIANTS, seconds=120)
def order(fwd, inv, default):
    F = getattr(lo, fwd)
    mu = params(fwd, default)
    x, y = number('x'), number('y')
    assume(x < y)
    prove(call(F, x, mu) < call(F, y, mu), 'strictly increasing')


@spec('range', each=[True, False])
def unit(default):
    mu = params('mu_law', default)
    x = number('x')
    y = call(lo.mu_law, x, mu)
    prove(Iff(And(-1 <= x, x <= 1), And(-1 <= y, y <= 1)), 'mu-law maps [-1, 1] onto [-1, 1]')
    z = call(lo.inverse_mu_law, x, mu)
    prove(Eq(call(lo.mu_law, z, mu), x), 'every value is reached')


@spec('the inverses undone', each=VARIANTS)
def backwards(fwd, inv, default):
    F, G = getattr(lo, fwd), getattr(lo, inv)
    mu = params(fwd, default)
    y = number('y')
    prove(Eq(call(F, call(G, y, mu), mu), y), 'the function undoes its inverse')


def shape(rank):
    return tuple(Int('n%d' % d, 1) for d in range(rank))


def index(shape, name='i'):
    ix = tuple(Int('%s%d' % (name, d), 0) for d in range(len(shape)))
    assume(And(*[i < n for i, n in zip(ix, shape)]))
    return ix


def unchanged(x, before, ix):
    prove(Eq(x._get(ix), before._get(ix)), 'the input is not modified')


def copy(x):
    return np.lazy(x.shape, x.dtype, x._snapshot())


@spec('arrays, element by element', each=[(v, r) for v in range(len(VARIANTS)) for r in (1, 2)], seconds=120)
def elementwise(v, rank):
    fwd, inv, default = VARIANTS[v]
    F, G = getattr(lo, fwd), getattr(lo, inv)
    mu = params(fwd, default)
    sh = shape(rank)
    x = np.symarray('x', sh)
    b = copy(x)
    y = call(F, x, mu)
    prove(len(y.shape) == rank and And(*[Eq(p, q) for p, q in zip(y.shape, sh)]), 'same shape')
    ix = index(sh)
    prove(Eq(y._get(ix), call(F, x._get(ix), mu)), 'each element on its own')
    unchanged(x, b, ix)
    c = copy(y)
    z = call(G, y, mu)
    prove(Eq(z._get(ix), x._get(ix)), 'the inverse restores the array')
    unchanged(y, c, ix)


@spec('instance scaling', each=[(r, a, e, m) for r, a in ((1, -1), (2, -1), (2, 0), (2, 1), (3, -1), (3, 1)) for e in (True, False) for m in (False, True)])
def instance(rank, axis, default_eps, maxes):
    sh = shape(rank)
    x = np.symarray('x', sh)
    b = copy(x)
    k = {}
    if not default_eps:
        k['epsilon'] = Real('epsilon')
        assume(k['epsilon'] > 0)
    if axis != -1:
        k['axis'] = axis
    if maxes:
        k['return_maxes'] = True
    r = ok(lo.instance_scale, x, **k)
    ix = index(sh)
    if maxes:
        mx, r = r
        d = axis % rank
        prove(And(*[Eq(p, 1 if e == d else q) for e, (p, q) in enumerate(zip(mx.shape, sh))]), 'one maximum per instance')
        m = mx._get(tuple(0 if e == d else i for e, i in enumerate(ix)))
        prove(And(x._get(ix) <= m, -x._get(ix) <= m), 'no value of the instance is larger than the maximum')
    prove(And(*[Eq(p, q) for p, q in zip(r.shape, sh)]), 'same shape')
    v = r._get(ix)
    prove(And(-1 <= v, v <= 1), 'never exceeds one in magnitude')
    prove(Eq(sign(v), sign(x._get(ix))), 'keeps the sign')
    unchanged(x, b, ix)


@spec('unit scaling', each=[(1, None), (2, None), (2, 0), (2, 1), (1, -1)])
def unit_scale(rank, axis):
    sh = shape(rank)
    x = np.symarray('x', sh)
    b = copy(x)
    r = ok(lo.unit_scale, x, **({} if axis is None else {'axis': axis}))
    prove(And(*[Eq(p, q) for p, q in zip(r.shape, sh)]), 'same shape')
    ix = index(sh, 'i')
    jx = index(sh, 'j')
    if axis is not None:
        jx = tuple(j if d == axis % rank else i for d, (i, j) in enumerate(zip(ix, jx)))
    u, v, p, q = r._get(ix), r._get(jx), x._get(ix), x._get(jx)
    prove(And(0 <= u, u <= 1), 'within [0, 1]')
    prove(Implies(p <= q, u <= v), 'keeps order')
    prove(Implies(p < q, u < v), 'keeps strict order')
    prove(Implies(Eq(p, q), Eq(u, v)), 'equal values stay equal')
    mn = np.min(x, axis=axis, keepdims=True)
    mx = np.max(x, axis=axis, keepdims=True)
    at = tuple(0 if axis is None or d == axis % rank else i for d, i in enumerate(ix))
    lo_, hi = mn._get(at), mx._get(at)
    prove(Eq(u * (hi - lo_), p - lo_), 'an affine map taking the smallest value to zero and the largest to one')
    prove(Implies(Eq(lo_, hi), Eq(u, 0)), 'constant data is mapped to zero')
    unchanged(x, b, ix)


@spec('safe log', each=[1, 2])
def safe_log(rank):
    sh = shape(rank)
    x = np.symarray('x', sh)
    b = copy(x)
    ix = index(sh)
    r = run(npx.safe_log, x)
    if isinstance(r, Raised):
        prove(r.is_(ValueError), 'rejected with ValueError')
        forall_assume_nonneg(x, sh)
        prove(False, 'rejected only when some element is negative')
        return
    prove(x._get(ix) >= 0, 'negative input is rejected')
    prove(Eq(np.exp_(r._get(ix)), x._get(ix) + 1e-12), 'the logarithm, finite at zero')
    unchanged(x, b, ix)


def forall_assume_nonneg(x, sh):
    ks = [z3.Int('kn%d' % d) for d in range(len(sh))]
    rng = z3.And(*[z3.And(k >= 0, k < zint(n)) for k, n in zip(ks, sh)])
    core.ctx().add(z3.ForAll(ks, z3.Implies(rng, zreal(x._get(tuple(SInt(k) for k in ks))) >= 0)))


@spec('safe unit norm', each=[1, 2, 3])
def unit_norm(rank):
    sh = shape(rank)
    x = np.symarray('x', sh)
    b = copy(x)
    r = ok(npx.safe_unit_norm, x)
    prove(And(*[Eq(p, q) for p, q in zip(r.shape, sh)]), 'same shape')
    ix = index(sh)
    lead = ix[:-1]
    # the sum of the squares of the vector that ix is in
    S = np.sum(np.lazy((sh[-1],), x.dtype, lambda i: b._get(lead + i) * b._get(lead + i)))
    assume(S >= 0)
    u = r._get(ix)
    v = b._get(ix)
    # sum of squares of the scaled vector = S / n^2 = 1 ("finite sums are linear")
    prove(Implies(S > 0, And(Eq(u * u * S, v * v), sign(u) == sign(v))), 'each nonzero vector is divided by the square root of its sum of squares')
    prove(Implies(Eq(v, 0), Eq(u, 0)), 'zeros stay zero')
    unchanged(x, b, ix)


@spec('finite sums are linear')
def linear():
    """lemma by induction: if each b_i^2 * S = a_i^2 then (sum of b_i^2) * S = sum of a_i^2; with S the sum of a_i^2 > 0
    the squared length of b is one"""
    P, Q, a, b, S = Real('P'), Real('Q'), Real('a'), Real('b'), Real('S')
    assume(And(Eq(Q * S, P), Eq(b * b * S, a * a)))
    prove(Eq((Q + b * b) * S, P + a * a), 'step')
    assume(S > 0)
    prove(Implies(Eq(P, S), Eq(Q, 1)), 'unit length')


class Chunk(object):
    pass


@spec('the nodes apply the functions', each=['MuLaw', 'LogModulus'])
def nodes(name):
    n = Int('n', 1)
    x = np.symarray('x', (n,))
    i = Int('i', 0)
    assume(i < n)
    p = Real('parameter')
    assume(p > 0)
    nd = ok(getattr(lo, name), p)
    out = ok(lambda: list(nd._process(x)))
    prove(len(out) == 1, 'one output per input')
    want = ok(lo.mu_law, x._get((i,)), p) if name == 'MuLaw' else ok(lo.log_modulus, x._get((i,)) * p)
    prove(Eq(out[0]._get((i,)), want), 'the companded data')
