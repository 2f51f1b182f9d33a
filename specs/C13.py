"""C13: bit counting and packed Hamming distances are exact.

popcount(w) is the number of ones of the 64-bit word w; total(i, j) is the sum of popcount over the first j words of row i."""
import z3
from engine.spec import *
from engine import core, bi, cython_, loader

cy = cython_.load()
loader.EXTERNAL['countbits'] = cy
npx = load('zounds.nputil.npx')
assumption('arrays have fewer than 2^31 rows and words (the C loop counters are 32 bit)')
pop = cython_.popcount


def words(name, shape):
    return np.lazy(shape, 'uint64', np.fresh_fn(name, len(shape), 'bv'))


def defined(v):
    """the definition of popcount, instantiated for one word"""
    core.ctx().add(z3.BV2Int(cython_.ones(v.z)) == cython_.POP(v.z))


def out_of(st, *inputs):
    xs = [v for k, v in st._d.items() if type(v) is np.ndarray and v.ndim == 1 and v.dtype.kind == 'i']
    if len(xs) != 1:
        raise Unsupported('loop contract: the output under construction is not identified')
    return xs[0]


def loop_single(get, n):
    """out[t] is the popcount of word t for every t already visited"""
    want = z3.Function('result', z3.IntSort(), z3.IntSort())

    def inv(st):
        a = out_of(st)
        t = Int('t', 0)
        assume(t < n)
        w = get(t)
        defined(w)
        assume(Eq(SInt(want(zint(t))), pop(w)))
        return [Eq(a.shape[0], n), Implies(t < st._i, Eq(a._get((t,)), pop(w)))]

    def objs(st):
        a, i = out_of(st), st._i
        g = z3.Function(core.ctx().fresh('garbage'), z3.IntSort(), z3.IntSort())
        a._buf.fn = lambda b: ite(b[0] < i, pop(get(b[0])), SInt(g(zint(b[0]))))
    core.R.contracts[('countbits.count_bits', 0)] = bi.LoopContract(inv, havoc=AnyInt(), objs=objs)


class AnyInt(object):
    """scratch variables of an iteration hold anything"""

    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        def value(st):
            v = st._entry.get(k)
            return SBV_(k) if type(v) is core.SBV else v if isinstance(v, np.ndarray) else fresh_int(k)
        return value


def SBV_(k):
    return core.SBV(z3.BitVec(core.ctx().fresh(k), 64))


total = z3.Function('total', z3.IntSort(), z3.IntSort(), z3.IntSort())


def tot(i, j):
    return SInt(total(zint(i), zint(j)))


def loop_packed(get, rows, width):
    """outer: out[t] = total(t, width) for every row t visited; inner: z = total(i, j)"""
    def step(i, j):
        if not is_sym(j) and j == 0:
            assume(Eq(tot(i, 0), 0))
        else:
            assume(Implies(And(j > 0, j <= width), Eq(tot(i, j), tot(i, j - 1) + pop(get(i, j - 1)))))
            assume(Implies(And(j >= 0, j <= width), And(0 <= tot(i, j), tot(i, j) <= 64 * j)))

    def outer(st):
        a = out_of(st)
        t = Int('t', 0)
        assume(t < rows)
        return [Eq(a.shape[0], rows), Implies(t < st._i, Eq(a._get((t,)), tot(t, width)))]

    def objs(st):
        a, i = out_of(st), st._i
        g = z3.Function(core.ctx().fresh('garbage'), z3.IntSort(), z3.IntSort())
        a._buf.fn = lambda b: ite(b[0] < i, tot(b[0], width), SInt(g(zint(b[0]))))
    core.R.contracts[('countbits.count_packed_bits', 0)] = bi.LoopContract(outer, havoc=AnyInt(), objs=objs)

    def inner(st):
        step(st.i, st._i)
        zs = [v for k, v in st._d.items() if k == 'z']
        if not zs or not isinstance(zs[0], int):
            raise Unsupported('loop contract: the count under construction is not identified')
        return [Eq(zs[0], tot(st.i, st._i))]
    core.R.contracts[('countbits.count_packed_bits', 1)] = bi.LoopContract(inner, havoc=AnyInt())


def size(name):
    n = Int(name, 0)
    assume(n < 2 ** 31)
    return n


@spec('the bit count of every word', seconds=200)
def single():
    n = size('n')
    x = words('x', (n,))
    loop_single(lambda t: x._get((t,)), n)
    r = ok(cy.count_bits, x)
    prove(len(r.shape) == 1 and Eq(r.shape[0], n), 'one count per word')
    i = Int('i', 0)
    assume(i < n)
    defined(x._get((i,)))
    prove(Eq(r._get((i,)), pop(x._get((i,)))), 'the number of ones in its binary form')


@spec('the bit count of a packed code is the sum over its words', seconds=200)
def packed():
    n, w = size('rows'), size('words')
    x = words('x', (n, w))
    loop_packed(lambda i, j: x._get((i, j)), n, w)
    r = ok(cy.count_packed_bits, x)
    prove(len(r.shape) == 1 and Eq(r.shape[0], n), 'one count per row')
    i = Int('i', 0)
    assume(i < n)
    prove(Eq(r._get((i,)), tot(i, w)), 'the sum of the counts of its words')


@spec('the Hamming distance is the number of differing bits', each=['word', 'array'], seconds=200)
def distance(kind):
    n = size('n')
    b = words('b', (n,))
    a = SBV_('a') if kind == 'word' else words('a', (n,))
    at = (lambda t: a) if kind == 'word' else (lambda t: a._get((t,)))
    loop_single(lambda t: at(t) ^ b._get((t,)), n)
    r = ok(npx.hamming_distance, a, b)
    prove(len(r.shape) == 1 and Eq(r.shape[0], n), 'one distance per element')
    i = Int('i', 0)
    assume(i < n)
    d = at(i) ^ b._get((i,))
    prove(Eq(r._get((i,)), pop(d)), 'the number of differing bits')


@spec('the packed Hamming distance is the number of differing bits', each=['code', 'row'], seconds=200)
def packed_distance(kind):
    n, w = size('rows'), size('words')
    assume(w >= 1)
    a = words('a', (w,) if kind == 'code' else (1, w))
    at = lambda j: a._get((j,) if kind == 'code' else (0, j))
    b = words('b', (n, w))
    loop_packed(lambda i, j: at(j) ^ b._get((i, j)), n, w)
    r = ok(npx.packed_hamming_distance, a, b)
    prove(len(r.shape) == 1 and Eq(r.shape[0], n), 'one distance per row')
    i = Int('i', 0)
    assume(i < n)
    prove(Eq(r._get((i,)), tot(i, w)), 'the number of differing bits over all words')
