"""Engine versions of builtins, symbolic sequences, comprehensions, loop cuts."""
import builtins
import itertools
import sys
import types

import z3

from . import core
from .core import (SInt, SReal, SBool, SBV, Unsupported, PathDone, R, ctx, fork, wrap, is_sym, isnum, isint,
                   zint, zreal, zbool, ite, smin, smax, fresh_int)

BI = {}


def bi(f):
    try:
        g = BI.get(f)
    except TypeError:
        return f
    return g if g is not None else f


def reg(orig):
    def deco(f):
        BI[orig] = f
        return f
    return deco


def concrete(x):
    return not is_sym(x)


# ------------------------------------------------------------------ sequences

UNCHECKED = [False]


def norm_index(i, n, what='index'):
    if UNCHECKED[0]:
        return i
    """python index normalisation with bounds check (forks to IndexError)"""
    if isinstance(i, bool):
        i = int(i)
    if concrete(i) and concrete(n):
        if i < 0:
            i += n
        if not 0 <= i < n:
            raise IndexError(what + ' out of range')
        return i
    neg = i < 0
    if is_sym(neg):
        # decide the sign when the path already determines it
        neg = fork(zbool(neg))
    if neg:
        i = i + n
    ok = z3.And(zint(i) >= 0, zint(i) < zint(n))
    if not fork(ok):
        raise IndexError(what + ' out of range')
    return i


def as_index(x):
    """things usable as an integer index"""
    if isint(x):
        return x if type(x) is not bool else int(x)
    if x is None:
        return None
    if isinstance(x, float):
        raise TypeError('slice indices must be integers or None or have an __index__ method')
    if hasattr(type(x), '__index__'):
        return x.__index__()
    raise TypeError('slice indices must be integers or None or have an __index__ method')


def slice_indices(sl, n):
    """(start, stop, step, length) as slice.indices would give, symbolically"""
    step = as_index(sl.step)
    if step is None:
        step = 1
    if is_sym(step):
        if fork(zint(step) == 0):
            raise ValueError('slice step cannot be zero')
        pos = fork(zint(step) > 0)
    else:
        if step == 0:
            raise ValueError('slice step cannot be zero')
        pos = step > 0
    start, stop = as_index(sl.start), as_index(sl.stop)
    lo, hi = (0, n) if pos else (-1, n - 1)

    def clamp(v):
        if concrete(v) and concrete(n):
            if v < 0:
                v += n
                return max(v, lo)
            return min(v, hi)
        if not concrete(v):
            v2 = ite(v < 0, v + n, v)
        else:
            v2 = v + n if v < 0 else v
        v2 = ite(v2 < lo, lo, v2)
        return ite(v2 > hi, hi, v2)
    start = (lo if pos else hi) if start is None else clamp(start)
    stop = (hi if pos else lo) if stop is None else clamp(stop)
    if pos:
        if step == 1 if concrete(step) else False:
            d = stop - start
        else:
            d = (stop - start + step - 1) // step
    else:
        d = (start - stop + (-step) - 1) // (-step)
    length = ite(d < 0, 0, d) if not (concrete(d)) else max(0, d)
    return start, stop, step, length


class SSeq(object):
    """immutable-by-default sequence of symbolic length"""

    def __init__(self, length, get, kind='list'):
        self.length = length
        self.get = get
        self.kind = kind

    @property
    def __class__(self):
        return {'list': list, 'tuple': tuple, 'gen': SSeq, 'range': range}.get(self.kind, SSeq)

    def __len__(self):
        return self.length

    def __getitem__(self, i):
        if isinstance(i, slice):
            start, stop, step, length = slice_indices(i, self.length)
            g = self.get
            return SSeq(length, lambda k: g(start + k * step), self.kind)
        if not isint(i):
            raise TypeError('list indices must be integers or slices, not %s' % builtins.type(i).__name__)
        return self.get(norm_index(i, self.length, 'list index'))

    def __iter__(self):
        if concrete(self.length):
            return iter([self.get(i) for i in builtins.range(self.length)])
        return SIter(self)

    def append(self, x):
        n, g = self.length, self.get
        self.get = lambda k: ite(core.Eq(k, n), x, g(k))
        self.length = n + 1

    def sort(self, key=None, reverse=False):
        if self.kind != 'list':
            raise AttributeError('sort')
        r = sorted_(SSeq(self.length, self.get), key, reverse)
        self.length, self.get = r.length, r.get

    def __add__(self, other):
        if not isinstance(other, (list, tuple)):
            return NotImplemented
        return concat_seq(self, other, self.kind)

    def __radd__(self, other):
        if not isinstance(other, (list, tuple)):
            return NotImplemented
        return concat_seq(other, self, self.kind)

    def __bool__(self):
        n = self.length
        return n != 0 if concrete(n) else fork(zint(n) != 0)

    def __hash__(self):
        return id(self)

    def __eq__(self, other):
        if self is other:
            return True
        raise Unsupported('comparison of symbolic sequences')

    def __contains__(self, x):
        raise Unsupported('membership in a symbolic sequence')

    def index(self, x):
        raise Unsupported('index in a symbolic sequence')


class SIter(object):
    """iter() of a symbolic sequence: element by element, forking on exhaustion"""

    def __init__(self, seq):
        self.seq = seq
        self.i = 0

    def __iter__(self):
        return self

    def __next__(self):
        n = self.seq.length
        more = fork(zint(self.i) < zint(n))
        if not more:
            raise StopIteration
        v = self.seq.get(self.i)
        self.i += 1
        if self.i > 6:
            raise Unsupported('iteration over a symbolic sequence without a loop contract')
        return v

    def rest(self):
        i, s = self.i, self.seq
        return SSeq(s.length - i, lambda k: s.get(k + i), 'gen')


def concat_seq(a, b, kind='list'):
    a, b = as_sseq(a), as_sseq(b)
    n = a.length
    ga, gb = a.get, b.get

    def get(k):
        if concrete(k) and concrete(n):
            return ga(k) if k < n else gb(k - n)
        return ite(k < n, LazyVal(lambda: ga(k)), LazyVal(lambda: gb(k - n))) if False else _sel(k < n, lambda: ga(k), lambda: gb(k - n))
    return SSeq(n + b.length, get, kind)


def _sel(c, fa, fb):
    """conditional on lazily produced values"""
    if type(c) is bool:
        return fa() if c else fb()
    z = z3.simplify(zbool(c))
    if z3.is_true(z):
        return fa()
    if z3.is_false(z):
        return fb()
    # try without forking when both sides are total and numeric
    t = core._check(z)
    if t == z3.unsat:
        return fb()
    f = core._check(z3.Not(z))
    if f == z3.unsat:
        return fa()
    a, b = fa(), fb()
    return ite(c, a, b)


class LazyVal(object):
    def __init__(self, f):
        self.f = f


def as_sseq(x):
    """view a python/engine iterable as a sequence with .length/.get, or None"""
    if issubclass(type(x), SSeq):
        return x
    if type(x) is SIter:
        return x.rest()
    f = getattr(type(x), '__sseq__', None)
    if f is not None:
        return f(x)
    if builtins.isinstance(x, (list, tuple, builtins.range)):
        xs = x

        def get(k):
            if concrete(k):
                return xs[k]
            if len(xs) == 0:
                raise IndexError('empty')
            v = xs[-1]
            for j in builtins.range(len(xs) - 2, -1, -1):
                v = ite(core.Eq(k, j), xs[j], v)
            return v
        return SSeq(builtins.len(xs), get, 'list')
    return user_seq(x)


def user_seq(x):
    """the sequence an object of the code under test iterates over, if it is symbolic"""
    f = getattr(type(x), '__iter__', None)
    if builtins.isinstance(f, types.FunctionType) and not hasattr(type(x), '__next__'):
        it = f(x)
        if type(it) is SIter:
            return it.rest()
        if issubclass(type(it), SSeq):
            return it
    return None


def is_symseq(x):
    """sequence with symbolic length"""
    if issubclass(type(x), SSeq):
        return not concrete(x.length)
    if type(x) is SIter:
        return True
    f = getattr(type(x), '__sseq__', None)
    if f is not None:
        s = f(x)
        return s is not None and not concrete(s.length)
    s = user_seq(x)
    return s is not None and not concrete(s.length)


# ------------------------------------------------------------------- builtins

@reg(builtins.len)
def len_(x):
    f = getattr(type(x), '__len__', None)
    if f is None:
        raise TypeError('object of type %r has no len()' % type(x).__name__)
    if builtins.isinstance(x, (list, tuple, dict, str, bytes, set)) and not issubclass(type(x), SSeq):
        return builtins.len(x) if type(x).__len__ in (list.__len__, tuple.__len__, dict.__len__, str.__len__, bytes.__len__, set.__len__) else f(x)
    return f(x)


@reg(builtins.int)
def int_(*a):
    if builtins.len(a) == 1:
        x = a[0]
        if is_sym(x):
            return core.trunc_(x)
        f = getattr(type(x), '__int__', None)
        if f is not None and not builtins.isinstance(x, (int, float)):
            return f(x)
        g = getattr(type(x), '__sym_int__', None)
        if g is not None:
            return g(x)
        if builtins.isinstance(x, core_float_base()):
            return core.trunc_(x._v)
        if f is None and not builtins.isinstance(x, (str, bytes)):
            raise TypeError('int() argument must be a string, a bytes-like object or a real number, not %r' % type(x).__name__)
        if type(x) in (str, bytes) and ('\ue000' in x if type(x) is str else '\ue000'.encode() in x):
            # the decimal form of one integer, read back
            from . import strings
            ps = strings.text(x if type(x) is str else x.decode())
            if builtins.len(ps) == 1 and isint(ps[0]):
                return ps[0]
            raise Unsupported('int() of formatted text')
    return builtins.int(*a)


@reg(builtins.float)
def float_(*a):
    if builtins.len(a) == 1:
        x = a[0]
        if is_sym(x):
            return wrap(zreal(x))
        g = getattr(type(x), '__sym_float__', None)
        if g is not None:
            return g(x)
        if builtins.isinstance(x, core_float_base()):
            f = type(x).__float__(x)
            return float_(f)
        f = getattr(type(x), '__float__', None)
        if f is not None and not builtins.isinstance(x, (int, float)):
            return f(x)
        if f is None and not builtins.isinstance(x, (str, bytes)):
            raise TypeError('float() argument must be a string or a real number, not %r' % type(x).__name__)
    return builtins.float(*a)


@reg(builtins.bool)
def bool_(*a):
    if a and type(a[0]) is SBool:
        return a[0]
    return builtins.bool(*a)


@reg(builtins.abs)
def abs_(x):
    return x.__abs__()


@reg(builtins.round)
def round_(x, nd=None):
    if is_sym(x):
        return core.round_(x, nd)
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


@reg(builtins.divmod)
def divmod_(a, b):
    return a // b, a % b


@reg(builtins.pow)
def pow_(a, b, *m):
    return a ** b if not m else builtins.pow(a, b, *m)


def _minmax(name, pick):
    orig = getattr(builtins, name)

    def f(*a, **k):
        key = k.pop('key', None)
        has_default = 'default' in k
        default = k.pop('default', None)
        if builtins.len(a) == 1:
            it = a[0]
            s = as_sseq(it)
            if s is not None and not concrete(s.length):
                if key is not None:
                    raise Unsupported('min/max with key over a symbolic sequence')
                return extremum(s, name)
            xs = list(it)
        else:
            xs = list(a)
        if not xs:
            if has_default:
                return default
            return orig(xs)
        best = xs[0]
        bk = key(best) if key else best
        for x in xs[1:]:
            xk = key(x) if key else x
            if key is None and isnum(x) and isnum(best):
                best = pick(best, x)
                bk = best
            else:
                c = (xk < bk) if name == 'min' else (xk > bk)
                if c:
                    best, bk = x, xk
        return best
    return f


def extremum(s, name):
    """min/max of a nonempty symbolic sequence of numbers: a bound that is attained"""
    c = ctx()
    if fork(zint(s.length) <= 0):
        raise ValueError('%s() arg is an empty sequence' % name)
    k = fresh_int('argx', 0, s.length)
    v = s.get(k)
    if not isnum(v):
        raise Unsupported('min/max of non numbers')
    register_extremum(name, s, v)
    return v


def register_extremum(name, s, v):
    """remember v bounds every element; instantiated at indices on demand"""
    c = ctx()
    j = z3.Int(c.fresh('jx'))
    try:
        def cmp():
            e = s.get(SInt(j))
            return core.compare('<=' if name == 'min' else '>=', v, e) if (is_sym(v) or is_sym(e)) else True
        zc = core.under(z3.And(j >= 0, j < zint(s.length)), cmp)
        c.add(z3.ForAll([j], z3.Implies(z3.And(j >= 0, j < zint(s.length)), zbool(zc))))
    except Unsupported:
        raise


BI[builtins.min] = _minmax('min', smin)
BI[builtins.max] = _minmax('max', smax)


@reg(builtins.sum)
def sum_(it, start=0):
    s = as_sseq(it)
    if s is not None and not concrete(s.length):
        from . import mnumpy
        return mnumpy.reduce_seq('sum', s) + start
    r = start
    for x in it:
        r = r + x
    return r


@reg(builtins.any)
def any_(it):
    s = as_sseq(it)
    if s is not None and not concrete(s.length):
        return quant('any', s)
    for x in it:
        if x:
            return True
    return False


@reg(builtins.all)
def all_(it):
    s = as_sseq(it)
    if s is not None and not concrete(s.length):
        return quant('all', s)
    for x in it:
        if not x:
            return False
    return True


def quant(kind, s):
    """any/all over a symbolic sequence: decided by fork; the fact is a quantified
    statement on one side and a witness on the other"""
    c = ctx()
    j = z3.Int(c.fresh('jq'))
    rng = z3.And(j >= 0, j < zint(s.length))
    e = core.under(rng, lambda: zbool(truth(s.get(SInt(j)))))
    body = z3.Implies(rng, z3.Not(e) if kind == 'any' else e)
    allq = z3.ForAll([j], body)
    return wrap(z3.Not(allq)) if kind == 'any' else wrap(allq)


class SRange(object):
    pass


@reg(builtins.range)
def range_(*a):
    a = [as_index(x) for x in a]
    if all(concrete(x) for x in a):
        return builtins.range(*a)
    if builtins.len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif builtins.len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    if not concrete(st):
        if fork(zint(st) == 0):
            raise ValueError('range() arg 3 must not be zero')
        pos = fork(zint(st) > 0)
    else:
        pos = st > 0
    d = (hi - lo + (st - 1)) // st if pos else (lo - hi + (-st - 1)) // (-st)
    if st == 1 if concrete(st) else False:
        d = hi - lo
    n = ite(d < 0, 0, d) if not concrete(d) else max(0, d)
    s = SSeq(n, lambda k: lo + k * st, 'range')
    s.start, s.stop, s.step = lo, hi, st
    return s


@reg(builtins.enumerate)
def enumerate_(it, start=0):
    s = as_sseq(it)
    if s is not None and not concrete(s.length):
        return SSeq(s.length, lambda k: (k + start, s.get(k)), 'gen')
    return builtins.enumerate(it, start)


@reg(builtins.zip)
def zip_(*its):
    ss = [as_sseq(i) for i in its]
    if any(s is not None and not concrete(s.length) for s in ss):
        if any(s is None for s in ss):
            raise Unsupported('zip of a symbolic sequence and an iterator')
        n = ss[0].length
        for s in ss[1:]:
            n = smin(n, s.length)
        return SSeq(n, lambda k: tuple(s.get(k) for s in ss), 'gen')
    return builtins.zip(*[list(i) if is_engine_iter(i) else i for i in its])


def is_engine_iter(x):
    return issubclass(type(x), SSeq)


@reg(builtins.map)
def map_(f, *its):
    ss = [as_sseq(i) for i in its]
    f = bi(f)
    if any(s is not None and not concrete(s.length) for s in ss):
        if any(s is None for s in ss):
            raise Unsupported('map over mixed iterables')
        n = ss[0].length
        for s in ss[1:]:
            n = smin(n, s.length)
        return SSeq(n, lambda k: f(*[s.get(k) for s in ss]), 'gen')
    return builtins.map(f, *its)


@reg(builtins.filter)
def filter_(f, it):
    if is_symseq(it):
        raise Unsupported('filter over a symbolic sequence')
    if f is None:
        return builtins.filter(None, it)
    f = bi(f)
    return builtins.filter(f, it)


def _copyseq(kind, orig):
    def f(*a):
        if a:
            s = None
            if not builtins.isinstance(a[0], (str, bytes, dict)) or issubclass(type(a[0]), SSeq):
                s = as_sseq(a[0])
            if s is not None and not concrete(s.length):
                return SSeq(s.length, s.get, kind)
            if s is not None and (issubclass(type(a[0]), SSeq)):
                return orig([s.get(i) for i in builtins.range(s.length)])
        return orig(*a)
    return f


BI[builtins.list] = _copyseq('list', builtins.list)
BI[builtins.tuple] = _copyseq('tuple', builtins.tuple)


@reg(builtins.reversed)
def reversed_(it):
    s = as_sseq(it)
    if s is not None and not concrete(s.length):
        n = s.length
        return SSeq(n, lambda k: s.get(n - 1 - k), 'gen')
    return builtins.reversed(it)


@reg(builtins.sorted)
def sorted_(it, key=None, reverse=False):
    if type(it) is SSet and key is None and not reverse:
        return it._members()
    s = as_sseq(it)
    if s is not None and not concrete(s.length):
        from . import mnumpy
        return mnumpy.sort_seq(s, key, reverse)
    xs = list(it)
    if any(is_sym(x) for x in xs) or key is not None:
        # insertion sort through the comparison operators (stable)
        out = []
        kf = key or (lambda x: x)
        for x in xs:
            k = kf(x)
            pos = builtins.len(out)
            while pos > 0:
                prev = kf(out[pos - 1])
                less = (prev < k) if reverse else (k < prev)
                if less:
                    pos -= 1
                else:
                    break
            out.insert(pos, x)
        return out
    return builtins.sorted(xs, reverse=reverse)


@reg(itertools.chain)
def chain_(*its):
    if any(is_symseq(x) for x in its):
        ss = [as_sseq(x if is_symseq(x) else list(x)) for x in its]
        r = ss[0]
        for q in ss[1:]:
            r = concat_seq(r, q, 'gen')
        return r
    return itertools.chain(*its)


@reg(builtins.iter)
def iter_(x, *a):
    if issubclass(type(x), SSeq) and not concrete(x.length):
        return SIter(x)
    s = getattr(type(x), '__sseq__', None)
    if s is not None:
        q = s(x)
        if q is not None and not concrete(q.length):
            return SIter(q)
    return builtins.iter(x, *a)


@reg(builtins.isinstance)
def isinstance_(x, t):
    return builtins.isinstance(x, t)


def element_classes(s):
    """the classes in a symbolic sequence of classes, or None for any other sequence"""
    seen = []

    def elem():
        v = s.get(core.SInt(k))
        seen.append(v)
        return 0
    c = core.ctx()
    k = z3.Int(c.fresh('k'))
    try:
        core.under(z3.And(k >= 0, k < zint(s.length)), elem)
    except Unsupported:
        return None
    if not seen or not builtins.all(builtins.isinstance(v, type) for v in seen):
        return None
    return list(builtins.dict.fromkeys(seen))


@reg(builtins.set)
def set_(*a):
    if a:
        s = as_sseq(a[0]) if not builtins.isinstance(a[0], (str, bytes, set, dict)) else None
        if s is not None and (not concrete(s.length)):
            ts = element_classes(s)
            if ts is not None:
                if fork(zint(s.length) <= 0):
                    return builtins.set()
                if len(ts) == 1:
                    return builtins.set(ts)
                raise Unsupported('elements of several classes')
            return SSet.from_seq(s)
        xs = list(a[0])
        if any(is_sym(x) for x in xs):
            return SSet.from_seq(as_sseq(xs))
        return SSet.concrete(xs) if SSet.always else builtins.set(xs)
    return SSet.concrete([]) if SSet.always else builtins.set()


def hash_parts(x):
    """the symbolic numbers hash(x) is computed from"""
    c = ctx()
    c.hashed = []
    try:
        builtins.hash(x)
        return c.hashed
    finally:
        c.hashed = None


class SDict(object):
    """a dict built from a symbolic sequence of pairs (keys with consistent __eq__ and __hash__): the last pair with an
    equal key counts"""

    def __init__(self, s):
        self.s = s

    @property
    def __class__(self):
        return builtins.dict

    def _find(self, key):
        """index of the last pair whose key equals key, or None"""
        h = hash_parts(key)
        if concrete(self.s.length):
            for i in builtins.range(self.s.length - 1, -1, -1):
                if self.s.get(i)[0] == key:
                    return self._same_hash(i, h)
            return None
        c, N = ctx(), zint(self.s.length)
        eq = lambda t: zbool(truth(self.s.get(SInt(t))[0] == key))
        i = self._known(h, eq, N)
        if i is not None:
            return self._same_hash(i, h)
        i = core.fresh_int('key')
        found = z3.And(zint(i) >= 0, zint(i) < N)
        present = core.Bool(c.fresh('present'))
        v = z3.Int(c.fresh('q'))
        body = core.under(z3.And(0 <= v, v < N), lambda: eq(v))
        c.add(z3.Implies(zbool(present), z3.And(found, z3.substitute(body, (v, zint(i))))))
        rng = z3.And(v < N, v >= 0, z3.Or(z3.Not(zbool(present)), v > zint(i)))
        fact = core.quantify(v, rng, z3.Not(body))
        if fact is None:
            raise Unsupported('no trigger for a lookup')
        c.add(fact)
        if not fork(zbool(present)):
            return None
        return self._same_hash(i, h)

    def _known(self, parts, eq, N):
        """the index of the key, if it is known to be that of the last equal key"""
        from . import mnumpy
        v = z3.Int('lookup')
        try:
            body = core.under(z3.And(0 <= v, v < N), lambda: eq(v))
        except Unsupported:
            return None
        for t, d in core.triggers(body, v):
            for p in parts:
                for a in core.applications(core.znum(p), t.decl()):
                    k = next(k for k in builtins.range(t.num_args()) if not core.occurs(t.arg(k), v) is False)
                    i = z3.simplify(a.arg(k) - d)
                    if mnumpy.entails(z3.And(0 <= i, i < N, z3.substitute(body, (v, i)))) and \
                            mnumpy.entails(z3.Implies(z3.And(i < v, v < N), z3.Not(body))):
                        return SInt(i)
        return None

    def _same_hash(self, i, h):
        g = hash_parts(self.s.get(i)[0])
        core.prove(core.And(builtins.len(g) == builtins.len(h), *[core.Eq(a, b) for a, b in builtins.zip(g, h)]), 'equal keys have equal hashes')
        return i

    def __getitem__(self, key):
        i = self._find(key)
        if i is None:
            raise KeyError(key)
        return self.s.get(i)[1]

    def get(self, key, default=None):
        i = self._find(key)
        return default if i is None else self.s.get(i)[1]

    def __contains__(self, key):
        return self._find(key) is not None

    def __bool__(self):
        return self.s.__bool__()

    def __iter__(self):
        raise Unsupported('iteration over a symbolic dict')

    def __getattr__(self, k):
        raise Unsupported('dict.' + k)


class KDict(dict):
    """a dict whose keys may be symbolic: those are found by comparison"""

    def _at(self, key):
        """('plain', key), or the position among the symbolic keys, or None"""
        sym = self.__dict__.setdefault('sym', [])
        if not hash_parts(key):
            if dict.__contains__(self, key):
                return 'plain', key
        else:
            for k in dict.keys(self):
                if k == key:
                    return 'plain', k
        for i, (k, v) in builtins.enumerate(sym):
            if k == key:
                return 'sym', i
        return None

    def __getitem__(self, key):
        at = self._at(key)
        if at is None:
            e = KeyError(key)
            e.modelled = True
            raise e
        return dict.__getitem__(self, at[1]) if at[0] == 'plain' else self.sym[at[1]][1]

    def __setitem__(self, key, value):
        at = self._at(key)
        if at is None and not hash_parts(key):
            return dict.__setitem__(self, key, value)
        if at is None:
            return self.sym.append((key, value))
        if at[0] == 'plain':
            return dict.__setitem__(self, at[1], value)
        self.sym[at[1]] = self.sym[at[1]][0], value

    def __contains__(self, key):
        return self._at(key) is not None

    def get(self, key, default=None):
        return self[key] if key in self else default

    def setdefault(self, key, default=None):
        if key not in self:
            self[key] = default
        return self[key]

    def __delitem__(self, key):
        at = self._at(key)
        if at is None:
            raise KeyError(key)
        if at[0] == 'plain':
            dict.__delitem__(self, at[1])
        else:
            del self.sym[at[1]]

    def _only_plain(self):
        if self.__dict__.get('sym'):
            raise Unsupported('this use of a dict with symbolic keys')

    def __len__(self):
        self._only_plain()
        return dict.__len__(self)

    def __bool__(self):
        return builtins.bool(self.__dict__.get('sym')) or dict.__len__(self) > 0


def _plain_only(name):
    f = getattr(dict, name)

    def g(self, *a, **k):
        self._only_plain()
        return f(self, *a, **k)
    setattr(KDict, name, g)


for _n in ('__iter__', 'keys', 'values', 'items', 'pop', 'popitem', 'update', 'copy', '__eq__', '__ne__', '__repr__'):
    _plain_only(_n)


@reg(builtins.dict)
def dict_(*a, **k):
    if not a and not k:
        return KDict()
    if len(a) == 1 and not k and is_symseq(a[0]):
        core.trust('dict: lookup by equality of keys; the last of equal keys counts')
        return SDict(as_sseq(a[0]))
    if len(a) == 1 and not k and not builtins.isinstance(a[0], dict):
        pairs = builtins.list(a[0])
        if builtins.any(builtins.len(p) == 2 and hash_parts(p[0]) for p in pairs):
            return SDict(as_sseq(pairs))
        return builtins.dict(pairs)
    return builtins.dict(*a, **k)


class SSet(object):
    """a set of integers, all of them between lo (inclusive) and hi (exclusive), given by its characteristic function"""
    always = False

    def __init__(self, lo, hi, has):
        self.lo, self.hi, self.has = lo, hi, has

    @property
    def __class__(self):
        return builtins.set

    @classmethod
    def concrete(cls, xs):
        xs = builtins.list(xs)
        if xs:
            return builtins.set(xs)
        return cls(0, 0, lambda k: False)

    @classmethod
    def from_seq(cls, s):
        r = cls.concrete([])
        r.update(s)
        return r

    def _members(self):
        """the members in increasing order"""
        c = ctx()
        lo, hi, has = self.lo, self.hi, self.has
        s = SSeq(ite(hi > lo, hi - lo, 0), lambda k: lo + k, 'gen')
        v = z3.Int('member')
        rng = z3.And(v >= zint(lo), v < zint(hi))
        body = core.under(rng, lambda: zbool(truth(has(SInt(v)))))
        from . import mnumpy
        for l, h, b, q in c.selections:
            if mnumpy.entails(z3.And(zint(lo) == l, zint(hi) == h)) and (b.eq(body) or mnumpy.entails(z3.Implies(rng, b == body))):
                return q
        q = SFilter(s, lambda k: has(k), lambda k: k, 'list').seq()
        f = q.filter
        w = z3.Int('fw')
        # as many members as there are numbers: all of them, each at its own place
        c.add(z3.Implies(f.n == zint(s.length), z3.ForAll([w], z3.Implies(
            z3.And(w >= 0, w < f.n), z3.And(f.pos(w) == w, z3.substitute(body, (v, w + zint(lo))))), patterns=[f.pos(w)])))
        c.selections.append((zint(lo), zint(hi), body, q))
        return q

    @property
    def length(self):
        return self._members().length

    def __len__(self):
        return self._members().length

    def __bool__(self):
        return fork(zint(self.length) != 0)

    def __contains__(self, x):
        if not isint(x):
            raise Unsupported('membership of other than an integer')
        return builtins.bool(core.And(x >= self.lo, x < self.hi, self.has(x)))

    def __sseq__(self):
        """the members in some order"""
        from . import mnumpy
        q = self._members()
        P, _ = mnumpy.permutation(q.length, 'order')
        return SSeq(q.length, lambda k: q.get(mnumpy.ranged(SInt(P(zint(k))), k, q.length)), 'gen')

    def __iter__(self):
        return SIter(self.__sseq__())

    def _bounds(self, lo, hi):
        """make room for numbers from lo to hi"""
        if concrete(self.hi) and concrete(self.lo) and self.hi <= self.lo:
            self.lo, self.hi = lo, hi
            return
        from . import mnumpy
        if not mnumpy.entails(zbool(core.And(self.lo <= lo, hi <= self.hi))):
            old, l, h = self.has, self.lo, self.hi
            self.lo, self.hi = ite(l < lo, l, lo), ite(h > hi, h, hi)
            self.has = lambda k: core.And(k >= l, k < h, old(k))

    def update(self, *its):
        from . import mnumpy
        for it in its:
            s = as_sseq(it)
            if s is None:
                s = as_sseq(builtins.list(it))
            j = z3.Int('added')
            rng = z3.And(j >= 0, j < zint(s.length))
            lo, hi = None, None
            for a, b, _ in [(self.lo, self.hi, None)] + ctx().draws:
                v = core.under(rng, lambda: zint(s.get(SInt(j))))
                if mnumpy.entails(z3.Implies(rng, z3.And(v >= zint(a), v < zint(b)))):
                    lo, hi = a, b
                    break
            if lo is None:
                raise Unsupported('numbers of unknown range added to a set')
            self._bounds(lo, hi)
            old = self.has
            if concrete(s.length) and s.length <= 8:
                xs = [s.get(k) for k in builtins.range(s.length)]
                self.has = lambda k, old=old, xs=xs: core.Or(old(k), *[core.Eq(x, k) for x in xs])
            else:
                lw = mnumpy.LastWrite([s.get], s.length, [None])
                self.has = lambda k, old=old, lw=lw: core.Or(old(k), lw.hit(k))

    def add(self, x):
        self.update([x])

    def __getattr__(self, k):
        raise Unsupported('set.' + k)


@reg(builtins.str)
def str_(*a):
    if builtins.len(a) == 1:
        g = getattr(type(a[0]), '__sym_str__', None)
        if g is not None:
            return g(a[0])
    return builtins.str(*a)


@reg(builtins.print)
def print_(*a, **k):
    return None


@reg(builtins.hash)
def hash_(x):
    return builtins.hash(x)


@reg(builtins.type)
def type_(*a):
    if builtins.len(a) == 1:
        x = a[0]
        if is_sym(x) or issubclass(type(x), SSeq):
            return x.__class__
    return builtins.type(*a)


# -------------------------------------------------------- float base (Hertz)

class EFloat(object):
    """stands in for `float` as a base class: a boxed real"""

    def __new__(cls, x=0.0):
        o = object.__new__(cls)
        o._v = float_(x)
        return o

    def __init__(self, *a):
        pass

    def __float__(self):
        return self._v

    def __sym_float__(self):
        f = type(self).__float__(self)
        return f._v if builtins.isinstance(f, EFloat) else f

    def _o(self, o):
        return o._v if builtins.isinstance(o, EFloat) else o

    def __neg__(self): return -self._v
    def __abs__(self): return abs_(self._v)
    def __bool__(self): return builtins.bool(self._v != 0)
    def __hash__(self): return builtins.hash(self._v)
    def __repr__(self): return 'EFloat(%r)' % (self._v,)
    def __format__(self, s): return '<float>'


def _mk(op):
    import operator
    f = getattr(operator, op)

    def fwd(self, o):
        o = self._o(o)
        if not isnum(o):
            return NotImplemented
        return f(self._v, o)

    def rev(self, o):
        o = self._o(o)
        if not isnum(o):
            return NotImplemented
        return f(o, self._v)
    return fwd, rev


for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow'):
    _f, _r = _mk(_n)
    setattr(EFloat, '__%s__' % _n, _f)
    setattr(EFloat, '__r%s__' % _n, _r)
for _n in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
    setattr(EFloat, '__%s__' % _n, _mk(_n)[0])


def core_float_base():
    return EFloat


def base(cls):
    return EFloat if cls is builtins.float else cls


# ---------------------------------------------------------------- comprehension

def comp(kind, it, f, cond):
    if is_symseq(it):
        s = as_sseq(it)
        if kind == 'set' and cond is None:
            return _same_for_all(s, f)
        if kind in ('dict', 'set'):
            raise Unsupported('%s comprehension over a symbolic sequence' % kind)
        if cond is not None:
            return SFilter(s, cond, f, kind).seq()
        return SSeq(s.length, lambda k: f(s.get(k)), 'list' if kind == 'list' else 'gen')
    if issubclass(type(it), SSeq):
        it = [it.get(i) for i in builtins.range(it.length)]
    if kind == 'list':
        return [f(x) for x in it if cond is None or cond(x)]
    if kind == 'gen':
        return _gen(it, f, cond)
    if kind == 'set':
        return builtins.set(f(x) for x in it if cond is None or cond(x))
    return dict(f(x) for x in it if cond is None or cond(x))


def _same_for_all(s, f):
    """{f(x) for x in s} where f(x) is the same element type for every x: evaluated for an arbitrary one"""
    if not fork(zbool(s.length > 0)):
        return builtins.set()
    k = z3.Int(core.ctx().fresh('any'))
    seen = builtins.set()

    def one():
        v = f(s.get(SInt(k)))
        if type(v).__name__ != 'dtype':
            raise Unsupported('set comprehension over a symbolic sequence')
        seen.add(v)
        return SInt(z3.IntVal(0))
    core.under(z3.And(k >= 0, k < zint(s.length)), one)
    if len(seen) != 1:
        raise Unsupported('set comprehension over a symbolic sequence')
    return seen


def _gen(it, f, cond):
    for x in it:
        if cond is None or cond(x):
            yield f(x)


class SFilter(object):
    """[f(x) for x in s if cond(x)]: an order preserving injection onto the kept positions.
    pos(j) is the source position of the j-th kept element, rank(i) the target position of
    kept source position i."""

    def __init__(self, s, cond, f, kind):
        self.s, self.cond, self.f, self.kind = s, cond, f, kind
        c = ctx()
        nm = c.fresh('filt')
        self.pos = z3.Function(nm + '.pos', z3.IntSort(), z3.IntSort())
        self.rank = z3.Function(nm + '.rank', z3.IntSort(), z3.IntSort())
        self.n = z3.Int(nm + '.n')
        core.trust('comprehension filter: order-preserving bijection onto the kept positions')
        i, j, k = z3.Ints('fi fj fk')
        N = zint(s.length)
        c.add(z3.And(self.n >= 0, self.n <= N))

        def keep(t):
            return core.under(z3.And(0 <= t, t < N), lambda: zbool(truth(cond(s.get(SInt(t))))))
        pj = self.pos(j)
        self.keepz = keep
        kp = keep(i)
        c.add(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < self.n), z3.And(0 <= pj, pj < N, self.rank(pj) == j)), patterns=[pj]))
        jj = z3.Int('fjj')
        c.add(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j < k, k < self.n), self.pos(j) < self.pos(k)),
                        patterns=[z3.MultiPattern(self.pos(j), self.pos(k))]))
        c.add(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N, kp),
                                        z3.And(0 <= self.rank(i), self.rank(i) < self.n, self.pos(self.rank(i)) == i)),
                        patterns=[self.rank(i)]))
        kpj = keep(self.pos(jj))
        c.add(z3.ForAll([jj], z3.Implies(z3.And(0 <= jj, jj < self.n), kpj), patterns=[self.pos(jj)]))
        c.maps.append((self.pos, self.rank))

    def seq(self):
        s, f, pos = self.s, self.f, self.pos
        r = SSeq(wrap(self.n), lambda k: f(s.get(SInt(pos(zint(k))))), 'list' if self.kind == 'list' else 'gen')
        r.filter = self
        return r


def truth(x):
    """truth value as a term where possible"""
    if type(x) in (bool, SBool):
        return x
    if is_sym(x):
        return wrap(zbool(x))
    return builtins.bool(x)


# ------------------------------------------------------------------ collecting loops

GROWING = set()      # modules in which an empty list literal makes a GList


class GList(SSeq):
    """a list that may grow by a symbolic number of elements"""

    def __init__(self):
        SSeq.__init__(self, 0, self._none)
        self.since = ctx().tick()

    @staticmethod
    def _none(k):
        raise IndexError('list index out of range')

    @property
    def __class__(self):
        return list

    def append(self, x):
        self.extend([x])

    def extend(self, xs):
        s = as_sseq(xs)
        if s is None:
            s = as_sseq(builtins.list(xs))
        s = SSeq(s.length, s.get)          # as it is now
        if ctx().collecting and self.since < ctx().collecting[-1].since:
            ctx().collecting[-1].record(self, s)
            return
        if concrete(self.length) and self.length == 0:
            self.length, self.get = s.length, s.get
        else:
            r = concat_seq(SSeq(self.length, self.get), s)
            self.length, self.get = r.length, r.get

    def __iadd__(self, xs):
        self.extend(xs)
        return self


def list_literal(mod):
    return GList() if mod in GROWING else []


class Collector(object):
    def __init__(self, s):
        self.s = s

    def add(self, target, how, x):
        if type(target) is not GList:
            raise Unsupported('a loop that adds elements to something else than a list')
        getattr(target, how)(x)

    def record(self, target, s):
        self.got.append((target, s))

    def _run(self, k):
        c = ctx()
        self.since, self.got = c.tick(), []
        c.collecting.append(self)
        try:
            self.body(self.s.get(k))
        except UnboundLocalError:
            raise Unsupported('a loop whose iterations depend on each other')
        finally:
            c.collecting.pop()
        return self.got

    def run(self, body):
        c, self.body, self.known = ctx(), body, {}
        N = self.s.length
        if fork(zint(N) <= 0):
            return
        got = []
        it = z3.Int('it.generic%d' % len(c.collecting))
        try:
            core.under(z3.And(it >= 0, it < zint(N)), lambda: got.__setitem__(slice(None), self._run(SInt(it))) or 0)
        except Unsupported:
            if c.local is not None or c.collecting:
                raise
            got = self._run(fresh_int('it', 0, N))
        targets = list({id(t): t for t, _ in got}.values())
        for t in targets:
            mine = [s for u, s in got if u is t]
            if any(not concrete(s.length) for s in mine):
                from . import mnumpy
                t.extend(mnumpy.flatten_seq(N, lambda k, t=t: self._piece(k, t)))
            else:
                m = sum(s.length for s in mine)
                t.extend(SSeq(N * m, (lambda k, t=t: self._piece(k, t).get(0)) if m == 1 else
                              (lambda k, t=t, m=m: self._piece(k // m, t).get(k % m))))

    def _at(self, k):
        """what element k adds (worked out once)"""
        key = z3.simplify(zint(k))
        hit = self.known.get(key.get_id())
        if hit is None:
            hit = key, self._run(k)
            if ctx().local is None:
                self.known[key.get_id()] = hit
        return hit[1]

    def _piece(self, k, t):
        r = None
        for u, s in self._at(k):
            if u is t:
                r = s if r is None else concat_seq(r, s)
        if r is None:
            raise Unsupported('a loop that adds different numbers of elements')
        return r


def collect(it, mod, qual, k):
    if mod not in GROWING or R.contracts.get((qual, k)) is not None or not is_symseq(it):
        return None
    core.trust('a loop that only adds elements to lists: element by element')
    return Collector(as_sseq(it))


# ------------------------------------------------------------------ loop cuts

class LoopContract(object):
    """inv(st) -> list of conditions; havoc: dict local name -> f(st) giving a fresh value;
    objs(st): havoc mutable objects reachable from st (called before inv is assumed)."""

    def __init__(self, inv, havoc=None, objs=None, target=None):
        self.inv, self.havoc, self.objs = inv, havoc or {}, objs


class St(object):
    def __init__(self, d, i, n, entry, item=None):
        self.__dict__.update(d)
        self._i, self._n, self._entry = i, n, entry
        self._d = d

    def __getattr__(self, k):
        raise Unsupported('loop contract refers to %s, which the loop does not have' % k)


class PlainLoop(object):
    cut = False

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return builtins.iter(self.it)


class CutLoop(object):
    cut = True

    def __init__(self, seq, qual, k, contract):
        self.seq, self.name, self.c = seq, '%s loop %d' % (qual, k), contract
        self.phase = 'start'
        R.loops_cut.add(self.name)

    def __iter__(self):
        return self

    def __next__(self):
        fr = sys._getframe(1)
        loc = dict(fr.f_locals)
        if self.phase == 'start':
            self.entry = loc
            self.n = self.seq.length
            for j, cond in enumerate(self.c.inv(St(loc, 0, self.n, loc))):
                core.prove(cond, '%s invariant %d holds on entry' % (self.name, j))
            if core.choose('iterate'):
                self.phase = 'body'
                self.i = fresh_int('it', 0, self.n)
                if core.feasible() == z3.unsat:
                    raise PathDone('empty loop')
                return self.seq.get(self.i)
            self.phase = 'exhausted'
            raise StopIteration
        # end of the arbitrary iteration
        for j, cond in enumerate(self.c.inv(St(loc, self.i + 1, self.n, self.entry))):
            core.prove(cond, '%s invariant %d is preserved' % (self.name, j))
        raise PathDone('loop cut')

    def _fresh(self, loc, names, i):
        st = St(loc, i, self.n, self.entry)
        for n in names:
            if n in self.c.havoc:
                loc[n] = self.c.havoc[n](st)
        st = St(loc, i, self.n, self.entry)
        if self.c.objs:
            self.c.objs(st)
        for cond in self.c.inv(st):
            core.assume(cond)
        return tuple(loc.get(n, UNDEF) for n in names)

    def havoc(self, loc, names):
        missing = [n for n in names if n in self.entry and n not in self.c.havoc and loc.get(n) is self.entry.get(n)
                   and n not in self.c.havoc]
        missing = [n for n in missing if n in self.entry]
        if missing:
            raise Unsupported('loop contract for %s does not cover assigned variables %s' % (self.name, missing))
        return self._fresh(dict(loc), names, self.i)

    def exit(self, loc, names):
        if self.phase == 'body':      # left by break
            return tuple(loc.get(n, UNDEF) for n in names)
        return self._fresh(dict(loc), names, self.n)


class Undef(object):
    def __getattr__(self, k):
        raise Unsupported('variable only assigned inside a cut loop')


UNDEF = Undef()


def loop(it, qual, k):
    if not is_symseq(it):
        return PlainLoop(it)
    s = as_sseq(it)
    con = R.contracts.get((qual, k))
    if con is None:
        return PlainLoop(s)      # SIter forks a few times, then gives up
    return CutLoop(s, qual, k, con)


class PlainWhile(object):
    cut = False

    def more(self, loc):
        return True


class CutWhile(object):
    cut = True

    def __init__(self, qual, k, contract):
        self.name, self.c = '%s while %d' % (qual, k), contract
        self.phase = 'start'
        R.loops_cut.add(self.name)

    def more(self, loc):
        if self.phase == 'start':
            self.entry = dict(loc)
            for j, cond in enumerate(self.c.inv(St(loc, None, None, loc))):
                core.prove(cond, '%s invariant %d holds on entry' % (self.name, j))
            self.phase = 'body'
            return True
        for j, cond in enumerate(self.c.inv(St(dict(loc), None, None, self.entry))):
            core.prove(cond, '%s invariant %d is preserved' % (self.name, j))
        raise PathDone('loop cut')

    def havoc(self, loc, names):
        loc = dict(loc)
        missing = [n for n in names if n in self.entry and n not in self.c.havoc]
        if missing:
            raise Unsupported('loop contract for %s does not cover assigned variables %s' % (self.name, missing))
        st = St(loc, None, None, self.entry)
        for n in names:
            if n in self.c.havoc:
                loc[n] = self.c.havoc[n](st)
        st = St(loc, None, None, self.entry)
        if self.c.objs:
            self.c.objs(st)
        for cond in self.c.inv(st):
            core.assume(cond)
        return tuple(loc.get(n, UNDEF) for n in names)


def wloop(qual, k):
    con = R.contracts.get((qual, k))
    return PlainWhile() if con is None else CutWhile(qual, k, con)


def enter(qual):
    R.functions.add(qual)


def install():
    from . import loader
    loader.HOOKS.update(__bi__=bi, __comp__=comp, __loop__=loop, __wloop__=wloop, __enter__=enter, __base__=base, __list__=list_literal, __collect__=collect)


install()


# EFloat participates in core arithmetic ------------------------------------

_isnum0 = core.isnum


def _isnum(x):
    return _isnum0(x) or builtins.isinstance(x, EFloat)


core.isnum = _isnum
isnum = _isnum
_zreal0 = core.zreal


def _zreal(x):
    if builtins.isinstance(x, EFloat):
        x = x._v
    return _zreal0(x)


core.zreal = _zreal
zreal = _zreal
