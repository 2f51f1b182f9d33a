"""Symbolic execution core: path exploration, proxies, obligations.

Values: SInt (mathematical integers), SReal (reals standing for floats), SBool,
SBV (fixed width words).  Concrete numbers stay concrete.  Control flow on a
symbolic boolean forks the path; every feasible path is explored (the target is
re-executed with a decision prefix).
"""
import builtins
import sys
import time
from fractions import Fraction

import z3

from . import nl

z3.set_param('smt.random_seed', 1)


class Unsupported(BaseException):
    """The verified subset does not include this construct: undecided."""


class PathDone(BaseException):
    """The current path ends here (infeasible, or cut by a loop contract)."""


class Budget(BaseException):
    """Path or time budget exhausted: undecided."""


class Ctx(object):
    def __init__(self, prefix):
        self.prefix = prefix
        self.trace = []
        self.pending = []
        self.pc = []
        self.counter = {}
        self.inputs = {}
        self.solver = z3.Solver()
        self.solver.set('timeout', R.feas_timeout)
        self.solver.set('arith.nl', False)
        self.solver.set('mbqi', False)
        self.divs = []
        self.maps = []
        self.running = []
        self.lemkeys = set()
        self.divcache = {}
        self.keep = []
        self.reds = []
        self.notes = []
        self.covered = False
        self.axioms = []
        self.hashed = None
        self.local = None
        self.strings = False
        self.collecting = []
        self.draws = []
        self.selections = []
        self.norms = []
        self.ticks = 0

    def tick(self):
        self.ticks += 1
        return self.ticks

    def fresh(self, prefix):
        n = self.counter.get(prefix, 0)
        self.counter[prefix] = n + 1
        return '%s!%d' % (prefix, n)

    def add(self, c):
        if c is True or z3.is_true(c):
            return
        if c is False:
            c = z3.BoolVal(False)
        self.pc.append(c)
        self.solver.add(c)


class Obligation(object):
    def __init__(self, name):
        self.name = name
        self.paths = 0
        self.proved = 0
        self.backends = {}
        self.refuted = []       # list of (model values, detail)
        self.unknown = []       # list of reasons
        self.time = 0.0


class Run(object):
    """Everything accumulated over one property's specs."""

    def __init__(self):
        self.obligations = {}
        self.functions = set()
        self.trusted = set()
        self.assumptions = set()
        self.solver_time = 0.0
        self.queries = 0
        self.paths = 0
        self.undecided = []     # (spec, reason)
        self.feas_timeout = 2000
        self.prove_timeout = 20000
        self.nl_timeout = 300
        self.force_nl = True
        self.covers = {}
        self.deadline = None
        self.spec = None
        self.contracts = {}     # loop contracts by (qualname, ordinal)
        self.loops_cut = set()

    def ob(self, name):
        if name not in self.obligations:
            self.obligations[name] = Obligation(name)
        return self.obligations[name]


R = Run()
C = None  # current path context


def ctx():
    if C is None:
        raise RuntimeError('no symbolic context')
    return C


def trust(name):
    R.trusted.add(name)


def assumption(text):
    R.assumptions.add(text)


# ---------------------------------------------------------------- raw values

def is_sym(x):
    t = type(x)
    return t is SInt or t is SReal or t is SBool or t is SBV


def fz(x):
    """python number -> z3 real"""
    if type(x) is float:
        if x != x or x in (float('inf'), float('-inf')):
            raise Unsupported('non-finite float constant')
        x = Fraction(x)
    if isinstance_(x, Fraction):
        return z3.RealVal(str(x))
    return z3.RealVal(x)


isinstance_ = builtins.isinstance


def zint(x):
    t = type(x)
    if t is SInt:
        return x.z
    if t is bool:
        return z3.IntVal(1 if x else 0)
    if t is int:
        return z3.IntVal(x)
    if t is SBool:
        return z3.If(x.z, z3.IntVal(1), z3.IntVal(0))
    if t is SBV:
        return z3.BV2Int(x.z)
    raise Unsupported('not an integer: %r' % (t,))


def zreal(x):
    t = type(x)
    if t is SReal:
        return x.z
    if t is SInt:
        return z3.ToReal(x.z)
    if t is SBool:
        return z3.If(x.z, z3.RealVal(1), z3.RealVal(0))
    if t is bool:
        return z3.RealVal(1 if x else 0)
    if t in (int, float) or isinstance_(x, Fraction):
        return fz(x)
    if isinstance_(x, float):       # Hertz and friends (concrete subclasses)
        return fz(builtins.float.__float__(x))
    raise Unsupported('not a number: %r' % (t,))


def zbool(x):
    t = type(x)
    if t is SBool:
        return x.z
    if t is bool:
        return z3.BoolVal(x)
    if t is SInt:
        return x.z != 0
    if t is SReal:
        return x.z != 0
    if z3.is_bool(x) if z3.is_expr(x) else False:
        return x
    raise Unsupported('not a boolean: %r' % (t,))


def znum(x):
    """z3 arithmetic term keeping int-ness."""
    t = type(x)
    if t in (SInt, SReal, SBool, SBV):
        if t is SBool:
            return zint(x)
        if t is SBV:
            return z3.BV2Int(x.z)
        return x.z
    if t in (bool, int):
        return zint(x)
    return zreal(x)


def wrap(z):
    """z3 term -> proxy or concrete python value"""
    if z3.is_bool(z):
        z = z3.simplify(z)
        if z3.is_true(z):
            return True
        if z3.is_false(z):
            return False
        return SBool(z)
    if z3.is_bv(z):
        return SBV(z)
    if z.sort() == z3.IntSort():
        z = z3.simplify(z)
        if z3.is_int_value(z):
            return z.as_long()
        return SInt(z)
    if z.sort() == z3.RealSort():
        z = z3.simplify(z)
        return SReal(z)
    raise Unsupported('sort %s' % z.sort())


def isnum(x):
    return is_sym(x) or isinstance_(x, (int, float, bool, Fraction))


def isint(x):
    t = type(x)
    return t in (SInt, int, bool, SBool)


# ------------------------------------------------------------------- proxies

def _intop(op):
    def f(self, other):
        r = arith(op, self, other)
        return r
    return f


def _rintop(op):
    def f(self, other):
        return arith(op, other, self)
    return f


def arith(op, a, b):
    if not isnum(b) or not isnum(a):
        if op == '*' and (type(a) is bytes and isint(b) or type(b) is bytes and isint(a)):
            from . import deps
            return deps.repeated(a, b) if type(a) is bytes else deps.repeated(b, a)
        return NotImplemented
    if type(a) is SBV or type(b) is SBV:
        return bvarith(op, a, b)
    if not is_sym(a) and not is_sym(b):
        raise RuntimeError('concrete arith')
    ints = isint(a) and isint(b)
    if op == '+':
        return wrap(zint(a) + zint(b) if ints else zreal(a) + zreal(b))
    if op == '-':
        return wrap(zint(a) - zint(b) if ints else zreal(a) - zreal(b))
    if op == '*':
        return wrap(zint(a) * zint(b) if ints else zreal(a) * zreal(b))
    if op == '/':
        return rdiv(a, b)
    if op == '//':
        if ints:
            return idiv(a, b)[0]
        q = rdiv(a, b)
        return floor_(q) if not is_sym(q) else wrap(z3.ToReal(_floorz(zreal(q))))
    if op == '%':
        if ints:
            return idiv(a, b)[1]
        q = rdiv(a, b)
        return a - b * wrap(z3.ToReal(_floorz(zreal(q))))
    if op == '**':
        return power(a, b)
    raise Unsupported('operator ' + op)


def power(a, b):
    if not is_sym(b):
        if float(b) == int(b) and 0 <= b <= 6:
            n = int(b)
            r = 1
            for _ in builtins.range(n):
                r = r * a
            if type(b) is float and isint(r):
                r = wrap(zreal(r))
            return r
        if b == 0.5:
            return sqrt_(a)
        if float(b) == int(b) and b < 0:
            return rdiv(1, power(a, -b))
    raise Unsupported('power with exponent %r' % (b,))


BEFORE_SQRT = []


def sqrt_(a):
    c = ctx()
    if not is_sym(a):
        if a == 0 or a == 1:
            return float(a)
    key = ('sqrt', zreal(a).get_id())
    if key in c.divcache:
        return c.divcache[key]
    for f in BEFORE_SQRT:
        f()
    if fork(zreal(a) < 0):
        raise Unsupported('square root of a negative number')
    y = z3.Real(c.fresh('sqrt'))
    c.keep.append(zreal(a))
    c.add(y >= 0)
    c.add(y * y == zreal(a))
    r = SReal(y)
    c.divcache[key] = r
    return r


def idiv(a, b):
    """floor division and modulus of integers"""
    c = ctx()
    if not is_sym(b):
        b = int(b)
        if b == 0:
            raise ZeroDivisionError('integer division or modulo by zero')
        za = zint(a)
        if b > 0:
            return wrap(za / b), wrap(za % b)
        q = wrap((-za) / (-b))
        return q, a - q * b
    za, zb = z3.simplify(zint(a)), z3.simplify(zint(b))
    key = ('i', za.get_id(), zb.get_id())
    if key in c.divcache:
        return c.divcache[key]
    if fork(zb == 0):
        raise ZeroDivisionError('integer division or modulo by zero')
    if z3.eq(za, zb):
        return 1, 0
    short = _row_major(za, zb)
    if short is not None:
        return short
    q = z3.Int(c.fresh('q'))
    r = z3.Int(c.fresh('r'))
    c.keep += [za, zb]
    c.add(za == zb * q + r)
    c.add(z3.If(zb > 0, z3.And(0 <= r, r < zb), z3.And(zb < r, r <= 0)))
    # redundant facts that help the nonlinear solver
    c.add(z3.Implies(z3.And(zb > 0, za >= 0), z3.And(q >= 0, q <= za)))
    c.add(z3.Implies(z3.And(zb > 0, za >= zb), q >= 1))
    c.add(z3.Implies(z3.And(zb > 0, za >= 0, za < zb), q == 0))
    res = (SInt(q), SInt(r))
    c.divs.append(('i', za, zb, q, r))
    c.divcache[key] = res
    return res


def rdiv(a, b):
    c = ctx()
    if not is_sym(b):
        if b == 0:
            raise ZeroDivisionError('division by zero')
        fb = Fraction(b) if not isinstance_(b, Fraction) else b
        return wrap(zreal(a) * fz(1 / fb))
    za, zb = z3.simplify(zreal(a)), z3.simplify(zreal(b))
    key = ('r', za.get_id(), zb.get_id())
    if key in c.divcache:
        return c.divcache[key]
    if fork(zb == 0):
        raise ZeroDivisionError('division by zero')
    if z3.eq(za, zb):
        return SReal(z3.RealVal(1))
    short = _cancel(za, zb)
    if short is not None:
        return wrap(short)
    q = z3.Real(c.fresh('d'))
    c.keep += [za, zb]
    c.add(q * zb == za)
    res = SReal(q)
    c.divs.append(('r', za, zb, q))
    c.divcache[key] = res
    return res


def _factors(t):
    """a product as (coefficient, other factors)"""
    fs, todo, k = [], [t], Fraction(1)
    while todo:
        t = todo.pop()
        if z3.is_mul(t):
            todo.extend(t.children())
        elif z3.is_int_value(t):
            k *= t.as_long()
        elif z3.is_rational_value(t):
            k *= Fraction(t.numerator_as_long(), t.denominator_as_long())
        else:
            fs.append(t)
    return k, fs[::-1]


def _without(fs, ds):
    """the factors fs without the factors ds, or None"""
    fs = list(fs)
    for d in ds:
        for i, f in enumerate(fs):
            if z3.eq(f, d):
                fs.pop(i)
                break
        else:
            return None
    return fs


def _cancel(za, zb):
    """za / zb when zb (not zero) is a factor of every term of za"""
    out = []
    k, ds = _factors(zb)
    if k == 0:
        return None
    for t in za.children() if z3.is_add(za) else [za]:
        c, fs = _factors(t)
        fs = _without(fs, ds)
        if fs is None:
            return None
        out.append(z3.Product(fz(c / k), *fs) if fs else fz(c / k))
    return z3.simplify(z3.Sum(*out) if len(out) > 1 else out[0])


def _row_major(za, zb):
    """(x, y) when za is x*zb + y with 0 <= y < zb"""
    k, ds = _factors(zb)
    if not z3.is_add(za) and not z3.is_mul(za) or k != 1:
        return None
    x, y = [], []
    for t in za.children() if z3.is_add(za) else [za]:
        c, fs = _factors(t)
        fs = _without(fs, ds)
        if fs is None:
            y.append(t)
        else:
            x.append(z3.Product(z3.IntVal(int(c)), *fs) if fs else z3.IntVal(int(c)))
    if not x:
        return None
    y = z3.Sum(*y) if y else z3.IntVal(0)
    if _check(z3.Not(z3.And(y >= 0, y < zb))) != z3.unsat:
        return None
    return wrap(z3.simplify(z3.Sum(*x))), wrap(z3.simplify(y))


def compare(op, a, b):
    if type(a) is SBV or type(b) is SBV:
        za, zb = _bvpair(a, b)
        return wrap({'<': z3.ULT, '<=': z3.ULE, '>': z3.UGT, '>=': z3.UGE,
                     '==': lambda x, y: x == y, '!=': lambda x, y: x != y}[op](za, zb))
    ints = isint(a) and isint(b)
    za, zb = (zint(a), zint(b)) if ints else (zreal(a), zreal(b))
    if op == '<':
        z = za < zb
    elif op == '<=':
        z = za <= zb
    elif op == '>':
        z = za > zb
    elif op == '>=':
        z = za >= zb
    elif op == '==':
        z = za == zb
    else:
        z = za != zb
    return wrap(z)


def _special_float(x):
    return type(x) is float and (x != x or x in (float('inf'), float('-inf')))


class Num(object):
    __slots__ = ('z', 'ndim', 'shape', 'size', 'dt')   # the latter for numpy scalars only

    def __init__(self, z):
        self.z = z

    def __add__(self, o): return arith('+', self, o)
    def __radd__(self, o): return arith('+', o, self)
    def __sub__(self, o): return arith('-', self, o)
    def __rsub__(self, o): return arith('-', o, self)
    def __mul__(self, o): return arith('*', self, o)
    def __rmul__(self, o): return arith('*', o, self)
    def __truediv__(self, o): return arith('/', self, o)
    def __rtruediv__(self, o): return arith('/', o, self)
    def __floordiv__(self, o): return arith('//', self, o)
    def __rfloordiv__(self, o): return arith('//', o, self)
    def __mod__(self, o): return arith('%', self, o)
    def __rmod__(self, o): return arith('%', o, self)
    def __divmod__(self, o): return arith('//', self, o), arith('%', self, o)
    def __pow__(self, o): return arith('**', self, o)
    def __rpow__(self, o): return rpow(o, self)
    def __pos__(self): return self

    def __neg__(self):
        return wrap(-self.z)

    def __abs__(self):
        return wrap(z3.If(self.z < 0, -self.z, self.z))

    def _cmp(self, op, o):
        if not isnum(o):
            return NotImplemented
        if _special_float(o):
            if o != o:
                return op == '!='
            pos = o > 0
            return {'<': pos, '<=': pos, '>': not pos, '>=': not pos,
                    '==': False, '!=': True}[op]
        return compare(op, self, o)

    def __lt__(self, o): return self._cmp('<', o)
    def __le__(self, o): return self._cmp('<=', o)
    def __gt__(self, o): return self._cmp('>', o)
    def __ge__(self, o): return self._cmp('>=', o)

    def __eq__(self, o):
        r = self._cmp('==', o)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp('!=', o)
        return True if r is NotImplemented else r

    def __bool__(self):
        return fork(self.z != 0)

    def __hash__(self):
        c = ctx()
        if c.hashed is not None:
            c.hashed.append(self)
            return 0
        raise Unsupported('hash of a symbolic number')

    def __format__(self, spec):
        from .strings import token
        return token(self, spec)

    def __repr__(self):
        return '<%s %s>' % (type(self).__name__, str(self.z)[:80])

    def __str__(self):
        from .strings import token
        return token(self)

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def rpow(a, b):
    raise Unsupported('symbolic exponent')


class SInt(Num):
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __index__(self):
        # CPython needs a concrete value: one path per value when there are few
        if R is not None and C is not None and C.local is None and _check(z3.Or(self.z < -16, self.z > 64)) == z3.unsat:
            for k in range(0, 65):
                if fork(self.z == k):
                    return k
            for k in range(-16, 0):
                if fork(self.z == k):
                    return k
            raise PathDone('no value')
        raise Unsupported('symbolic integer used where CPython needs a concrete index')

    def __int__(self):
        raise Unsupported('int() of a symbolic integer in C code')

    def __float__(self):
        raise Unsupported('float() of a symbolic integer in C code')

    def bit_length(self):
        c = ctx()
        b = z3.Int(c.fresh('bits'))
        c.add(z3.And(b >= 0, (b == 0) == (self.z == 0)))
        return SInt(b)

    def __and__(self, o): return intbits('&', self, o)
    def __rand__(self, o): return intbits('&', self, o)
    def __or__(self, o): return intbits('|', self, o)
    def __ror__(self, o): return intbits('|', self, o)
    def __xor__(self, o): return intbits('^', self, o)
    def __rxor__(self, o): return intbits('^', self, o)

    def __lshift__(self, o):
        if is_sym(o):
            raise Unsupported('symbolic shift')
        return self * (1 << o)

    def __rshift__(self, o):
        if is_sym(o):
            raise Unsupported('symbolic shift')
        return self // (1 << o)

    def __invert__(self):
        return -self - 1

    @property
    def real(self):
        return self

    @property
    def dtype(self):
        raise AttributeError('dtype')

    @property
    def shape(self):
        raise AttributeError('shape')

    def item(self):
        return self


def intbits(op, a, b):
    if op == '&' and not is_sym(b) and b >= 0 and ((b + 1) & b) == 0:
        return a % (b + 1)
    raise Unsupported('bitwise %s on unbounded integers' % op)


class SReal(Num):
    __slots__ = ()

    @property
    def __class__(self):
        return float

    def __int__(self):
        raise Unsupported('int() of a symbolic real in C code')

    def __float__(self):
        raise Unsupported('float() of a symbolic real in C code')

    def __round__(self, nd=None):
        return round_(self, nd)

    def is_integer(self):
        return wrap(z3.IsInt(self.z))

    @property
    def real(self):
        return self

    def item(self):
        return self

    def conjugate(self):
        return self


class SBool(Num):
    __slots__ = ()

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return fork(self.z)

    def __neg__(self):
        return -wrap(zint(self))

    def __abs__(self):
        return wrap(zint(self))

    def __and__(self, o):
        if not isinstance_(o, (bool, SBool)) and type(o) is not SBool:
            return NotImplemented
        return wrap(z3.And(self.z, zbool(o)))
    __rand__ = __and__

    def __or__(self, o):
        if type(o) not in (bool, SBool):
            return NotImplemented
        return wrap(z3.Or(self.z, zbool(o)))
    __ror__ = __or__

    def __xor__(self, o):
        if type(o) not in (bool, SBool):
            return NotImplemented
        return wrap(z3.Xor(self.z, zbool(o)))
    __rxor__ = __xor__

    def __invert__(self):
        return wrap(z3.Not(self.z))

    def _cmp(self, op, o):
        if op in ('==', '!=') and type(o) in (bool, SBool):
            r = self.z == zbool(o)
            return wrap(r if op == '==' else z3.Not(r))
        return Num._cmp(wrap(zint(self)), op, o)


# bit vectors ---------------------------------------------------------------

class SBV(Num):
    """A fixed width unsigned machine word (used by the Cython translation)."""
    __slots__ = ()

    @property
    def __class__(self):
        return int

    def __bool__(self):
        return fork(self.z != 0)

    def __and__(self, o): return bvarith('&', self, o)
    __rand__ = __and__

    def __or__(self, o): return bvarith('|', self, o)
    __ror__ = __or__

    def __xor__(self, o): return bvarith('^', self, o)
    __rxor__ = __xor__

    def __lshift__(self, o): return bvarith('<<', self, o)
    def __rshift__(self, o): return bvarith('>>', self, o)
    def __rlshift__(self, o): return bvarith('<<', o, self)
    def __rrshift__(self, o): return bvarith('>>', o, self)

    def __invert__(self):
        return SBV(~self.z)

    def __neg__(self):
        return SBV(-self.z)


def _bvpair(a, b):
    w = a.z.size() if type(a) is SBV else b.z.size()

    def conv(x):
        if type(x) is SBV:
            if x.z.size() != w:
                raise Unsupported('mixed word sizes')
            return x.z
        if type(x) is int:
            return z3.BitVecVal(x, w)
        raise Unsupported('word arithmetic with %r' % type(x))
    return conv(a), conv(b)


def bvarith(op, a, b):
    if not isnum(a) or not isnum(b):
        return NotImplemented
    za, zb = _bvpair(a, b)
    if op == '+':
        return SBV(za + zb)
    if op == '-':
        return SBV(za - zb)
    if op == '*':
        return SBV(za * zb)
    if op == '&':
        return SBV(za & zb)
    if op == '|':
        return SBV(za | zb)
    if op == '^':
        return SBV(za ^ zb)
    if op == '<<':
        return SBV(za << zb)
    if op == '>>':
        return SBV(z3.LShR(za, zb))
    if op == '//':
        return SBV(z3.UDiv(za, zb))
    if op == '%':
        return SBV(z3.URem(za, zb))
    raise Unsupported('word operator ' + op)


# ------------------------------------------------------------ numeric builtins

def int_term(z):
    """an integer term equal to the real term z, when z is syntactically integral; else None"""
    if z3.is_rational_value(z):
        return z3.IntVal(z.numerator_as_long()) if z.denominator_as_long() == 1 else None
    if not z3.is_app(z):
        return None
    k = z.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return z.arg(0)
    if k == z3.Z3_OP_ITE:
        a, b = int_term(z.arg(1)), int_term(z.arg(2))
        return None if a is None or b is None else z3.If(z.arg(0), a, b)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        cs = [int_term(c) for c in z.children()]
        if any(c is None for c in cs):
            return None
        if k == z3.Z3_OP_UMINUS:
            return -cs[0]
        if k == z3.Z3_OP_ADD:
            return z3.Sum(cs)
        if k == z3.Z3_OP_MUL:
            return z3.Product(cs)
        r = cs[0]
        for c in cs[1:]:
            r = r - c
        return r
    return None


def _floorz(z):
    """the floor of a real term as an integer term (a fresh variable with its defining bounds)"""
    z = z3.simplify(z)
    t = int_term(z)
    if t is not None:
        return t
    c = ctx()
    key = ('floor', z.get_id())
    if key in c.divcache:
        return c.divcache[key]
    c.keep.append(z)
    k = z3.Int(c.fresh('fl'))
    c.add(z3.And(z3.ToReal(k) <= z, z < z3.ToReal(k) + 1))
    c.divcache[key] = k
    return k


def floor_(x):
    if not is_sym(x):
        import math
        return math.floor(x)
    if isint(x):
        return x
    return wrap(_floorz(zreal(x)))


def ceil_(x):
    if not is_sym(x):
        import math
        return math.ceil(x)
    if isint(x):
        return x
    return wrap(-_floorz(-zreal(x)))


def trunc_(x):
    if not is_sym(x):
        return int(x)
    if isint(x):
        return wrap(zint(x))
    z = z3.simplify(zreal(x))
    t = int_term(z)
    if t is not None:
        return wrap(t)
    if fork(z >= 0):
        return wrap(_floorz(z))
    return wrap(-_floorz(-z))


def rint_(x):
    """round half to even, as an integer"""
    if not is_sym(x):
        return builtins.round(x)
    if isint(x):
        return x
    c = ctx()
    z = z3.simplify(zreal(x))
    t = int_term(z)
    if t is not None:
        return wrap(t)
    key = ('rint', z.get_id())
    if key in c.divcache:
        return c.divcache[key]
    c.keep.append(z)
    r = z3.Int(c.fresh('rint'))
    rr = z3.ToReal(r)
    c.add(2 * (z - rr) <= 1)
    c.add(2 * (rr - z) <= 1)
    c.add(z3.Implies(z3.Or(2 * (z - rr) == 1, 2 * (rr - z) == 1), r % 2 == 0))
    res = SInt(r)
    c.divcache[key] = res
    return res


def round_(x, nd=None):
    if not is_sym(x):
        return builtins.round(x, nd) if nd is not None else builtins.round(x)
    if nd is None:
        return rint_(x)
    if isint(x):
        return x
    if is_sym(nd):
        raise Unsupported('symbolic number of digits')
    k = 10 ** nd if nd >= 0 else Fraction(1, 10 ** -nd)
    return wrap(zreal(rint_(x * k)) / fz(k)) if nd else wrap(zreal(rint_(x)))


def ite(cond, a, b):
    """value-level conditional"""
    if type(cond) is bool:
        return a if cond else b
    zc = zbool(cond)
    zc = z3.simplify(zc)
    if z3.is_true(zc):
        return a
    if z3.is_false(zc):
        return b
    if a is b:
        return a
    if type(a) is SBV or type(b) is SBV:
        za, zb = _bvpair(a, b)
        return SBV(z3.If(zc, za, zb))
    if isnum(a) and isnum(b) and not _special_float(a) and not _special_float(b):
        if type(a) in (bool, SBool) and type(b) in (bool, SBool):
            return wrap(z3.If(zc, zbool(a), zbool(b)))
        if isint(a) and isint(b):
            return wrap(z3.If(zc, zint(a), zint(b)))
        return wrap(z3.If(zc, zreal(a), zreal(b)))
    merge = getattr(type(a), '__sym_ite__', None)
    if merge is not None and type(a) is type(b):
        r = merge(zc, a, b)
        if r is not NotImplemented:
            return r
    return a if fork(zc) else b


def smin(a, b):
    if isnum(a) and isnum(b) and (is_sym(a) or is_sym(b)):
        return ite(compare('<', b, a), b, a) if not (_special_float(a) or _special_float(b)) else (b if b < a else a)
    return b if b < a else a


def smax(a, b):
    if isnum(a) and isnum(b) and (is_sym(a) or is_sym(b)):
        return ite(compare('>', b, a), b, a) if not (_special_float(a) or _special_float(b)) else (b if b > a else a)
    return b if b > a else a


# ------------------------------------------------------------------ path logic

def _tick():
    if R.deadline is not None and time.time() > R.deadline:
        raise Budget('time budget exhausted')


def _check(extra):
    c = ctx()
    t0 = time.time()
    c.solver.push()
    c.solver.add(extra)
    if c.divs:
        for l in nl.lemmas(c.pc + [extra], c.divs):
            c.solver.add(l)
    if c.strings:
        c.solver.set('timeout', 300)
    r = c.solver.check()
    c.solver.pop()
    R.queries += 1
    if r != z3.unsat and c.strings:
        if r == z3.unknown and _cvc5(c.pc + [extra], 3000) is not None:
            r = z3.unsat
    elif r != z3.unsat and nonlinear(c):
        # the incremental solver treats products as opaque: ask again with nonlinear arithmetic, briefly
        s = z3.Solver()
        s.set('timeout', R.nl_timeout)
        s.add(*c.pc)
        s.add(extra)
        if s.check() == z3.unsat:
            r = z3.unsat
        R.queries += 1
    R.solver_time += time.time() - t0
    return r


def nonlinear(c):
    return bool(c.divs) or R.force_nl


def fork(cond):
    c = ctx()
    if type(cond) is bool:
        return cond
    cond = z3.simplify(cond)
    if z3.is_true(cond):
        return True
    if z3.is_false(cond):
        return False
    p = c.local or c
    i = len(p.trace)
    if i < len(p.prefix):
        v = p.prefix[i]
        p.trace.append(v)
        c.add(cond if v else z3.simplify(z3.Not(cond)))
        return v
    _tick()
    t = _check(cond)
    if t == z3.unsat:
        p.trace.append(False)
        c.add(z3.simplify(z3.Not(cond)))
        return False
    f = _check(z3.Not(cond))
    if f == z3.unsat:
        p.trace.append(True)
        c.add(cond)
        return True
    p.pending.append(p.trace + [False])
    p.trace.append(True)
    c.add(cond)
    return True


def triggers(z, v, out=None):
    """applications of uninterpreted functions to v + c in z, and c"""
    out = [] if out is None else out
    if z3.is_app(z):
        if z.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            for k in range(z.num_args()):
                d = z3.simplify(z.arg(k) - v) if z.arg(k).sort() == z3.IntSort() else None
                if d is not None and not occurs(d, v):
                    out.append((z, d))
        for k in range(z.num_args()):
            triggers(z.arg(k), v, out)
    return out


def applications(z, decl):
    out = [z] if z3.is_app(z) and z.decl().eq(decl) else []
    for k in range(z.num_args() if z3.is_app(z) else 0):
        out += applications(z.arg(k), decl)
    return out


def occurs(z, v):
    return z.eq(v) or any(occurs(z.arg(k), v) for k in range(z.num_args())) if z3.is_app(z) else False


def quantify(v, rng, body):
    """the fact: body for all v satisfying rng, with a trigger of one application to a variable; None if there is none"""
    ts = triggers(body, v)
    exact = [t for t in ts if z3.is_int_value(t[1]) and t[1].as_long() == 0]
    if exact:
        return z3.ForAll([v], z3.Implies(rng, body), patterns=[exact[0][0]])
    if not ts:
        return None
    t, d = ts[0]
    u = z3.Int(ctx().fresh('u'))
    move = lambda z: z3.simplify(z3.substitute(z, (v, u - d)))
    p = move(t)
    if not any(p.arg(k).eq(u) for k in range(p.num_args())):
        return None
    return z3.ForAll([u], z3.Implies(move(rng), move(body)), patterns=[p])


class Local(object):
    def __init__(self, prefix):
        self.prefix, self.trace, self.pending = prefix, [], []


def under(hyp, thunk):
    """the value of thunk() (a number or truth value) as one z3 term, for bound variables satisfying hyp: branches taken
    on the bound variables become cases of the term instead of cases of the path"""
    c = ctx()
    outer = c.local
    work, cases = [[]], []
    while work:
        loc = Local(work.pop())
        if len(cases) > 40:
            raise Unsupported('too many cases under a quantifier')
        npc, cnt, nin = len(c.pc), dict(c.counter), len(c.divs)
        c.solver.push()
        c.local = loc
        try:
            c.add(hyp)
            base = len(c.pc)
            v = thunk()
            conds = c.pc[base:]
        except Unsupported:
            raise
        except Exception as e:
            raise Unsupported('an exception (%s: %s) for some element of a symbolic sequence' % (type(e).__name__, str(e)[:80]))
        finally:
            c.local = outer
            c.solver.pop()
            del c.pc[npc:]
        if c.counter != cnt or len(c.divs) != nin:
            raise Unsupported('fresh values under a quantifier')
        z = v if z3.is_expr(v) else (z3.BoolVal(v) if type(v) is bool else zbool(v) if isinstance(v, SBool) else znum(v))
        cases.append((conds, z))
        work.extend(loc.pending)
    r = cases[-1][1]
    for conds, z in reversed(cases[:-1]):
        if r.sort() != z.sort():
            if z.sort() == z3.RealSort() and r.sort() == z3.IntSort():
                r = z3.ToReal(r)
            elif r.sort() == z3.RealSort() and z.sort() == z3.IntSort():
                z = z3.ToReal(z)
            else:
                raise Unsupported('cases of different sorts')
        r = z3.If(z3.And(*conds), z, r) if conds else z
    return z3.simplify(r)


def choose(label='choice'):
    """nondeterministic boolean"""
    c = ctx()
    return fork(z3.Bool(c.fresh(label)))


def assume(cond):
    c = ctx()
    z = zbool(cond) if not z3.is_expr(cond) else cond
    z = z3.simplify(z)
    if z3.is_true(z):
        return
    if z3.is_false(z):
        raise PathDone('assume false')
    c.add(z)


def feasible():
    c = ctx()
    t0 = time.time()
    r = c.solver.check()
    R.queries += 1
    R.solver_time += time.time() - t0
    return r


def _solve(assertions, timeout, lems=()):
    """returns ('unsat'|'sat'|'unknown', model, backend)"""
    t0 = time.time()
    try:
        for name, mk, extra, frac in (STRINGS if C is not None and C.strings else _backends(lems)):
            ms = max(150, int(timeout * frac))
            if mk is None:
                r = _cvc5(list(assertions) + list(extra), ms)
                if r is not None:
                    return r
                continue
            s = mk()
            s.set('timeout', ms)
            s.add(*assertions)
            s.add(*extra)
            try:
                r = s.check()
            except z3.Z3Exception:
                continue
            R.queries += 1
            if r == z3.unsat:
                return 'unsat', None, name
            if r == z3.sat and name != 'z3-linear':
                return 'sat', s.model(), name
        return 'unknown', None, 'z3,cvc5'
    finally:
        R.solver_time += time.time() - t0


STRINGS = [('z3', z3.Solver, (), 0.02), ('cvc5', None, (), 0.5), ('z3', z3.Solver, (), 0.5)]


def _linear():
    s = z3.Solver()
    s.set('arith.nl', False)
    s.set('mbqi', False)
    return s


def _backends(lems):
    yield 'z3-linear', _linear, lems, 0.03
    yield 'cvc5', None, lems, 0.05
    yield 'z3', z3.Solver, lems, 0.15
    yield 'cvc5', None, lems, 0.3
    yield 'z3-nl', lambda: z3.Then('simplify', 'solve-eqs', 'purify-arith', 'smt').solver(), (), 0.3
    yield 'z3', z3.Solver, lems, 0.6
    yield 'cvc5', None, (), 0.5


def _cvc5(assertions, timeout):
    try:
        import cvc5
    except ImportError:
        return None
    s = z3.Solver()
    s.add(*assertions)
    txt = s.to_smt2()
    try:
        tm = cvc5.TermManager()
        slv = cvc5.Solver(tm)
        slv.setOption('tlimit-per', str(int(timeout)))
        slv.setOption('nl-ext-tplanes', 'true')
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, '(set-logic ALL)\n' + txt, 'q')
        sm = p.getSymbolManager()
        res = None
        while True:
            cmd = p.nextCommand()
            if cmd.isNull():
                break
            out = cmd.invoke(slv, sm)
            o = str(out).strip()
            if o in ('sat', 'unsat', 'unknown'):
                res = o
        R.queries += 1
        if res == 'unsat':
            return 'unsat', None, 'cvc5'
    except Exception:
        return None
    return None


def _model_values(model):
    c = ctx()
    out = {}
    for k, z in c.inputs.items():
        try:
            v = model.eval(z, model_completion=True)
            if z3.is_int_value(v):
                out[k] = v.as_long()
            elif z3.is_rational_value(v):
                out[k] = str(v.as_fraction())
            elif z3.is_algebraic_value(v):
                out[k] = str(v.approx(20).as_fraction())
            elif z3.is_true(v) or z3.is_false(v):
                out[k] = z3.is_true(v)
            elif z3.is_bv_value(v):
                out[k] = v.as_long()
            elif z3.is_string_value(v):
                out[k] = v.as_string()
        except Exception:
            pass
    return out


WORDS = None    # a decision aid for obligations over machine words (see cython_)
STUCK = []      # what may be tried when an obligation is not discharged: each adds consequences, and tells whether it did


def prove(cond, name, timeout=None):
    """Discharge one obligation on the current path."""
    c = ctx()
    _tick()
    o = R.ob(R.spec + ': ' + name)
    o.paths += 1
    if type(cond) is bool:
        zc = z3.BoolVal(cond)
    elif z3.is_expr(cond):
        zc = cond
    else:
        zc = zbool(cond)
    zc = z3.simplify(zc)
    t0 = time.time()
    if z3.is_true(zc):
        o.proved += 1
        o.backends['simplifier'] = o.backends.get('simplifier', 0) + 1
        return True
    relevant = c.pc
    lems = nl.lemmas(relevant + [zc], c.divs) if c.divs else []
    r = None
    if WORDS is not None:
        r = WORDS(relevant + [z3.Not(zc)])
        if r == 'unsat':
            model, backend = None, 'z3-words'
    if r != 'unsat':
        r, model, backend = _solve(relevant + [z3.Not(zc)], timeout or R.prove_timeout, lems)
    if r != "unsat" and any([f() for f in STUCK]):
        r, model, backend = _solve(c.pc + [z3.Not(zc)], timeout or R.prove_timeout, lems)
    o.time += time.time() - t0
    if r == 'unsat':
        o.proved += 1
        o.backends[backend] = o.backends.get(backend, 0) + 1
        c.add(zc)
        return True
    if r == 'sat':
        o.refuted.append((_model_values(model), str(zc)[:400]))
        # continue as if it held, so that later obligations stay meaningful
        if z3.is_false(zc):
            raise PathDone('refuted')
        c.add(zc)
        return False
    o.unknown.append('solver returned unknown for ' + str(zc)[:200])
    if z3.is_false(zc):
        raise PathDone('unknown')
    c.add(zc)
    return None


def prove_unreachable(name, detail=''):
    """the current point must be infeasible"""
    prove(False, name)


def cover(name):
    """reachability marker: must be hit on at least one feasible path"""
    key = R.spec + ': ' + name
    if R.covers.get(key):
        return
    r = feasible()
    R.covers[key] = (r != z3.unsat)


def explore(fn, spec, max_paths=3000, seconds=120):
    """Run fn() over all feasible paths."""
    global C
    R.spec = spec
    R.deadline = time.time() + seconds
    work = [[]]
    n = 0
    try:
        while work:
            prefix = work.pop()
            C = Ctx(prefix)
            n += 1
            R.paths += 1
            if n > max_paths:
                raise Budget('more than %d paths' % max_paths)
            try:
                fn()
            except PathDone:
                pass
            work.extend(C.pending)
    except Unsupported as e:
        R.undecided.append((spec, 'unsupported: %s%s' % (e, _where(e))))
    except Budget as e:
        R.undecided.append((spec, str(e)))
    except RecursionError as e:
        R.undecided.append((spec, 'recursion: %s' % e))
    finally:
        C = None
        R.deadline = None
    return n


def _where(e):
    import traceback
    tb = traceback.extract_tb(e.__traceback__)
    fr = [f for f in tb if '/repo/' in f.filename or 'featureflow' in f.filename]
    if fr:
        return ' at %s:%d (%s)' % (fr[-1].filename.replace('/repo/', ''), fr[-1].lineno, fr[-1].name)
    return ''


# ------------------------------------------------------------ inputs of a spec

def Int(name, lo=None, hi=None):
    c = ctx()
    z = z3.Int(name)
    c.inputs[name] = z
    if lo is not None:
        c.add(z >= zint(lo))
    if hi is not None:
        c.add(z <= zint(hi))
    return SInt(z)


def Real(name, lo=None, hi=None):
    c = ctx()
    z = z3.Real(name)
    c.inputs[name] = z
    if lo is not None:
        c.add(z >= zreal(lo))
    if hi is not None:
        c.add(z <= zreal(hi))
    return SReal(z)


def Bool(name):
    c = ctx()
    z = z3.Bool(name)
    c.inputs[name] = z
    return SBool(z)


def BV(name, width):
    c = ctx()
    z = z3.BitVec(name, width)
    c.inputs[name] = z
    return SBV(z)


def fresh_int(prefix='i', lo=None, hi=None):
    c = ctx()
    z = z3.Int(c.fresh(prefix))
    if lo is not None:
        c.add(z >= zint(lo))
    if hi is not None:
        c.add(z < zint(hi))
    return SInt(z)


def fresh_real(prefix='x'):
    return SReal(z3.Real(ctx().fresh(prefix)))


def And(*cs):
    return wrap(z3.And(*[zbool(c) for c in cs]))


def Or(*cs):
    return wrap(z3.Or(*[zbool(c) for c in cs]))


def Not(c):
    return wrap(z3.Not(zbool(c)))


def Implies(a, b):
    return wrap(z3.Implies(zbool(a), zbool(b)))


def Iff(a, b):
    return wrap(zbool(a) == zbool(b))


def Eq(a, b):
    """equality as a term (never forks for numbers)"""
    if isnum(a) and isnum(b):
        if not is_sym(a) and not is_sym(b):
            return a == b
        return compare('==', a, b) if not (type(a) in (bool, SBool) and type(b) in (bool, SBool)) else wrap(zbool(a) == zbool(b))
    return a == b
