"""Assumed contract of numpy, for the part of it zounds' core uses.

An array is a root buffer (a total function from index tuples to values, replaced
on write) plus an index map; views share the buffer, so aliasing writes are exact.
Shapes may be symbolic, ranks are concrete.  Reductions are uninterpreted sums /
extrema with congruence and the defining properties of extrema.  Machine floats are
reals; machine integers are mathematical integers except unsigned casts.
"""
import builtins
import inspect
import math
import types

import z3

from . import core
from .core import (SInt, SReal, SBool, SBV, Unsupported, PathDone, ctx, fork, wrap, is_sym, isint, zint, zreal,
                   zbool, ite, fresh_int, trust, rdiv, Eq, sqrt_)
from . import bi as B
from .bi import SSeq, as_sseq, norm_index, slice_indices, concrete, as_index


def isnum(x):
    return B.isnum(x)


# -------------------------------------------------------------------- dtypes

class dtype(object):
    def __init__(self, name, kind=None, itemsize=None, fields=None, unit=None):
        if isinstance(name, dtype):
            self.__dict__.update(name.__dict__)
            return
        if kind is None:
            d = to_dtype(name)
            self.__dict__.update(d.__dict__)
            return
        self.name, self.kind, self.itemsize, self.fields_, self.unit = name, kind, itemsize, fields, unit

    def __eq__(self, o):
        try:
            o = to_dtype(o)
        except Exception:
            return False
        return self.name == o.name

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "dtype('%s')" % self.name

    def __str__(self):
        return self.name

    @property
    def type(self):
        return SCALARS.get(self.name)

    def newbyteorder(self, *a):
        return self


DT = {}
for _n, _k, _s in [('bool', 'b', 1), ('int8', 'i', 1), ('int16', 'i', 2), ('int32', 'i', 4), ('int64', 'i', 8),
                   ('uint8', 'u', 1), ('uint16', 'u', 2), ('uint32', 'u', 4), ('uint64', 'u', 8),
                   ('float16', 'f', 2), ('float32', 'f', 4), ('float64', 'f', 8), ('complex128', 'c', 16),
                   ('object', 'O', 8), ('complex64', 'c', 8)]:
    DT[_n] = dtype(_n, _k, _s)
SCALARS = {}


def td_dtype(unit):
    return dtype('timedelta64[%s]' % unit, 'm', 8, unit=unit)


class _ScalarMeta(type):
    def __call__(cls, x=0):
        return cast(x, cls._dt)

    def __instancecheck__(cls, x):
        k = cls._dt.kind
        if isinstance(x, EReal):
            return False
        return False

    def __eq__(cls, o):
        if cls is o:
            return True
        if isinstance(o, (dtype, str)) or o in (builtins.int, builtins.float, builtins.bool):
            try:
                return cls._dt == to_dtype(o)
            except TypeError:
                return False
        return False

    def __hash__(cls):
        return builtins.hash(cls._dt.name)


class EReal(object):
    pass


class generic(object):
    pass


class number(generic):
    pass


class integer(number):
    pass


class floating(number):
    pass


def _scalar(name):
    c = _ScalarMeta(name, (generic,), {'_dt': DT[name]})
    SCALARS[name] = c
    return c


int8, int16, int32, int64 = map(_scalar, ('int8', 'int16', 'int32', 'int64'))
uint8, uint16, uint32, uint64 = map(_scalar, ('uint8', 'uint16', 'uint32', 'uint64'))
float16, float32, float64 = map(_scalar, ('float16', 'float32', 'float64'))
complex128 = _scalar('complex128')
complex64 = _scalar('complex64')
bool_ = _scalar('bool')
# names restored by the environment's numpy shim
globals()['bool'] = builtins.bool
globals()['int'] = builtins.int
globals()['float'] = builtins.float
globals()['object'] = builtins.object


def to_dtype(d):
    if isinstance(d, dtype):
        return d
    if d is None:
        return DT['float64']
    if isinstance(d, _ScalarMeta):
        return d._dt
    if d is builtins.bool:
        return DT['bool']
    if d is builtins.int:
        return DT['int64']
    if d is builtins.float:
        return DT['float64']
    if d is builtins.object:
        return DT['object']
    if isinstance(d, str):
        if d in DT:
            return DT[d]
        al = {'f4': 'float32', 'f8': 'float64', 'u1': 'uint8', 'u8': 'uint64', 'i8': 'int64', 'i4': 'int32', '?': 'bool',
              'B': 'uint8', 'f': 'float32', 'd': 'float64'}
        if d.lstrip('<=|') in al:
            return DT[al[d.lstrip('<=|')]]
        if d.startswith('m8[') or d.startswith('timedelta64['):
            return td_dtype(d[d.index('[') + 1:-1])
        if d.startswith('S'):
            return dtype(d, 'S', builtins.int(d[1:] or 0))
        raise TypeError('data type %r not understood' % d)
    if isinstance(d, list):
        return dtype('record', 'V', 0, fields=d)
    if isinstance(d, type):
        return DT['object']
    raise TypeError('data type %r not understood' % (d,))


def result_dtype(*ds):
    order = ['bool', 'uint8', 'int8', 'uint16', 'int16', 'uint32', 'int32', 'uint64', 'int64', 'float16', 'float32', 'float64', 'complex64', 'complex128']
    names = [d.name for d in ds if d is not None]
    tds = [d for d in ds if d is not None and d.kind == 'm']
    if tds and builtins.all(d is None or d.kind in 'mbiu' for d in ds):
        return builtins.min(tds, key=lambda d: PS[d.unit])
    if builtins.any(n not in order for n in names):
        for d in ds:
            if d is not None and d.name not in order:
                return d
    if 'uint64' in names and builtins.any(n.startswith('int') for n in names) and builtins.max(map(order.index, names)) <= order.index('int64'):
        return DT['float64']
    if builtins.any(n.startswith('float') for n in names) and builtins.any(n in ('int64', 'uint64', 'int32', 'uint32') for n in names):
        return DT['float64']
    if not names:
        return DT['float64']
    return DT[order[builtins.max(order.index(n) for n in names)]]


def result_type(*ds):
    if not ds:
        raise ValueError('at least one array or dtype is required')
    ds = [d.dtype if isinstance(d, ndarray) else to_dtype(d) for d in ds]
    if builtins.any(d.kind not in 'biufcm' for d in ds) and builtins.len({d.name for d in ds}) > 1:
        raise Unsupported('np.result_type')
    return ds[0] if builtins.len({d.name for d in ds}) == 1 else result_dtype(*ds)


def dtype_of(x):
    if isinstance(x, ndarray):
        return x.dtype
    t = type(x)
    if t in (builtins.bool, SBool):
        return DT['bool']
    if t in (builtins.int, SInt):
        return DT['int64']
    if t is SBV:
        return DT['uint%d' % x.z.size()]
    if isinstance(x, timedelta64):
        return td_dtype(x.unit)
    if isnum(x):
        return DT['float64']
    return DT['object']


def cast(x, d):
    d = to_dtype(d)
    if isinstance(x, ndarray):
        return x.astype(d)
    if isinstance(x, B.EFloat):
        x = x._v
    k = d.kind
    if k == 'm':
        if isinstance(x, timedelta64):
            return x.astype(d)
        return timedelta64(x, d.unit)
    if k == 'O' or k == 'S' or k == 'V' or k == 'c':
        return x
    if isinstance(x, timedelta64) and k in 'iu':
        x = x.n
        if k == 'i':
            return x
    if not isnum(x):
        if isinstance(x, (list, tuple)):
            return array(x, d)
        if isinstance(x, str):
            return cast(builtins.float(x) if k == 'f' else builtins.int(x), d)
        if x is None:
            raise TypeError('cannot cast None')
        raise Unsupported('cast of %r to %s' % (type(x), d.name))
    if k == 'f':
        return wrap(zreal(x)) if is_sym(x) else builtins.float(x)
    if k == 'b':
        if type(x) is SBool or type(x) is builtins.bool:
            return x
        return wrap(zbool(x)) if is_sym(x) else builtins.bool(x)
    if k in 'iu':
        if type(x) is SBV:
            return x
        v = core.trunc_(x) if is_sym(x) else builtins.int(x)
        if k == 'u' and d.itemsize < 8:
            m = 256 ** d.itemsize
            if is_sym(v):
                return v if entails(z3.And(zint(v) >= 0, zint(v) < m)) else v % m
            return v % m
        if k == 'u' and not is_sym(v) and v < 0:
            return v % 2 ** 64
        if k == 'u' and is_sym(v):
            return v if entails(zint(v) >= 0) else v % 2 ** 64
        return v
    raise Unsupported('cast to %s' % d.name)


def _narrows(src, d):
    """storing a value of type src as d may round it or wrap it around"""
    if src == d or src.kind == 'O' or d.kind == 'O':
        return False
    if d.kind == 'f' and d.itemsize < 8:
        return src.kind == 'f' and src.itemsize > d.itemsize or src.kind in 'iu' and src.itemsize >= d.itemsize
    if d.kind == 'f':
        return src.kind in 'iu' and src.itemsize >= d.itemsize
    if d.kind == 'c' and d.itemsize < 16:
        return src.kind == 'c' and src.itemsize > d.itemsize
    if d.kind == 'i' and d.itemsize < 8:
        return src.kind in 'iu' and (src.itemsize > d.itemsize or src.kind == 'u' and src.itemsize == d.itemsize)
    return False


def conv(x, d, src):
    """the value x of element type src as element type d"""
    if is_sym(x) and _narrows(src, d):
        if d.kind == 'i':
            h = 256 ** d.itemsize // 2
            return x if entails(z3.And(zint(x) >= -h, zint(x) < h)) else (x + h) % (2 * h) - h
        f = z3.Function('stored as ' + d.name, z3.RealSort(), z3.RealSort())
        trust('a value stored with less precision is some function of the value (nothing else is known about it)')
        return wrap(f(zreal(x)))
    return cast(x, d)


def entails(z):
    z = z3.simplify(z)
    if z3.is_true(z):
        return True
    if z3.is_false(z):
        return False
    return core._check(z3.Not(z)) == z3.unsat


def same(a, b):
    """size equality known on this path"""
    if concrete(a) and concrete(b):
        return a == b
    return entails(zint(a) == zint(b))


# ---------------------------------------------------------------- timedelta64

PS = {'h': 3600 * 10 ** 12, 'm': 60 * 10 ** 12, 's': 10 ** 12, 'ms': 10 ** 9, 'us': 10 ** 6, 'ns': 10 ** 3, 'ps': 1,
      'D': 86400 * 10 ** 12, 'W': 7 * 86400 * 10 ** 12}
ORDER = ['W', 'D', 'h', 'm', 's', 'ms', 'us', 'ns', 'ps']


class _TDMeta(type):
    def __eq__(cls, o):
        return cls is o

    def __hash__(cls):
        return id(cls)


class timedelta64(object, metaclass=_TDMeta):
    __array_priority__ = 1

    def __new__(cls, v=0, unit=None):
        o = builtins.object.__new__(timedelta64)
        if isinstance(v, timedelta64):
            unit = unit or v.unit
            o.n = v.in_unit(unit)
            o.unit = unit
            return o
        if isinstance(v, B.EFloat):
            v = v._v
        if not isint(v):
            if isnum(v):
                raise ValueError('Could not convert object to NumPy timedelta')
            raise ValueError('Could not convert object to NumPy timedelta')
        if unit is None:
            unit = 'generic'
            raise Unsupported('generic timedelta unit')
        if isinstance(unit, bytes):
            unit = unit.decode()
        if unit not in PS:
            raise TypeError('Invalid datetime unit "%s" in metadata' % unit)
        trust('numpy.timedelta64: integer count of a unit, exact unit conversion, / is exact division, integer * and / truncate (no int64 overflow, no NaT)')
        o.n = builtins.int(v) if type(v) is builtins.bool else v
        o.unit = unit
        return o

    def __init__(self, *a):
        pass

    @property
    def dtype(self):
        return td_dtype(self.unit)

    @property
    def ps(self):
        return self.n * PS[self.unit]

    def in_unit(self, unit):
        f, t = PS[self.unit], PS[unit]
        if f >= t:
            return self.n * (f // t)
        k = t // f
        return truncdiv(self.n, k)

    def _pair(self, o):
        u = self.unit if ORDER.index(self.unit) >= ORDER.index(o.unit) else o.unit
        return self.in_unit(u), o.in_unit(u), u

    def _coerce(self, o):
        if isinstance(o, timedelta64):
            return o
        if isint(o) and type(o) not in (builtins.bool,):
            return timedelta64(o, self.unit)
        return None

    def __add__(self, o):
        if isinstance(o, ndarray):
            return NotImplemented
        c = self._coerce(o)
        if c is None:
            if isnum(o):
                raise TypeError('ufunc add cannot use operands with timedelta64 and float')
            return td_give_up('add', o)
        a, b, u = self._pair(c)
        return timedelta64(a + b, u)
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, ndarray):
            return NotImplemented
        c = self._coerce(o)
        if c is None:
            if isnum(o):
                raise TypeError('ufunc subtract cannot use operands with timedelta64 and float')
            return td_give_up('subtract', o)
        a, b, u = self._pair(c)
        return timedelta64(a - b, u)

    def __rsub__(self, o):
        c = self._coerce(o)
        if c is None:
            if isnum(o):
                raise TypeError('ufunc subtract cannot use operands with float and timedelta64')
            return NotImplemented
        return c - self

    def __mul__(self, o):
        if isinstance(o, ndarray):
            return NotImplemented
        if isinstance(o, timedelta64):
            raise TypeError('ufunc multiply cannot use operands with timedelta64 and timedelta64')
        if isinstance(o, B.EFloat):
            o = o._v
        if not isnum(o):
            if isinstance(o, slice) or o is None or isinstance(o, str):
                raise TypeError('unsupported operand')
            return NotImplemented
        if isint(o):
            return timedelta64(self.n * o, self.unit)
        return timedelta64(core.trunc_(self.n * o) if is_sym(o) or is_sym(self.n) else builtins.int(self.n * o), self.unit)
    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, ndarray):
            return NotImplemented
        if isinstance(o, timedelta64):
            a, b, _ = self._pair(o)
            if concrete(a) and concrete(b):
                if b == 0:
                    return float('nan') if a == 0 else (float('inf') if a > 0 else -float('inf'))
                return a / b
            if fork(zint(b) == 0):
                raise Unsupported('division by a zero duration')
            return rdiv(a, b)
        if not isnum(o):
            return NotImplemented
        if isint(o):
            return timedelta64(truncdiv(self.n, o), self.unit)
        if concrete(self.n) and type(o) is float and o:
            return timedelta64(builtins.int(self.n / o), self.unit)
        q = rdiv(self.n, o)
        return timedelta64(core.trunc_(q), self.unit)

    def __floordiv__(self, o):
        if isinstance(o, ndarray):
            return NotImplemented
        if isinstance(o, timedelta64):
            a, b, _ = self._pair(o)
            if concrete(b):
                return 0 if b == 0 else a // b
            return 0 if fork(zint(b) == 0) else a // b
        if not isnum(o):
            return NotImplemented
        if isint(o):
            # numpy truncates here (timedelta // integer == timedelta / integer)
            return timedelta64(truncdiv(self.n, o), self.unit)
        if concrete(self.n) and type(o) is float and o:
            return timedelta64(builtins.int(self.n / o), self.unit)
        return timedelta64(core.trunc_(rdiv(self.n, o)), self.unit)

    def __mod__(self, o):
        if isinstance(o, timedelta64):
            a, b, u = self._pair(o)
            return timedelta64(a % b, u)
        return NotImplemented

    def __neg__(self): return timedelta64(-self.n, self.unit)
    def __pos__(self): return self
    def __abs__(self): return timedelta64(B.abs_(self.n), self.unit)

    def _cmp(self, o, op):
        import operator
        if isinstance(o, ndarray):
            return NotImplemented
        c = self._coerce(o)
        if c is None:
            if op == 'eq':
                return False if not isinstance(o, timedelta64) else NotImplemented
            if op == 'ne':
                return True
            return NotImplemented
        a, b, _ = self._pair(c)
        return getattr(operator, op)(a, b)

    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')
    def __eq__(self, o): return self._cmp(o, 'eq')
    def __ne__(self, o): return self._cmp(o, 'ne')

    def __bool__(self):
        return self.n != 0 if concrete(self.n) else fork(zint(self.n) != 0)

    def __hash__(self):
        if concrete(self.n):
            return hash(self.n)
        if ctx().hashed is not None:
            # numpy hashes the count and ignores the unit
            ctx().hashed.append(self.n)
            return 0
        raise Unsupported('hash of a symbolic duration')

    def astype(self, d):
        d = to_dtype(d)
        if d.kind == 'm':
            return timedelta64(self.in_unit(d.unit), d.unit)
        return sized(cast(self.n, d), d)

    def item(self):
        return self

    def __repr__(self):
        return 'timedelta64(%r,%r)' % (self.n, self.unit)

    def __format__(self, s):
        return '<td>'

    @staticmethod
    def __sym_ite__(c, a, b):
        x, y, u = a._pair(b)
        return timedelta64(ite(wrap(c), x, y), u)


def td_give_up(op, o):
    """numpy scalars defer to the other operand only if it has __array_ufunc__ = None or a higher __array_priority__"""
    t = type(o)
    if t.__module__.startswith('engine') or getattr(t, '__array_ufunc__', 0) is None or getattr(t, '__array_priority__', -1e6) > 0:
        return NotImplemented
    raise TypeError('ufunc %s cannot use operands with types timedelta64 and object' % op)


class NInt(builtins.int):
    """a concrete numpy integer scalar"""

    def tobytes(self):
        return SBytes(lazy((), self.dt, lambda ix: builtins.int(self)))

    tostring = tobytes


def _scalar_bytes(self):
    d = getattr(self, 'dt', None)
    if d is None:
        raise Unsupported('the bytes of a number of unknown type')
    return SBytes(lazy((), d, lambda ix: self))


SInt.tobytes = SInt.tostring = _scalar_bytes


def sized(x, d):
    """a numpy integer scalar of type d"""
    if is_sym(x):
        r = SInt(zint(x))
    else:
        r = NInt(x)
    r.dt = d
    return r


def truncdiv(a, b):
    """C integer division (timedelta / int); 0 divisor gives NaT (unsupported)"""
    if concrete(a) and concrete(b):
        if b == 0:
            raise Unsupported('NaT')
        q = builtins.abs(a) // builtins.abs(b)
        return q if (a < 0) == (b < 0) else -q
    if b == 0 if concrete(b) else fork(zint(b) == 0):
        raise Unsupported('NaT')
    if concrete(b) and b > 0:
        return ite(a >= 0, a // b, -((-a) // b))
    if entails(z3.And(zint(a) >= 0, zint(b) > 0)):
        return a // b
    q = B.abs_(a) // B.abs_(b)
    return ite(core.Iff(wrap(zint(a) < 0), wrap(zint(b) < 0)), q, -q)


# --------------------------------------------------------------------- arrays

class Buf(object):
    __slots__ = ('fn', 'owner', 'version')

    def __init__(self, fn):
        self.fn = fn
        self.version = 0


class Stride(object):
    """a stride as a linear combination of the strides of the buffer's axes"""

    def __init__(self, coef, src):
        self.coef, self.src = coef, src

    def __mul__(self, k):
        if not isint(k):
            raise Unsupported('stride arithmetic')
        return Stride({a: c * k for a, c in self.coef.items()}, self.src)
    __rmul__ = __mul__

    def __add__(self, o):
        if not isinstance(o, Stride) or o.src is not self.src:
            raise Unsupported('stride arithmetic')
        d = dict(self.coef)
        for a, c in o.coef.items():
            d[a] = d.get(a, 0) + c
        return Stride(d, self.src)

    def __int__(self):
        raise TypeError('stride')

    def __index__(self):
        raise Unsupported('numeric value of a stride')


class Flags(object):
    def __init__(self, contig):
        self.contig = contig

    def __getitem__(self, k):
        if k in ('C_CONTIGUOUS', 'C', 'CONTIGUOUS'):
            return self.contig
        if k == 'WRITEABLE':
            return True
        raise Unsupported('flag ' + k)

    c_contiguous = property(lambda s: s.contig)
    writeable = True


class ndarray(object):
    __slots__ = ('_buf', '_shape', '_dtype', '_map', '_inv', '_contig', '_gather', '_filter', '_perm', '__weakref__')
    __array_priority__ = 0.0

    def __new__(cls, shape=None, dtype=None, buffer=None, offset=0, strides=None, order=None, **k):
        if buffer is None:
            if strides is not None:
                raise Unsupported('strides without buffer')
            return view_as(empty(shape, dtype or float64), cls)
        if not isinstance(buffer, ndarray) or offset != 0:
            raise Unsupported('array over a foreign buffer')
        if strides is None:
            raise Unsupported('array over a buffer without strides')
        if to_dtype(dtype) != buffer.dtype:
            raise Unsupported('array over a buffer with another element type')
        if not truth_contig(buffer):
            raise ValueError('ndarray is not C-contiguous')
        return view_as(strided_view(buffer, norm_shape_(shape), tuple(strides)), cls)

    def __init__(self, *a, **k):
        pass

    @staticmethod
    def _make(buf, shape, dt, mp=None, inv=None, cls=None, contig=True):
        a = builtins.object.__new__(ndarray)
        a._buf, a._shape, a._dtype, a._map, a._inv, a._contig = buf, tuple(shape), dt, mp, inv, contig
        return a

    # -- elements
    def _get(self, idx):
        idx = tuple(idx)
        f = self._buf.fn
        return f(self._map(idx) if self._map else idx)

    def _snapshot(self):
        """element function insensitive to later writes"""
        f, m = self._buf.fn, self._map
        return (lambda idx: f(m(tuple(idx)))) if m else (lambda idx: f(tuple(idx)))

    def _invert(self, b):
        if self._map is None:
            return True, b
        if self._inv is None:
            raise Unsupported('write through a view whose index map is not invertible')
        return self._inv(b)

    # -- attributes
    @property
    def shape(self):
        return self._shape

    @shape.setter
    def shape(self, s):
        raise Unsupported('assigning shape')

    @property
    def ndim(self):
        return builtins.len(self._shape)

    @property
    def dtype(self):
        return self._dtype

    @property
    def size(self):
        return prod(self._shape)

    @property
    def itemsize(self):
        return self._dtype.itemsize

    @property
    def strides(self):
        return tuple(Stride({i: 1}, self) for i in builtins.range(self.ndim))

    @property
    def flags(self):
        c = self._contig
        if c is None:
            c = self._contig = core.choose('contiguous')
        return Flags(c)

    @property
    def T(self):
        return ndarray.transpose(self)

    @property
    def flat(self):
        return self.flatten()

    @property
    def real(self):
        if self._dtype.kind == 'c':
            raise Unsupported('complex numbers')
        return self._like(self)

    @property
    def base(self):
        raise Unsupported('base')

    def __array_finalize__(self, obj):
        pass

    def __array_wrap__(self, obj, context=None):
        return view_as(obj, type(self), self)

    def _like(self, arr):
        """result of a method on self: same subclass"""
        return view_as(arr, type(self), self) if type(self) is not ndarray else arr

    def view(self, t=None, **k):
        if t is None:
            return view_as(self, type(self), self)
        if isinstance(t, type) and issubclass(t, ndarray) and not isinstance(t, _ScalarMeta):
            return view_as(self, t, self)
        return reinterpret(self, to_dtype(t))

    def astype(self, d, copy=True):
        d = to_dtype(d)
        if not copy and d == self._dtype:
            return self
        f = self._snapshot()
        src = self._dtype
        return self._like(lazy(self._shape, d, lambda i: conv(f(i), d, src)))

    def copy(self, order='C'):
        return self._like(lazy(self._shape, self._dtype, self._snapshot()))

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def item(self, *a):
        if a:
            raise Unsupported('item(args)')
        if self.ndim == 0:
            return self._get(())
        if builtins.all(s == 1 for s in self._shape):
            return self._get((0,) * self.ndim)
        raise ValueError('can only convert an array of size 1 to a Python scalar')

    def tolist(self):
        if self.ndim == 0:
            return self._get(())
        n = self._shape[0]
        g = self._snapshot()
        if self.ndim == 1:
            s = SSeq(n, lambda k: g((k,)), 'list')
        else:
            s = SSeq(n, lambda k: ndarray.__getitem__(asarray(self), k).tolist(), 'list')
        return B.BI[list](s)

    def __len__(self):
        if not self._shape:
            raise TypeError('len() of unsized object')
        return self._shape[0]

    def __sseq__(self):
        if not self._shape:
            return None
        return SSeq(self._shape[0], lambda k: row(self, k), 'gen')

    def __iter__(self):
        if not self._shape:
            raise TypeError('iteration over a 0-d array')
        n = self._shape[0]
        if not concrete(n):
            return B.SIter(self.__sseq__())
        return iter([self[i] for i in builtins.range(n)])

    def __bool__(self):
        sz = self.size
        if concrete(sz) and sz == 1:
            return truth_value(self._get((0,) * self.ndim))
        if concrete(sz) and sz == 0:
            return False
        if not concrete(sz):
            if fork(zint(sz) == 1):
                return truth_value(self._get((0,) * self.ndim))
        raise ValueError('The truth value of an array with more than one element is ambiguous.')

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __contains__(self, x):
        return builtins.bool(any_(self == x))

    def __sym_int__(self):
        return B.int_(self.item())

    def __sym_float__(self):
        return B.float_(self.item())

    def __index__(self):
        if self.ndim == 0 and self._dtype.kind in 'iu':
            v = self._get(())
            if concrete(v):
                return v
            raise Unsupported('symbolic 0-d index')
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def _alone(self):
        if builtins.all(s == 1 for s in self._shape):
            return self._get((0,) * self.ndim)
        raise TypeError('only length-1 arrays can be converted to Python scalars')

    def __int__(self):
        return B.int_(self._alone())

    def __float__(self):
        return B.float_(self._alone())

    # -- indexing
    def __getitem__(self, index):
        r = getitem(self, index)
        if isinstance(r, ndarray) and type(self) is not type(r):
            r = view_as(r, type(self), self)
        return r

    def __setitem__(self, index, value):
        setitem(self, index, value)

    # -- shape manipulation
    def reshape(self, *shape, order='C'):
        if builtins.len(shape) == 1 and not isint(shape[0]):
            shape = tuple(shape[0])
        elif builtins.len(shape) == 2 and not isint(shape[0]):
            shape, order = tuple(shape[0]), shape[1]
        return self._like(reshape_(self, shape, order))

    def squeeze(self, axis=None):
        if axis is not None:
            raise Unsupported('squeeze(axis)')
        return self._like(squeeze_(self))

    def transpose(self, *axes):
        if builtins.len(axes) == 1 and (axes[0] is None or not isint(axes[0])):
            axes = axes[0]
        if axes and (builtins.len(axes) != self.ndim):
            raise ValueError("axes don't match array")
        perm = tuple(axes) if axes else tuple(reversed(builtins.range(self.ndim)))
        perm = tuple(p + self.ndim if p < 0 else p for p in perm)
        back = [perm.index(i) for i in builtins.range(self.ndim)]
        return self._like(derive(
            self, [self._shape[p] for p in perm],
            lambda i: tuple(i[back[k]] for k in builtins.range(builtins.len(back))),
            lambda b: (True, tuple(b[p] for p in perm)),
            contig=True if self.ndim <= 1 else None))

    def swapaxes(self, a, b):
        p = list(builtins.range(self.ndim))
        p[a], p[b] = p[b], p[a]
        return ndarray.transpose(self, p)

    def flatten(self, order='C'):
        return self._like(reshape_(lazy(self._shape, self._dtype, self._snapshot()), (-1,), order))

    def ravel(self, order='C'):
        return self._like(reshape_(self, (-1,), order))

    def repeat(self, *a, **k):
        raise Unsupported('repeat')

    def fill(self, v):
        self[...] = v

    # -- reductions
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return self._red('sum', axis, keepdims, out)

    def max(self, axis=None, out=None, keepdims=False, **k):
        return self._red('max', axis, keepdims, out)

    def min(self, axis=None, out=None, keepdims=False, **k):
        return self._red('min', axis, keepdims, out)

    def prod(self, axis=None, **k):
        return self._red('prod', axis, False, None)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return self._red('mean', axis, keepdims, out)

    def std(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return self._red('std', axis, keepdims, out)

    def any(self, axis=None, **k):
        return self._red('any', axis, False, None)

    def all(self, axis=None, **k):
        return self._red('all', axis, False, None)

    def argmax(self, axis=None):
        return argx(self, axis, 'max')

    def argmin(self, axis=None):
        return argx(self, axis, 'min')

    def argsort(self, *a, **k):
        return argsort(self, *a, **k)

    def sort(self, axis=-1):
        raise Unsupported('in-place sort')

    def cumsum(self, axis=None):
        return cumsum(self, axis)

    def _red(self, op, axis, keepdims, out):
        if out is not None:
            raise Unsupported('out=')
        r = reduce_axes(self, op, axis, keepdims)
        if type(self) is ndarray:
            return r
        if not isinstance(r, ndarray):
            v = r
            r = lazy((), self._dtype, lambda ix: v)
        # subclasses get to wrap the result, scalars too
        return type(self).__array_wrap__(self, r)

    def dot(self, b):
        return dot(self, b)

    def clip(self, lo, hi):
        return clip(self, lo, hi)

    def round(self, d=0):
        return round(self, d)

    def tobytes(self, order='C'):
        return SBytes(self)

    tostring = tobytes

    # -- arithmetic
    def __add__(self, o): return binop(add, self, o)
    def __radd__(self, o): return binop(add, o, self)
    def __sub__(self, o): return binop(subtract, self, o)
    def __rsub__(self, o): return binop(subtract, o, self)
    def __mul__(self, o): return binop(multiply, self, o)
    def __rmul__(self, o): return binop(multiply, o, self)
    def __truediv__(self, o): return binop(divide, self, o)
    def __rtruediv__(self, o): return binop(divide, o, self)
    def __floordiv__(self, o): return binop(floor_divide, self, o)
    def __rfloordiv__(self, o): return binop(floor_divide, o, self)
    def __mod__(self, o): return binop(remainder, self, o)
    def __pow__(self, o): return binop(power, self, o)
    def __rpow__(self, o): return binop(power, o, self)
    def __xor__(self, o): return binop(bitwise_xor, self, o)
    def __rxor__(self, o): return binop(bitwise_xor, o, self)
    def __and__(self, o): return binop(bitwise_and, self, o)
    def __rand__(self, o): return binop(bitwise_and, o, self)
    def __or__(self, o): return binop(bitwise_or, self, o)
    def __ror__(self, o): return binop(bitwise_or, o, self)
    def __lt__(self, o): return binop(less, self, o)
    def __le__(self, o): return binop(less_equal, self, o)
    def __gt__(self, o): return binop(greater, self, o)
    def __ge__(self, o): return binop(greater_equal, self, o)
    def __eq__(self, o): return binop(equal, self, o)
    def __ne__(self, o): return binop(not_equal, self, o)
    def __neg__(self): return negative(self)
    def __abs__(self): return absolute(self)
    def __invert__(self): return invert(self)

    def _inplace(self, uf, o):
        if not isinstance(o, ndarray) and getattr(type(o), '__array_ufunc__', None) is not None:
            return uf(self, o, out=(self,))
        r = uf(asarray(self), o if not isinstance(o, ndarray) else asarray(o))
        if r.ndim > self.ndim:
            raise ValueError('non-broadcastable output operand')
        if self._dtype.kind in 'iu' and dtype_of(r).kind == 'f':
            raise TypeError('Cannot cast ufunc output from float64 to int64')
        r = lazy(r.shape, r.dtype, r._snapshot())
        assign(self, r)
        return self

    def __iadd__(self, o): return self._inplace(add, o)
    def __isub__(self, o): return self._inplace(subtract, o)
    def __imul__(self, o): return self._inplace(multiply, o)
    def __itruediv__(self, o): return self._inplace(divide, o)

    def __repr__(self):
        return '<marray %s %s>' % (self._dtype.name, self._shape)

    def __format__(self, s):
        return '<array>'

    @staticmethod
    def __sym_ite__(c, a, b):
        if a.ndim != b.ndim or not builtins.all(same(x, y) for x, y in zip(a._shape, b._shape)):
            return NotImplemented
        if type(a) is not ndarray or type(b) is not ndarray:
            return NotImplemented
        f, g = a._snapshot(), b._snapshot()
        return lazy(a._shape, result_dtype(a._dtype, b._dtype), lambda i: ite(wrap(c), f(i), g(i)))


def row(a, k):
    """a[k] for k known to be in range"""
    if type(a) is ndarray and a.ndim == 1:
        return a._get((k,))
    if type(a) is ndarray:
        B.UNCHECKED[0] = True
        try:
            return getitem(a, k)
        finally:
            B.UNCHECKED[0] = False
    return a[k]


class memmap(ndarray):
    pass


def truth_value(v):
    if type(v) is SBool or is_sym(v):
        return fork(zbool(v))
    return builtins.bool(v)


def truth_contig(a):
    return a.flags['C_CONTIGUOUS']


def view_as(arr, cls, parent=None):
    """same memory, given class; runs __array_finalize__"""
    o = builtins.object.__new__(cls)
    for k in ('_buf', '_shape', '_dtype', '_map', '_inv', '_contig'):
        setattr(o, k, getattr(arr, k))
    if cls is not ndarray:
        cls.__array_finalize__(o, parent if parent is not None else arr)
    return o


def lazy(shape, dt, fn):
    return ndarray._make(Buf(fn), shape, to_dtype(dt))


def derive(a, shape, to, back, contig=None):
    """a view of a: index map `to` into a's indices, `back` its inverse (or None)"""
    m, inv = a._map, a._inv
    mp = (lambda i: m(to(tuple(i)))) if m else (lambda i: to(tuple(i)))
    if back is None or (m is not None and inv is None):
        bk = None
    elif m is None:
        bk = back
    else:
        def bk(b):
            c1, i1 = inv(b)
            c2, i2 = back(i1)
            return conj(c1, c2), i2
    return ndarray._make(a._buf, shape, a._dtype, mp, bk, contig=contig)


def conj(a, b):
    if a is True:
        return b
    if b is True:
        return a
    return core.And(a, b)


def prod(xs):
    r = 1
    for x in xs:
        r = r * x
    return r


def norm_shape_(s):
    if isint(s):
        return (s,)
    s = tuple(s)
    return tuple(as_index(x) for x in s)


def nonneg(shape):
    for s in shape:
        bad = s < 0
        if bad if type(bad) is builtins.bool else fork(zbool(bad)):
            raise ValueError('negative dimensions are not allowed')


def fresh_fn(prefix, rank, kind):
    nm = ctx().fresh(prefix)
    sort = {'f': z3.RealSort(), 'i': z3.IntSort(), 'u': z3.IntSort(), 'b': z3.BoolSort(), 'bv': z3.BitVecSort(64)}[kind]
    if rank == 0:
        v = z3.Const(nm, sort)
        return lambda i: wrap(v)
    f = z3.Function(nm, *([z3.IntSort()] * rank + [sort]))
    return lambda i: wrap(f(*[zint(x) for x in i]))


def symarray(name, shape, dt=None, contig=True):
    """an arbitrary input array"""
    dt = to_dtype(dt or 'float64')
    shape = tuple(shape)
    fn = fresh_fn(name, builtins.len(shape), dt.kind if dt.kind in 'fiub' else 'i' if dt.kind == 'm' else 'f')
    if dt.kind == 'm':
        cnt = fn

        def fn(i):
            return timedelta64(cnt(i), dt.unit)
    if dt.kind == 'u':
        g = fn

        def fn(i):
            v = g(i)
            if is_sym(v):
                ctx().add(z3.And(zint(v) >= 0, zint(v) < 256 ** dt.itemsize))
            return v
    a = lazy(shape, dt, fn)
    a._contig = contig
    return a


def empty(shape, dtype=None, order='C'):
    shape = norm_shape_(shape)
    nonneg(shape)
    dt = to_dtype(dtype)
    if dt.kind == 'V':
        return recarray(shape, dtype=dt)
    if dt.kind == 'O' or dt.kind == 'S':
        return lazy(shape, dt, lambda i: None)
    if dt.kind == 'm':
        f = fresh_fn('uninit', builtins.len(shape), 'i')
        return lazy(shape, dt, lambda i: timedelta64(f(i), dt.unit))
    return lazy(shape, dt, fresh_fn('uninit', builtins.len(shape), dt.kind))


def zeros(shape, dtype=None, order='C'):
    dt = to_dtype(dtype)
    shape = norm_shape_(shape)
    nonneg(shape)
    z = cast(0, dt)
    return lazy(shape, dt, lambda i: z)


def ones(shape, dtype=None, order='C'):
    dt = to_dtype(dtype)
    shape = norm_shape_(shape)
    nonneg(shape)
    z = cast(1, dt)
    return lazy(shape, dt, lambda i: z)


def full(shape, v, dtype=None):
    dt = to_dtype(dtype) if dtype else dtype_of(v)
    z = cast(v, dt)
    return lazy(norm_shape_(shape), dt, lambda i: z)


def _keep(a, r, subok=True):
    return view_as(r, type(a), a) if isinstance(a, ndarray) and type(a) is not ndarray and subok else r


def zeros_like(a, dtype=None, **k):
    if type(a) is not ndarray and isinstance(a, ndarray):
        return _keep(a, zeros(a.shape, dtype or a.dtype))
    a = asarray(a)
    return zeros(a.shape, dtype or a.dtype)


def ones_like(a, dtype=None, **k):
    return _keep(a, ones(asarray(a).shape, dtype or asarray(a).dtype))


def empty_like(a, dtype=None, **k):
    return _keep(a, empty(asarray(a).shape, dtype or asarray(a).dtype))


def full_like(a, v, dtype=None, **k):
    return _keep(a, full(asarray(a).shape, v, dtype or asarray(a).dtype))


def eye(n, m=None, dtype=None):
    dt = to_dtype(dtype)
    o, z = cast(1, dt), cast(0, dt)
    return lazy((n, n if m is None else m), dt, lambda i: ite(Eq(i[0], i[1]), o, z))


def arange(*a, dtype=None):
    a = list(a)
    if builtins.all(isint(x) for x in a):
        r = B.range_(*a)
        s = as_sseq(r)
        return lazy((s.length,), dtype or int64, lambda i: cast(s.get(i[0]), dtype) if dtype else s.get(i[0]))
    raise Unsupported('arange of reals')


def linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None):
    trust('numpy.linspace: element i is start + i*(stop-start)/(num-1 or num), over the reals')
    start, stop = unbox(start), unbox(stop)
    neg = num < 0
    if neg if type(neg) is builtins.bool else fork(zbool(neg)):
        raise ValueError('Number of samples, %s, must be non-negative.')
    div = (num - 1) if endpoint else num
    if concrete(div):
        step = rdiv(stop - start, div) if div > 0 else 0.0
    else:
        step = rdiv(stop - start, div) if fork(zint(div) > 0) else 0.0
    r = lazy((num,), float64, lambda i: wrap(zreal(start + i[0] * step)))
    return (r, step) if retstep else r


def geomspace(start, stop, num=50, **k):
    """contract used: strictly monotone from start to stop (endpoints exact), same sign"""
    trust('numpy.geomspace: positive, strictly monotone, exact end points (values otherwise unspecified)')
    start, stop = unbox(start), unbox(stop)
    nm = ctx().fresh('geom')
    f = z3.Function(nm, z3.IntSort(), z3.RealSort())
    i, j = z3.Ints('gi gj')
    n = zint(num)
    c = ctx()
    lo, hi = zreal(start), zreal(stop)
    c.add(z3.Implies(n >= 1, f(0) == lo))
    c.add(z3.Implies(n >= 2, f(n - 1) == hi))
    c.add(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i < j, j < n, lo < hi), f(i) < f(j)), patterns=[z3.MultiPattern(f(i), f(j))]))
    c.add(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < n, lo > 0, hi > 0), f(i) > 0), patterns=[f(i)]))
    return lazy((num,), float64, lambda ix: SReal(f(zint(ix[0]))))


def unbox(x):
    return x._v if isinstance(x, B.EFloat) else x


def asarray(a, dtype=None, order=None):
    if isinstance(a, ndarray):
        r = a if type(a) is ndarray else view_as(a, ndarray)
        if dtype is not None and to_dtype(dtype) != r.dtype:
            r = r.astype(dtype)
        return r
    return array(a, dtype)


def asanyarray(a, dtype=None):
    return a if isinstance(a, ndarray) else asarray(a, dtype)


def ascontiguousarray(a, dtype=None):
    r = asarray(a, dtype)
    return r if r._contig is True else r.copy()


def array(a, dtype=None, copy=True, ndmin=0, **k):
    dt = to_dtype(dtype) if dtype is not None else None
    if isinstance(a, ndarray):
        r = lazy(a._shape, a._dtype, a._snapshot())
        return r.astype(dt) if dt is not None and dt != r.dtype else r
    s = None
    if not isinstance(a, (str, bytes)) or issubclass(type(a), SSeq):
        s = as_sseq(a)
    if s is None and isinstance(a, types.GeneratorType):
        raise Unsupported('array of a generator')
    if s is None:
        v = unbox(a)
        d = dt or dtype_of(v)
        v = cast(v, d)
        return lazy((), d, lambda i: v)
    if concrete(s.length):
        n = s.length
        if n == 0:
            return lazy((0,), dt or float64, lambda i: cast(0, dt or float64))
        items = [s.get(j) for j in builtins.range(n)]
        subs = [array(x) if (isinstance(x, (ndarray, list, tuple)) or issubclass(type(x), SSeq)) else None for x in items]
        if builtins.any(x is not None for x in subs):
            if builtins.any(x is None for x in subs):
                raise ValueError('setting an array element with a sequence.')
            sh = subs[0]._shape
            for x in subs[1:]:
                if builtins.len(x._shape) != builtins.len(sh) or not builtins.all(same(p, q) for p, q in zip(x._shape, sh)):
                    raise Unsupported('array of unequal rows')
            d = dt or result_dtype(*[x._dtype for x in subs])
            fs, ds = [x._snapshot() for x in subs], [x._dtype for x in subs]

            def fn(i):
                k = i[0]
                if concrete(k):
                    return conv(fs[k](i[1:]), d, ds[k])
                v = conv(fs[-1](i[1:]), d, ds[-1])
                for j in builtins.range(n - 2, -1, -1):
                    v = ite(Eq(k, j), conv(fs[j](i[1:]), d, ds[j]), v)
                return v
            return lazy((n,) + tuple(sh), d, fn)
        items = [unbox(x) for x in items]
        if dt is None:
            d = result_dtype(*[dtype_of(x) for x in items])
            if d.kind == 'm':
                us = [x.unit for x in items]
                d = td_dtype(us[0] if builtins.len(set(us)) == 1 else builtins.max(us, key=ORDER.index))
        else:
            d = dt
        if builtins.any(isinstance(x, Stride) for x in items):
            d = DT['object']
        items = [cast(x, d) for x in items]
        q = as_sseq(items)
        return lazy((n,), d, lambda i: q.get(i[0]))
    # symbolic length: element type from a generic element
    probe = s.get(fresh_int('probe', 0, s.length)) if core._check(zint(s.length) > 0) != z3.unsat else 0.0
    if isinstance(probe, ndarray):
        sh = probe._shape
        d, pd = dt or probe._dtype, probe._dtype
        return lazy((s.length,) + tuple(sh), d, lambda i: conv(s.get(i[0])._get(i[1:]), d, pd))
    if isinstance(probe, (list, tuple)):
        m = builtins.len(probe)
        d = dt or result_dtype(*[dtype_of(x) for x in probe])
        return lazy((s.length, m), d, lambda i: cast(as_sseq(s.get(i[0])).get(i[1]), d))
    d = dt or dtype_of(unbox(probe))
    if d.kind == 'm':
        u = d.unit
        return lazy((s.length,), d, lambda i: timedelta64(unbox(s.get(i[0])).in_unit(u), u))
    return lazy((s.length,), d, lambda i: cast(unbox(s.get(i[0])), d))


def frombuffer(b, dtype=None, count=-1, offset=0):
    f = getattr(type(b), '__frombuffer__', None)
    if f is not None:
        return f(b, to_dtype(dtype))
    raise Unsupported('frombuffer')


fromstring = frombuffer


def fromiter(it, dtype=None, count=-1):
    return array(it if as_sseq(it) is not None else list(it), dtype)


class SBytes(object):
    """the bytes of an array"""

    def __init__(self, arr):
        self.arr = lazy(arr._shape, arr._dtype, arr._snapshot())

    @property
    def __class__(self):
        return bytes

    def __len__(self):
        return self.arr.size * self.arr.itemsize

    def __frombuffer__(self, d):
        if d == self.arr.dtype:
            return self.arr.reshape(-1)
        e = self.arr.dtype
        if d.kind in 'iu' and e.kind in 'iu' and d.itemsize == e.itemsize:
            trust('integers of the same size are reinterpreted modulo a power of two')
            m = 256 ** d.itemsize
            a = self.arr.reshape(-1)
            if d.kind == 'u':
                return lazy(a._shape, d, lambda i: ite(a._get(i) < 0, a._get(i) + m, a._get(i)))
            return lazy(a._shape, d, lambda i: ite(a._get(i) >= m // 2, a._get(i) - m, a._get(i)))
        raise Unsupported('reinterpretation of bytes')


def reinterpret(a, d):
    raise Unsupported('view as %s' % d.name)


# ------------------------------------------------------------------- indexing

class MaskIndex(object):
    """np.where(cond): used as an index it selects where cond holds"""

    def __init__(self, cond):
        self.cond = cond


class WhereResult(tuple):
    """result of one-argument where(): a tuple of position arrays, made lazily"""
    pass


class Items(list):
    sep = None       # where an ellipsis stood that stands for no axis: it still keeps index arrays apart


def normalize_index(a, index):
    if not isinstance(index, tuple) or issubclass(type(index), SSeq):
        index = (index,)
    out = []
    n_used = 0
    for x in index:
        if x is None or x is Ellipsis:
            continue
        if isinstance(x, ndarray) and x._dtype.kind == 'b':
            n_used += x.ndim
        else:
            n_used += 1
    n_ell = builtins.sum(1 for x in index if x is Ellipsis)
    if n_ell > 1:
        raise IndexError("an index can only have a single ellipsis ('...')")
    if n_used > a.ndim:
        raise IndexError('too many indices for array: array is %d-dimensional, but %d were indexed' % (a.ndim, n_used))
    fill = a.ndim - n_used
    seen = False
    out = Items()
    for x in index:
        if x is Ellipsis:
            if fill == 0:
                out.sep = builtins.len(out)
            out += [slice(None)] * fill
            seen = True
        else:
            out.append(x)
    if not seen:
        out += [slice(None)] * fill
    return out


def is_arrayish(x):
    return isinstance(x, (ndarray, list)) or issubclass(type(x), SSeq) or (isinstance(x, tuple)) or isinstance(x, builtins.range)


def getitem(a, index):
    if isinstance(index, WhereResult):
        raise Unsupported('read through where()')
    if isinstance(index, ndarray) and index._dtype.kind == 'b':
        return bool_select(a, index)
    items = normalize_index(a, index)
    adv = [x for x in items if is_arrayish(x)]
    if not adv:
        shape, to, back, scalar = basic(a, items)
        if scalar and not (index is Ellipsis or (isinstance(index, tuple) and builtins.any(x is Ellipsis for x in index))):
            v = a._get(to(()))
            return npscalar(v) if type(a) is not ndarray and a.ndim > 1 else v
        full_slice = builtins.all(isinstance(x, slice) for x in items)
        # leading-axis slices with unit step of a contiguous array stay contiguous
        contig = None
        if a._contig is True:
            if builtins.all(x == slice(None) for x in items[1:] if isinstance(x, slice)) and builtins.all(isinstance(x, slice) or x is None for x in items[1:]) \
                    and (isint(items[0]) or (isinstance(items[0], slice) and (items[0].step is None or (concrete(items[0].step) and items[0].step == 1)))) if items else True:
                contig = True
        return derive(a, shape, to, back, contig)
    return advanced(a, items)


def npscalar(v):
    """a numpy scalar: a number that knows it has no axes"""
    if type(v) in (SReal, SInt):
        v = type(v)(v.z)
        v.ndim, v.shape, v.size = 0, (), 1
    return v


def basic(a, items):
    """basic indexing: out shape, out idx -> a idx, a idx -> (cond, out idx)"""
    shape = []
    plan = []        # per a-axis: ('int', i) or ('sl', outpos, start, step, length)
    outpos = []
    ax = 0
    for x in items:
        if x is None:
            shape.append(1)
            outpos.append(None)
            continue
        n = a._shape[ax]
        if isinstance(x, slice):
            start, stop, step, length = slice_indices(x, n)
            plan.append(('sl', builtins.len(shape), start, step, length))
            shape.append(length)
            outpos.append(ax)
        else:
            if isinstance(x, builtins.bool):
                raise Unsupported('boolean scalar index')
            if isinstance(x, builtins.float) or not (isint(x) or hasattr(type(x), '__index__')):
                raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices')
            i = norm_index(as_index(x), n, 'index is out of bounds; index')
            plan.append(('int', i))
        ax += 1
    nd = builtins.len(shape)

    def to(idx):
        r = []
        for p in plan:
            if p[0] == 'int':
                r.append(p[1])
            else:
                _, o, start, step, _l = p
                k = idx[o]
                if concrete(step) and step == 1:
                    r.append(start + k)
                else:
                    r.append(start + k * step)
        return tuple(r)

    def back(b):
        cond = True
        out = [0] * nd
        for bb, p in zip(b, plan):
            if p[0] == 'int':
                cond = conj(cond, Eq(bb, p[1]))
            else:
                _, o, start, step, length = p
                d = bb - start
                if concrete(step) and step == 1:
                    q = d
                else:
                    q, r = d // step, d % step
                    cond = conj(cond, Eq(r, 0))
                cond = conj(cond, conj(ge0(q), lt(q, length)))
                out[o] = q
        return cond, tuple(out)
    return tuple(shape), to, back, nd == 0


def ge0(x):
    return x >= 0


def lt(a, b):
    return a < b


def intarray(x):
    r = asarray(x)
    if r._dtype.kind not in 'iu':
        if not isinstance(x, ndarray) and r.ndim == 1 and same(r._shape[0], 0):
            return zeros(0, int64)
        raise IndexError('arrays used as indices must be of integer (or boolean) type')
    return r


def advanced_plan(a, items):
    """integer-array indexing (one or more index arrays), optionally mixed with slices"""
    arrs = []
    pos = []
    conv = []
    for j, x in enumerate(items):
        if is_arrayish(x):
            if isinstance(x, ndarray) and x._dtype.kind == 'b':
                if x.ndim != 1:
                    raise Unsupported('mask inside an index tuple')
                x = mask_positions(x)
            x = intarray(x)
            arrs.append(x)
            pos.append(j)
            conv.append(x)
        else:
            conv.append(x)
    # integers join the broadcast when index arrays are present
    for j, x in enumerate(conv):
        if isint(x):
            pos.append(j)
            arrs.append(lazy((), int64, lambda i, x=x: x))
            conv[j] = arrs[-1]
    pos_s = sorted(pos)
    sep = getattr(items, 'sep', None)
    consecutive = builtins.all(q - p == 1 for p, q in zip(pos_s, pos_s[1:])) \
        and not (sep is not None and pos_s[0] < sep <= pos_s[-1])
    bshape = broadcast_shapes(*[x._shape for x in arrs])
    # bounds
    ax = 0
    plan = []
    for x in conv:
        if x is None:
            plan.append(('new',))
            continue
        n = a._shape[ax]
        if isinstance(x, slice):
            start, stop, step, length = slice_indices(x, n)
            plan.append(('sl', start, step, length))
        else:
            f = x._snapshot()
            sh = x._shape
            check_bounds(f, sh, n)
            if builtins.len(sh) == builtins.len(bshape) and builtins.all(same(p, q) for p, q in zip(sh, bshape)):
                f = lambda i, f=f: f(i)
                f.exact = True
            plan.append(('adv', f, sh, n))
        ax += 1
    first = pos_s[0]
    out_shape = []
    slots = []
    placed = False
    for j, p in enumerate(plan):
        if p[0] == 'adv':
            if consecutive and not placed:
                out_shape += list(bshape)
                placed = True
            continue
        slots.append(builtins.len(out_shape))
        out_shape.append(1 if p[0] == 'new' else p[3])
    b0 = builtins.sum(1 for p in plan[:first] if p[0] != 'adv')
    if not consecutive:
        nb = builtins.len(bshape)
        out_shape = list(bshape) + out_shape
        slots = [s + nb for s in slots]
        b0 = 0
    return plan, bshape, out_shape, slots, b0


def wrapped(v, n):
    if concrete(v):
        return v + n if v < 0 else v
    return ite(v < 0, v + n, v) if not entails(zint(v) >= 0) else v


def advanced(a, items):
    plan, bshape, out_shape, slots, b0 = advanced_plan(a, items)
    nb = builtins.len(bshape)
    src = a._snapshot()

    def to(idx):
        bidx = idx[b0:b0 + nb]
        r = []
        si = 0
        for p in plan:
            if p[0] == 'new':
                si += 1
            elif p[0] == 'sl':
                k = idx[slots[si]]
                si += 1
                r.append(p[1] + k * p[2] if not (concrete(p[2]) and p[2] == 1) else p[1] + k)
            else:
                r.append(wrapped(p[1](bidx if hasattr(p[1], 'exact') else bcast_idx(bidx, p[2])), p[3]))
        return tuple(r)
    res = lazy(out_shape, a._dtype, lambda idx: src(to(tuple(idx))))
    res._gather = to
    return res


def advanced_write(a, items, value):
    """a[items] = value through index arrays with one joint axis: the last write to an element wins"""
    plan, bshape, out_shape, slots, b0 = advanced_plan(a, items)
    if builtins.len(bshape) != 1:
        raise Unsupported('write through an n-d index array')
    m = bshape[0]
    adv = [p for p in plan if p[0] == 'adv']
    fs = [lambda j, p=p: p[1]((j,) if hasattr(p[1], 'exact') else bcast_idx((j,), p[2])) for p in adv]
    if isinstance(value, (list, tuple)) or issubclass(type(value), SSeq):
        value = asarray(value)
    if isinstance(value, ndarray):
        check_broadcast_to(value._shape, tuple(out_shape))
        vf, vs = value._snapshot(), value._shape
        while builtins.len(vs) > builtins.len(out_shape):
            vf, vs = (lambda i, g=vf: g((0,) + tuple(i))), vs[1:]
        vd = value._dtype
        val = lambda o: conv(vf(bcast_idx(tuple(o), vs)), a._dtype, vd)
    else:
        v0 = cast(value, a._dtype)
        val = lambda o: v0
    lw = LastWrite(fs, m, [p[3] for p in adv])

    def cond_val(b):
        cond = True
        o = [0] * builtins.len(out_shape)
        keys = []
        b = iter(b)
        si = 0
        for p in plan:
            if p[0] == 'new':
                si += 1
            elif p[0] == 'sl':
                _, start, step, length = p
                d = next(b) - start
                if concrete(step) and step == 1:
                    q = d
                else:
                    q, r = d // step, d % step
                    cond = conj(cond, Eq(r, 0))
                cond = conj(cond, conj(ge0(q), lt(q, length)))
                o[slots[si]] = q
                si += 1
            else:
                keys.append(next(b))
        cond = conj(cond, lw.hit(*keys))

        def v():
            o[b0] = lw.last(*keys)
            return val(o)
        return cond, v
    write(a, cond_val)


def check_bounds(f, sh, n):
    """every element of an index array must be within [-n, n); forks to IndexError"""
    if builtins.all(concrete(s) for s in sh) and prod(sh) <= 64:
        import itertools
        for ix in itertools.product(*[builtins.range(s) for s in sh]):
            v = f(ix)
            ok = core.And(v >= -n, v < n)
            if not (ok if type(ok) is builtins.bool else fork(zbool(ok))):
                raise IndexError('index is out of bounds for axis')
        return
    c = ctx()
    ks = [z3.Int(c.fresh('kb')) for _ in sh]
    v = f(tuple(SInt(k) for k in ks))
    rng = z3.And(*[z3.And(k >= 0, k < zint(s)) for k, s in zip(ks, sh)])
    okz = z3.And(zint(v) >= -zint(n), zint(v) < zint(n))
    # entailed for an arbitrary position?
    if core._check(z3.And(rng, z3.Not(okz))) == z3.unsat:
        return
    allok = z3.ForAll(ks, z3.Implies(rng, okz))
    if not fork(allok):
        raise IndexError('index is out of bounds for axis')


def broadcast_shapes(*shapes):
    nd = builtins.max([builtins.len(s) for s in shapes] or [0])
    out = []
    for j in builtins.range(nd):
        dims = [s[j - nd + builtins.len(s)] for s in shapes if j - nd + builtins.len(s) >= 0]
        d = dims[0]
        for e in dims[1:]:
            d = bdim(d, e)
        out.append(d)
    return tuple(out)


def bdim(a, b):
    if concrete(a) and a == 1:
        return b
    if concrete(b) and b == 1:
        return a
    if concrete(a) and concrete(b):
        if a == b:
            return a
        raise ValueError('operands could not be broadcast together')
    if same(a, b):
        return a if concrete(a) else b
    if fork(zint(a) == zint(b)):
        return a
    if fork(zint(a) == 1):
        return b
    if fork(zint(b) == 1):
        return a
    raise ValueError('operands could not be broadcast together')


def bcast_idx(idx, shape):
    """index into an operand of given shape, from an index of the broadcast result"""
    k = builtins.len(shape)
    tail = idx[builtins.len(idx) - k:] if k else ()
    out = []
    for i, s in zip(tail, shape):
        if concrete(s):
            out.append(0 if s == 1 else i)
        else:
            # a symbolic size that may be one
            if concrete(i) and i == 0:
                out.append(0)
            else:
                out.append(ite(Eq(s, 1), 0, i))
    return tuple(out)


def mask_positions(m):
    """positions where a 1-d boolean array is true, in increasing order"""
    f = m._snapshot()
    n = m._shape[0]
    if concrete(n):
        return asarray([i for i in builtins.range(n) if truth_value(f((i,)))] or zeros(0, int64))
    fl = B.SFilter(SSeq(n, lambda k: k), lambda k: f((k,)), lambda k: k, 'list')
    s = fl.seq()
    r = lazy((s.length,), int64, lambda i: s.get(i[0]))
    r._filter = fl
    return r


def bool_select(a, m):
    if m.ndim == 1:
        if not same(m._shape[0], a._shape[0]):
            raise IndexError('boolean index did not match indexed array along dimension 0')
        p = mask_positions(m)
        src = a._snapshot()
        f = p._snapshot()
        r = lazy((p._shape[0],) + a._shape[1:], a._dtype, lambda i: src((f((i[0],)),) + tuple(i[1:])))
        return r
    raise Unsupported('selection by an n-d mask')


# ---------------------------------------------------------------------- writes

def write(a, cond_val):
    """a's element i becomes cond_val(i) -> (cond, value); other memory is unchanged"""
    buf = a._buf
    old = buf.fn
    dt = a._dtype
    if a._map is None:
        inv = lambda b: (True, b)
    else:
        if a._inv is None:
            raise Unsupported('write through a non-invertible view')
        inv = a._inv

    def fn(b):
        c1, i = inv(b)
        if c1 is False:
            return old(b)
        if c1 is not True and not concrete(c1):
            z = z3.simplify(zbool(c1))
            if z3.is_false(z):
                return old(b)
        c2, v = cond_val(i)
        c = conj(c1, c2)
        if c is True:
            return v()
        if c is False:
            return old(b)
        return B._sel(c, v, lambda: old(b))
    buf.fn = fn
    buf.version += 1


def assign(view, value):
    """view[...] = value with broadcasting"""
    dt = view._dtype
    if isinstance(value, ndarray) or isinstance(value, (list, tuple)) or issubclass(type(value), SSeq):
        if dt.kind == 'O' and not isinstance(value, ndarray):
            value = objarray(value)
        v = asarray(value)
        check_broadcast_to(v._shape, view._shape)
        f = v._snapshot()
        vs = v._shape
        vn = builtins.len(view._shape)
        if builtins.len(vs) > vn:
            extra = builtins.len(vs) - vn
            g = f
            f = lambda i: g((0,) * extra + tuple(i))
            vs = vs[extra:]
        vd = v._dtype
        write(view, lambda i: (True, lambda: conv(f(bcast_idx(tuple(i), vs)), dt, vd)))
    else:
        v = cast(value, dt)
        write(view, lambda i: (True, lambda: v))


def objarray(value):
    s = as_sseq(value)
    return lazy((s.length,), DT['object'], lambda i: s.get(i[0]))


def check_broadcast_to(src, dst):
    src = list(src)
    while builtins.len(src) > builtins.len(dst):
        s = src.pop(0)
        if not same(s, 1):
            raise ValueError('could not broadcast input array from shape into shape')
    for s, d in zip(reversed(src), reversed(list(dst))):
        if concrete(s) and s == 1:
            continue
        if concrete(s) and concrete(d):
            if s != d:
                raise ValueError('could not broadcast input array from shape into shape')
            continue
        if same(s, d):
            continue
        if not fork(z3.Or(zint(s) == zint(d), zint(s) == 1)):
            raise ValueError('could not broadcast input array from shape into shape')


def setitem(a, index, value):
    if isinstance(index, WhereResult):
        index = index.mask
    if isinstance(index, MaskIndex):
        index = index.cond
    if isinstance(index, ndarray) and index._dtype.kind == 'b':
        f = index._snapshot()
        k = index.ndim
        if not builtins.all(same(x, y) for x, y in zip(index._shape, a._shape)):
            raise IndexError('boolean index did not match indexed array')
        if isinstance(value, ndarray) and value.ndim > 0:
            src = getattr(value, '_wheresrc', None)
            raise Unsupported('mask assignment from an array')
        v = cast(value, a._dtype)
        write(a, lambda i: (B.truth(f(tuple(i)[:k])), lambda: v))
        return
    items = normalize_index(a, index)
    if not builtins.any(is_arrayish(x) for x in items):
        shape, to, back, scalar = basic(a, items)
        view = derive(a, shape, to, back)
        assign(view, value)
        return
    advanced_write(a, items, value)


class LastWrite(object):
    """for index arrays fs[0..k-1] of length m into axes of ns rows: hit(r..) iff for some j every fs[a](j) == r[a],
    last(r..) the largest such j"""

    def __init__(self, fs, m, ns):
        trust('numpy integer-array assignment: the last write to an element wins')
        self.fs, self.m, self.ns = fs, m, ns           # ns: sizes (None: no negative indices)
        self.small = concrete(m) and m <= 8
        if self.small:
            return
        c = ctx()
        nm = c.fresh('lastw')
        k = builtins.len(fs)
        ints = [z3.IntSort()] * k
        self.H = z3.Function(nm + '.hit', *(ints + [z3.BoolSort()]))
        self.L = z3.Function(nm + '.last', *(ints + [z3.IntSort()]))
        rs = [z3.Int(c.fresh('lr')) for _ in fs]
        j = z3.Int(c.fresh('lj'))
        M = zint(m)

        def x(t):
            out = []
            for f, n in zip(fs, ns):
                v = f(SInt(t))
                out.append(zint(v) if n is None else z3.If(zint(v) < 0, zint(v) + zint(n), zint(v)))
            return out
        L = self.L(*rs)
        c.add(z3.ForAll(rs, z3.Implies(self.H(*rs), z3.And(0 <= L, L < M, *[p == q for p, q in zip(x(L), rs)])),
                        patterns=[self.H(*rs)]))
        xj = x(j)
        body = z3.Implies(z3.And(0 <= j, j < M), z3.And(self.H(*xj), self.L(*xj) >= j))
        # a pattern on a raw index function where possible
        pats = []
        for f in fs:
            p = zint(f(SInt(j)))
            if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_UNINTERPRETED and builtins.any(q.eq(j) for q in p.children()):
                pats.append(p)
        if pats:
            c.add(z3.ForAll([j], body, patterns=pats[:1]))
        else:
            c.add(z3.ForAll([j], body))

    def _eq(self, j, rs):
        return core.And(*[Eq(f(j) if n is None else wrapped(f(j), n), r) for f, n, r in zip(self.fs, self.ns, rs)])

    def hit(self, *rs):
        if self.small:
            return core.Or(*[self._eq(j, rs) for j in builtins.range(self.m)]) if self.m else False
        return wrap(self.H(*[zint(r) for r in rs]))

    def last(self, *rs):
        if self.small:
            v = 0
            for j in builtins.range(self.m):
                v = ite(self._eq(j, rs), j, v)
            return v
        return SInt(self.L(*[zint(r) for r in rs]))


# ------------------------------------------------------------- strided views

def strided_view(a, shape, strides):
    """memory reinterpretation with strides that are combinations of a's own strides"""
    strides = tuple(s for s in strides)
    if not builtins.all(isinstance(s, Stride) for s in strides):
        raise Unsupported('numeric strides')
    for s in strides:
        if s.src is not a and not (s.src._buf is a._buf and s.src._map is a._map and builtins.len(s.src._shape) == a.ndim):
            raise Unsupported('strides of another array')
    if builtins.len(strides) != builtins.len(shape):
        raise ValueError('strides is incompatible with shape')

    def to(idx):
        r = [0] * a.ndim
        for k, s in zip(idx, strides):
            for axx, c in s.coef.items():
                r[axx] = r[axx] + k * c
        return tuple(r)
    trust('numpy strided views: element at index k is the memory at sum(k_j * stride_j)')
    # in-bounds obligation for an arbitrary index
    c = ctx()
    ks = [fresh_int('sv') for _ in shape]
    hyp = z3.And(*[z3.And(zint(k) >= 0, zint(k) < zint(s)) for k, s in zip(ks, shape)])
    b = to(tuple(ks))
    goal = z3.And(*[z3.And(zint(x) >= 0, zint(x) < zint(n)) for x, n in zip(b, a._shape)])
    core.prove(z3.Implies(hyp, goal), 'strided view stays inside the array')
    return derive(a, shape, to, None, contig=None)


class _stride_tricks(object):
    @staticmethod
    def as_strided(x, shape=None, strides=None, subok=False, writeable=True):
        base = asarray(x)
        shape = norm_shape_(shape)
        st = tuple(strides)
        fixed = []
        for s in st:
            if isinstance(s, Stride) and s.src is x:
                s = Stride(s.coef, base)
            fixed.append(s)
        return strided_view(base, shape, tuple(fixed))

    @staticmethod
    def sliding_window_view(x, window_shape, axis=None):
        raise Unsupported('sliding_window_view')


# ------------------------------------------------------------------- reshape

def reshape_(a, shape, order='C'):
    if order not in ('C', None):
        raise Unsupported('reshape order')
    shape = tuple(as_index(x) for x in shape)
    old = list(a._shape)
    neg = [j for j, s in enumerate(shape) if concrete(s) and s == -1]
    if builtins.len(neg) > 1:
        raise ValueError('can only specify one unknown dimension')
    new = list(shape)
    if neg:
        j = neg[0]
        # common case: the other sizes match a prefix/suffix of the old shape
        pre = 0
        while pre < j and pre < builtins.len(old) and same(new[pre], old[pre]):
            pre += 1
        suf = 0
        while suf < builtins.len(new) - 1 - j and suf < builtins.len(old) - pre and same(new[-1 - suf], old[-1 - suf]):
            suf += 1
        mid_old = old[pre:builtins.len(old) - suf]
        mid_new = new[pre:builtins.len(new) - suf]
        others = prod([s for s in mid_new if not (concrete(s) and s == -1)])
        total = prod(mid_old)
        if concrete(others) and others == 1:
            new[j] = total
        else:
            zero = core.Eq(others, 0)
            if zero if type(zero) is builtins.bool else fork(zbool(zero)):
                raise ValueError('cannot reshape array')
            q, r = (total // others, total % others)
            ok = Eq(r, 0)
            if not (ok if type(ok) is builtins.bool else fork(zbool(ok))):
                raise ValueError('cannot reshape array')
            new[j] = q
    # strip ones on both sides, match axes
    o1 = [(k, s) for k, s in enumerate(old) if not same(s, 1)]
    n1 = [(k, s) for k, s in enumerate(new) if not same(s, 1)]
    pairs = []
    while o1 and n1 and same(o1[0][1], n1[0][1]):
        pairs.append((o1.pop(0)[0], n1.pop(0)[0]))
    tail = []
    while o1 and n1 and same(o1[-1][1], n1[-1][1]):
        tail.insert(0, (o1.pop()[0], n1.pop()[0]))
    pairs += tail
    if o1 or n1:
        to_ = prod([s for _, s in o1])
        tn_ = prod([s for _, s in n1])
        if not same(to_, tn_):
            if concrete(to_) and concrete(tn_) and not builtins.any(not concrete(old[k]) or old[k] == 0 for k, _ in pairs):
                raise ValueError('cannot reshape array of size %s into shape %s' % (to_, tn_))
            eq = zint(to_) == zint(tn_)
            # empty arrays: zero sizes elsewhere make the mismatch harmless; decided by total sizes
            total_eq = zint(prod(old)) == zint(prod(new))
            if not fork(total_eq):
                raise ValueError('cannot reshape array')
            if not fork(eq):
                for k, _ in pairs:
                    z = core.Eq(old[k], 0)
                    if z if type(z) is builtins.bool else fork(zbool(z)):
                        return a._like(lazy(new, a._dtype, lambda ix: cast(0, a._dtype)))
                raise Unsupported('reshape of an empty array')

    def to(idx):
        r = [0] * builtins.len(old)
        for ko, kn in pairs:
            r[ko] = idx[kn]
        if o1 or n1:
            lin = 0
            for kn, s in n1:
                lin = lin * s + idx[kn] if not (concrete(lin) and lin == 0) else idx[kn]
            for pos in builtins.range(builtins.len(o1) - 1, -1, -1):
                ko, s = o1[pos]
                if pos == 0:
                    r[ko] = lin
                else:
                    r[ko] = lin % s
                    lin = lin // s
        return tuple(r)

    def back(b):
        r = [0] * builtins.len(new)
        for ko, kn in pairs:
            r[kn] = b[ko]
        if o1 or n1:
            lin = 0
            for ko, s in o1:
                lin = lin * s + b[ko] if not (concrete(lin) and lin == 0) else b[ko]
            for pos in builtins.range(builtins.len(n1) - 1, -1, -1):
                kn, s = n1[pos]
                if pos == 0:
                    r[kn] = lin
                else:
                    r[kn] = lin % s
                    lin = lin // s
        return True, tuple(r)
    src = a
    if a._contig is not True and (o1 or n1):
        # numpy copies when the layout does not allow a view; a copy or a view is
        # indistinguishable for reads
        src = lazy(a._shape, a._dtype, a._snapshot())
    r = derive(src, new, to, back, contig=a._contig if a._contig is True else None)
    return r


def squeeze_(a):
    keep = []
    for k, s in enumerate(a._shape):
        one = Eq(s, 1)
        if not (one if type(one) is builtins.bool else fork(zbool(one))):
            keep.append(k)
    if builtins.len(keep) == a.ndim:
        return a

    def to(idx):
        r = [0] * a.ndim
        for j, k in enumerate(keep):
            r[k] = idx[j]
        return tuple(r)
    return derive(a, [a._shape[k] for k in keep], to, lambda b: (True, tuple(b[k] for k in keep)), contig=a._contig)


def reshape(a, newshape, order='C'):
    if isinstance(a, ndarray):
        if isint(newshape):
            newshape = (newshape,)
        return a.reshape(newshape, order=order) if type(a) is ndarray else a.reshape(newshape)
    return asarray(a).reshape(newshape)


def squeeze(a, axis=None):
    return a.squeeze() if axis is None else a.squeeze(axis)


def transpose(a, axes=None):
    return a.transpose(axes) if axes is not None else a.T


def ravel(a, order='C'):
    return asarray(a).ravel(order)


def expand_dims(a, axis):
    idx = [slice(None)] * a.ndim
    ax = axis if axis >= 0 else axis + a.ndim + 1
    idx.insert(ax, None)
    return getitem(asarray(a), tuple(idx))


newaxis = None


def broadcast_to(a, shape):
    a = asarray(a)
    shape = norm_shape_(shape)
    check_broadcast_to(a._shape, shape)
    vs = a._shape
    f = a._snapshot()
    return lazy(shape, a._dtype, lambda i: f(bcast_idx(tuple(i), vs)))


def concatenate(arrs, axis=0, **k):
    s = as_sseq(arrs)
    if s is None:
        if isinstance(arrs, types.GeneratorType):
            arrs = list(arrs)
            s = as_sseq(arrs)
    if not concrete(s.length):
        return concat_symbolic(s, axis)
    items = [s.get(j) for j in builtins.range(s.length)]
    if not items:
        raise ValueError('need at least one array to concatenate')
    arr = [asarray(x) for x in items]
    nd = arr[0].ndim
    if nd == 0:
        raise ValueError('zero-dimensional arrays cannot be concatenated')
    if builtins.any(x.ndim != nd for x in arr):
        raise ValueError('all the input array dimensions must match')
    ax = axis + nd if axis < 0 else axis
    if not 0 <= ax < nd:
        raise ValueError('axis out of bounds')
    for x in arr[1:]:
        for d in builtins.range(nd):
            if d == ax:
                continue
            p, q = arr[0]._shape[d], x._shape[d]
            ok = (p == q) if concrete(p) and concrete(q) else (True if same(p, q) else fork(zint(p) == zint(q)))
            if not ok:
                raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
    dt = result_dtype(*[x._dtype for x in arr])
    if dt.kind == 'm':
        us = [x._dtype.unit for x in arr]
        dt = td_dtype(builtins.max(us, key=ORDER.index))
    sizes = [x._shape[ax] for x in arr]
    fs, ds = [x._snapshot() for x in arr], [x._dtype for x in arr]
    shape = list(arr[0]._shape)
    tot = sizes[0]
    for z in sizes[1:]:
        tot = tot + z
    shape[ax] = tot

    def fn(i):
        i = tuple(i)
        k = i[ax]

        def at(j, off):
            kk = k - off
            one = lambda: conv(fs[j](i[:ax] + (kk,) + i[ax + 1:]), dt, ds[j])
            if j == builtins.len(fs) - 1:
                return one()
            return B._sel(lt(kk, sizes[j]), one, lambda: at(j + 1, off + sizes[j]))
        return at(0, 0)
    r = lazy(shape, dt, fn)
    subs = [x for x in items if isinstance(x, ndarray) and type(x) is not ndarray]
    if subs:
        # numpy wraps with the highest priority subclass: priorities are all 0, the
        # first subclass instance is used
        r = view_as(r, type(subs[0]), subs[0])
        if subs[0] is not items[0] and False:
            pass
    return r


class Running(object):
    """running totals of a sequence of numbers: at(0) = 0 and at(k+1) = at(k) + term(k); increasing when every term is
    at least 0 (by induction). Equal sequences have the same running totals."""

    def __init__(self, n, var, body, isint):
        c = ctx()
        self.n, self.var, self.body = n, var, body
        self.off = z3.Function(c.fresh('running'), z3.IntSort(), z3.IntSort() if isint else z3.RealSort())
        c.add(self.off(0) == 0)
        rng = z3.And(0 <= var, var < n)
        if entails(z3.Implies(rng, body >= 0)):
            a, b = z3.Ints('ra rb')
            c.add(z3.ForAll([a, b], z3.Implies(z3.And(0 <= a, a <= b, b <= n), self.off(a) <= self.off(b)),
                            patterns=[z3.MultiPattern(self.off(a), self.off(b))]))

    def facts(self, k):
        t = lambda i: z3.substitute(self.body, (self.var, i))
        return [z3.Implies(z3.And(0 <= k, k < self.n), self.off(k + 1) == self.off(k) + t(k)),
                z3.Implies(z3.And(1 <= k, k <= self.n), self.off(k) == self.off(k - 1) + t(k - 1))]

    def at(self, k):
        k = z3.simplify(k if z3.is_expr(k) else zint(k))
        c = ctx()
        add = c.add if c.local is None else c.solver.add
        for f in self.facts(k):
            add(f)
        return wrap(self.off(k))


def running(n, term, isint=True):
    """the running totals of term(0) .. term(n-1)"""
    trust('running totals: recursive definition, increasing for terms of at least 0')
    c = ctx()
    n, v = n if z3.is_expr(n) else zint(n), z3.Int('run_k')
    rng = z3.And(0 <= v, v < n)
    body = core.under(rng, lambda: (zint if isint else zreal)(term(SInt(v))))
    known = [f for r in c.running for f in r.facts(v)]
    rng = z3.And(rng, *known)
    for r in c.running:
        if r.body.sort() == body.sort() and entails(r.n == n) and (r.body.eq(body) or entails(z3.Implies(rng, r.body == body))):
            return r
    r = Running(n, v, body, isint)
    c.running.append(r)
    return r


def concat_symbolic(s, axis):
    """concatenation of a symbolic number of arrays: piece k starts where the sizes of the previous pieces end"""
    c = ctx()
    if fork(zint(s.length) <= 0):
        raise ValueError('need at least one array to concatenate')
    probe = asarray(s.get(fresh_int('cp', 0, s.length)))
    ax = axis + probe.ndim if axis < 0 else axis
    if not 0 <= ax < probe.ndim:
        raise ValueError('axis out of bounds')
    N = zint(s.length)
    first = asarray(s.get(0))
    k = fresh_int('ck', 0, s.length)
    other = asarray(s.get(k))
    for d in builtins.range(probe.ndim):
        if d != ax and not same(first._shape[d], other._shape[d]):
            if fork(zint(first._shape[d]) != zint(other._shape[d])):
                raise ValueError('all the input array dimensions except for the concatenation axis must match exactly')
            j = z3.Int(c.fresh('cj'))
            size = core.under(z3.And(0 <= j, j < N), lambda: zint(asarray(s.get(SInt(j)))._shape[d]))
            if not entails(z3.Implies(z3.And(0 <= j, j < N), size == zint(first._shape[d]))):
                raise Unsupported('concatenation of arrays of unknown sizes')
    which = z3.Function(c.fresh('cat.which'), z3.IntSort(), z3.IntSort())
    if ax == 0:
        u = uniform(s, N)
        if u is not None:
            return concat_uniform(s, N, u, None, which, probe)
    r = running(N, lambda i: asarray(s.get(i))._shape[ax])
    total = r.at(N)
    dt = probe._dtype

    def fn(i):
        p = zint(i[ax])
        w = which(p)
        fact = z3.Implies(z3.And(0 <= p, p < zint(total)),
                          z3.And(0 <= w, w < N, r.off(w) <= p, p < r.off(w + 1), r.off(w + 1) == r.off(w) + z3.substitute(r.body, (r.var, w))))
        c.add(fact)
        w = SInt(w)
        return asarray(s.get(w))._get(tuple(i[:ax]) + (i[ax] - r.at(w),) + tuple(i[ax + 1:]))
    shape = list(first._shape)
    shape[ax] = total
    return lazy(tuple(shape), dt, fn)


def flatten_seq(n, piece):
    """the concatenation of the sequences piece(0) .. piece(n-1)"""
    c = ctx()
    N = zint(n)
    which = z3.Function(c.fresh('flat.which'), z3.IntSort(), z3.IntSort())
    r = running(N, lambda i: piece(i).length)
    total = r.at(N)

    def get(k):
        p = zint(k)
        w = which(p)
        c.add(z3.Implies(z3.And(0 <= p, p < zint(total)),
                         z3.And(0 <= w, w < N, r.off(w) <= p, p < r.off(w + 1), r.off(w + 1) == r.off(w) + z3.substitute(r.body, (r.var, w)))))
        return piece(SInt(w)).get(k - r.at(w))
    return B.SSeq(total, get)


def uniform(s, N):
    """the common size of all arrays of the sequence but the last, which is at most as large; None if not known"""
    j, e = z3.Int(ctx().fresh('cj')), z3.Int(ctx().fresh('ce'))
    size = lambda k: zint(asarray(s.get(SInt(k)))._shape[0])
    try:
        first = size(z3.IntVal(0))
        with_j = core.under(z3.And(0 <= j, j < N), lambda: z3.And(size(j) <= first, size(j) >= 1))
        inner = core.under(z3.And(0 <= e, e < N - 1), lambda: size(e) == first)
    except Unsupported:
        return None
    if entails(z3.Implies(z3.And(0 <= j, j < N), with_j)) and entails(z3.Implies(z3.And(0 <= e, e < N - 1), inner)):
        return z3.simplify(first)
    return None


def concat_uniform(s, N, u, off, which, probe):
    """pieces of u items each, the last one of at most u: item k is in piece k div u (Euclidean division)"""
    last = zint(asarray(s.get(SInt(N - 1)))._shape[0])
    total = SInt((N - 1) * u + last)

    def fn(i):
        k = zint(i[0])
        w = which(k)
        ctx().add(z3.Implies(z3.And(0 <= k, k < zint(total)),
                             z3.And(0 <= w, w < N, w * u <= k, k < w * u + u, z3.Implies(w == N - 1, k < w * u + last))))
        return asarray(s.get(SInt(w)))._get((SInt(k - w * u),) + tuple(i[1:]))
    return lazy((total,) + tuple(probe._shape[1:]), probe._dtype, fn)


def vstack(arrs):
    arrs = list(arrs)
    fixed = [x if asarray(x).ndim >= 2 else expand_dims(asarray(x), 0) for x in arrs]
    r = concatenate([asarray(x) for x in fixed], axis=0)
    subs = [x for x in arrs if isinstance(x, ndarray) and type(x) is not ndarray]
    if subs and builtins.any(x.ndim >= 2 for x in subs):
        raise Unsupported('vstack of 2-d array subclasses')
    if subs:
        # atleast_2d(sub) is sub[newaxis, :]: the subclass' own indexing
        sub0 = subs[0][None, :]
        r = view_as(r, type(sub0), sub0)
    return r


def hstack(arrs):
    arrs = list(arrs)
    return concatenate(arrs, axis=0 if asarray(arrs[0]).ndim == 1 else 1)


def stack(arrs, axis=0):
    arrs = [expand_dims(asarray(x), axis) for x in arrs]
    return concatenate(arrs, axis=axis)


def pad(*a, **k):
    raise Unsupported('np.pad')


def tile(*a, **k):
    raise Unsupported('np.tile')


# -------------------------------------------------------------------- ufuncs

class ufunc(object):
    def __init__(self, name, fn, nin, out=None):
        self.__name__, self.fn, self.nin, self.out = name, fn, nin, out

    def __repr__(self):
        return "<ufunc '%s'>" % self.__name__

    def __call__(self, *args, **kw):
        args = list(args)
        for x in args:
            f = getattr(type(x), '__array_ufunc__', None)
            if f is not None and not isinstance(x, ndarray):
                r = f(x, self, '__call__', *args, **kw)
                if r is NotImplemented:
                    e = TypeError('operand type(s) all returned NotImplemented from __array_ufunc__')
                    e.modelled = True
                    raise e
                return r
        where_ = kw.pop('where', True)
        out = kw.pop('out', None)
        dt = kw.pop('dtype', None)
        if kw:
            raise Unsupported('ufunc keyword %s' % list(kw))
        if isinstance(out, tuple):
            out = out[0]
        objs = [x for x in args]
        scalars = builtins.all(not is_arr(x) for x in args) and not is_arr(where_) and out is None
        if scalars:
            if where_ is not True:
                w = truth_value(where_)
                if not w:
                    return fresh_fn('uninit', 0, 'f')(())
            return self.fn(*[unbox(x) for x in args])
        arrs = [asarray(x) if is_arr(x) else None for x in args]
        shapes = [x._shape for x in arrs if x is not None]
        wa = None
        if is_arr(where_):
            wa = asarray(where_)
            shapes.append(wa._shape)
        shape = broadcast_shapes(*shapes)
        fs = [(x._snapshot(), x._shape) if x is not None else None for x in arrs]
        dts = [x._dtype if x is not None else scalar_dt(a) for x, a in zip(arrs, args)]
        odt = self.result(dts, arrs)
        if dt is not None:
            odt = to_dtype(dt)
        vals = [unbox(a) for a in args]
        bvw = [d.itemsize * 8 for d in dts if d is not None and d.kind == 'u']

        def compute(i):
            i = tuple(i)
            xs = []
            for f, a in zip(fs, vals):
                xs.append(f[0](bcast_idx(i, f[1])) if f is not None else a)
            r = self.fn(*xs)
            return cast(r, odt) if odt.kind != 'O' else r
        if wa is not None or where_ is not True:
            if where_ is False:
                wfn = lambda i: False
            elif wa is not None:
                wf = wa._snapshot()
                ws = wa._shape
                wfn = lambda i: B.truth(wf(bcast_idx(tuple(i), ws)))
            else:
                wfn = lambda i: B.truth(where_)
            if out is None:
                un = fresh_fn('uninit', builtins.len(shape), odt.kind if odt.kind in 'fiub' else 'f')
                full_ = lambda i: guarded(wfn(i), lambda: compute(i), lambda: un(i))
            else:
                of = asarray(out)._snapshot()
                full_ = lambda i: guarded(wfn(i), lambda: compute(i), lambda: of(i))
        else:
            full_ = compute
        if out is not None:
            r = lazy(shape, odt, full_)
            assign(out, r)
            return out
        res = lazy(shape, odt, full_)
        wrapper = None
        for x in objs:
            if isinstance(x, ndarray) and type(x) is not ndarray:
                wrapper = x
                break
        if wrapper is not None:
            return type(wrapper).__array_wrap__(wrapper, res, (self, tuple(args), 0))
        if not shape:
            return res._get(())
        return res

    def result(self, dts, arrs):
        o = self.out
        if callable(o):
            return o(dts)
        if o is not None:
            return DT[o]
        real = [d for d, a in zip(dts, arrs) if a is not None and d is not None]
        sc = [d for d, a in zip(dts, arrs) if a is None and d is not None]
        base = result_dtype(*real) if real else None
        for d in sc:
            # value-based casting of python scalars
            if base is None:
                base = d
            elif base.kind in 'fc' or (base.kind in 'iu' and d.kind in 'iub') or (base.kind == 'O'):
                pass
            elif base.kind == 'm' and d.kind == 'm':
                base = result_dtype(base, d)
            elif base.kind == 'm' or d.kind == 'm':
                base = base if base.kind == 'm' else d
            else:
                base = result_dtype(base, d)
        return base or DT['float64']

    def accumulate(self, *a, **k):
        raise Unsupported('accumulate')

    def reduce(self, *a, **k):
        raise Unsupported('reduce')

    def at(self, *a):
        raise Unsupported('ufunc.at')

    def outer(self, *a):
        raise Unsupported('ufunc.outer')


def guarded(c, f, g):
    """compute f only where c can hold (division where=mask)"""
    return B._sel_guard(c, f, g)


def _sel_guard(c, fa, fb):
    if type(c) is builtins.bool:
        return fa() if c else fb()
    z = z3.simplify(zbool(c))
    if z3.is_true(z):
        return fa()
    if z3.is_false(z):
        return fb()
    return fa() if fork(z) else fb()


B._sel_guard = _sel_guard


def scalar_dt(x):
    if isinstance(x, B.EFloat):
        return DT['float64']
    if isnum(x) or isinstance(x, timedelta64):
        return dtype_of(x)
    return None


def is_arr(x):
    return isinstance(x, (ndarray, list)) or issubclass(type(x), SSeq) or (isinstance(x, tuple) and type(x) is not timedelta64)


def binop(uf, a, b):
    for x in (a, b):
        if isinstance(x, ndarray):
            continue
        if isnum(x) or is_arr(x) or isinstance(x, timedelta64):
            continue
        if getattr(type(x), '__array_ufunc__', None) is not None:
            continue
        if isinstance(x, Stride):
            continue
        if x is None:
            if uf in (equal, not_equal):
                return full(asarray(a if isinstance(a, ndarray) else b)._shape, uf is not_equal)
            raise TypeError('unsupported operand')
        if uf.__name__ in ('equal', 'not_equal'):
            if isinstance(x, (str, bytes, slice, type(Ellipsis), type)):
                return uf is not_equal
        return NotImplemented
    return uf(a, b)


def _float_out(dts):
    ds = [d for d in dts if d is not None]
    if builtins.any(d.kind == 'c' for d in ds):
        return DT['complex128']
    if builtins.any(d.kind == 'm' for d in ds):
        return DT['float64'] if builtins.all(d.kind == 'm' for d in ds) else [d for d in ds if d.kind == 'm'][0]
    if builtins.any(d.kind == 'O' for d in ds):
        return DT['object']
    if builtins.all(d.name == 'float32' for d in ds if d.kind == 'f') and builtins.any(d.name == 'float32' for d in ds) \
            and not builtins.any(d.kind in 'iu' and d.itemsize > 2 for d in ds[:1]):
        return DT['float32']
    return DT['float64']


def _mul_out(dts):
    ds = [d for d in dts if d is not None]
    for d in ds:
        if d.kind == 'm':
            return d
    return result_dtype(*ds)


def np_div(a, b):
    """numpy true division of scalars: x/0 is not an exception"""
    if isinstance(a, timedelta64) or isinstance(b, timedelta64):
        return a / b
    a, b = unbox(a), unbox(b)
    if concrete(a) and concrete(b):
        if b == 0:
            return float('nan') if a == 0 else (float('inf') if a > 0 else -float('inf'))
        return a / b
    if concrete(b):
        if b == 0:
            raise NonFinite('division by zero')
        return rdiv(a, b)
    if ctx().reds and ctx().local is None and not entails(zreal(b) != 0):
        [f() for f in core.STUCK]
    if fork(zreal(b) == 0):
        raise NonFinite('division by zero gives a non-finite value')
    return rdiv(a, b)


class NonFinite(Exception):
    """numpy would have produced nan or inf here"""


def _pw(a, b):
    return a ** b


def np_eq(a, b):
    if isnum(a) and isnum(b):
        return Eq(unbox(a), unbox(b))
    return a == b


def np_ne(a, b):
    r = np_eq(a, b)
    return (not r) if type(r) is builtins.bool else core.Not(r)


def sign_(x):
    if concrete(x):
        return (x > 0) - (x < 0)
    if isint(x):
        return ite(x > 0, 1, ite(x < 0, -1, 0))
    return ite(x > 0, 1.0, ite(x < 0, -1.0, 0.0))


add = ufunc('add', lambda a, b: a + b, 2)
subtract = ufunc('subtract', lambda a, b: a - b, 2)
multiply = ufunc('multiply', lambda a, b: a * b, 2, _mul_out)
divide = true_divide = ufunc('divide', np_div, 2, _float_out)
floor_divide = ufunc('floor_divide', lambda a, b: a // b, 2)
remainder = mod = ufunc('remainder', lambda a, b: a % b, 2)
power = ufunc('power', _pw, 2)
bitwise_xor = ufunc('bitwise_xor', lambda a, b: a ^ b, 2)
bitwise_and = ufunc('bitwise_and', lambda a, b: a & b, 2)
bitwise_or = ufunc('bitwise_or', lambda a, b: a | b, 2)
less = ufunc('less', lambda a, b: a < b, 2, 'bool')
less_equal = ufunc('less_equal', lambda a, b: a <= b, 2, 'bool')
greater = ufunc('greater', lambda a, b: a > b, 2, 'bool')
greater_equal = ufunc('greater_equal', lambda a, b: a >= b, 2, 'bool')
equal = ufunc('equal', np_eq, 2, 'bool')
not_equal = ufunc('not_equal', np_ne, 2, 'bool')
logical_and = ufunc('logical_and', lambda a, b: core.And(B.truth(a), B.truth(b)), 2, 'bool')
logical_or = ufunc('logical_or', lambda a, b: core.Or(B.truth(a), B.truth(b)), 2, 'bool')
negative = ufunc('negative', lambda a: -a, 1)
absolute = abs = ufunc('absolute', lambda a: B.abs_(a), 1)
sign = ufunc('sign', sign_, 1)
square = ufunc('square', lambda a: a * a, 1)
sqrt = ufunc('sqrt', lambda a: sqrt_(a), 1, _float_out)
logical_not = ufunc('logical_not', lambda a: core.Not(B.truth(a)), 1, 'bool')
invert = ufunc('invert', lambda a: core.Not(a) if type(a) in (builtins.bool, SBool) else ~a, 1)
maximum = ufunc('maximum', core.smax, 2)
minimum = ufunc('minimum', core.smin, 2)


def _fl(f):
    def g(x):
        x = unbox(x)
        if concrete(x):
            return builtins.float(f(x))
        return wrap(zreal(f(x)))
    return g


floor = ufunc('floor', _fl(core.floor_), 1, _float_out)
ceil = ufunc('ceil', _fl(core.ceil_), 1, _float_out)
trunc = ufunc('trunc', _fl(core.trunc_), 1, _float_out)
rint = ufunc('rint', _fl(core.rint_), 1, _float_out)


def round(a, decimals=0, out=None):
    def one(x):
        x = unbox(x)
        if isint(x):
            return x
        if concrete(x):
            return builtins.float(builtins.round(x, decimals))
        if decimals == 0:
            return wrap(zreal(core.rint_(x)))
        return core.round_(x, decimals)
    return ufunc('round', one, 1, lambda d: d[0] or DT['float64'])(a)


around = round_ = round


def clip(a, lo, hi, **k):
    return ufunc('clip', lambda x: core.smin(core.smax(x, lo), hi) if lo is not None and hi is not None else (core.smax(x, lo) if hi is None else core.smin(x, hi)), 1)(a)


# uninterpreted transcendental functions with their defining properties -------

def _transc():
    c = ctx()
    t = getattr(c, 'transc', None)
    if t is None:
        t = c.transc = {}
        L = z3.Function('ln', z3.RealSort(), z3.RealSort())
        X = z3.Function('exp', z3.RealSort(), z3.RealSort())
        t['ln'], t['exp'] = L, X
        t['terms'] = {'ln': [], 'exp': []}
    return t


def ln_z(z):
    """logarithm of a positive real, with instances of the axioms for the terms seen"""
    t = _transc()
    L, X = t['ln'], t['exp']
    c = ctx()
    z = z3.simplify(z)
    for o in t['terms']['ln']:
        if z3.eq(o, z):
            return L(z)
    trust('log/exp: mutually inverse, strictly increasing, log(1) = 0 (over the reals)')
    c.add(X(L(z)) == z)
    c.add(L(z3.RealVal(1)) == 0)
    c.add(z3.And(z3.Implies(z > 1, L(z) > 0), z3.Implies(z < 1, L(z) < 0), z3.Implies(z == 1, L(z) == 0)))
    for o in t['terms']['ln']:
        c.add(z3.And((z < o) == (L(z) < L(o)), (z == o) == (L(z) == L(o))))
    t['terms']['ln'].append(z)
    # exp(ln z) may be asked for again: exp terms know ln
    return L(z)


def exp_z(z):
    t = _transc()
    L, X = t['ln'], t['exp']
    c = ctx()
    z = z3.simplify(z)
    for o in t['terms']['exp']:
        if z3.eq(o, z):
            return X(z)
    trust('log/exp: mutually inverse, strictly increasing, log(1) = 0 (over the reals)')
    c.add(z3.And(X(z) > 0, L(X(z)) == z))
    c.add(z3.And((z > 0) == (X(z) > 1), (z < 0) == (X(z) < 1)))
    for o in t['terms']['exp']:
        c.add(z3.And((z < o) == (X(z) < X(o)), (z == o) == (X(z) == X(o))))
    for o in t['terms']['ln']:
        c.add(z3.And((z == L(o)) == (X(z) == o), (z < L(o)) == (X(z) < o)))
    t['terms']['exp'].append(z)
    return X(z)


def log_(x):
    x = unbox(x)
    if concrete(x) and not is_sym(x):
        if x == 1:
            return 0.0
        if x <= 0:
            raise NonFinite('log of a non-positive number')
        # exact real logarithm of a constant, not its float
        return wrap(ln_z(core.zreal(x)))
    if fork(zreal(x) <= 0):
        raise NonFinite('log of a non-positive number')
    return wrap(ln_z(zreal(x)))


def exp_(x):
    x = unbox(x)
    if concrete(x) and x == 0:
        return 1.0
    return wrap(exp_z(zreal(x)))


log = ufunc('log', log_, 1, _float_out)
exp = ufunc('exp', exp_, 1, _float_out)
log1p = ufunc('log1p', lambda x: log_(1 + x), 1, _float_out)
expm1 = ufunc('expm1', lambda x: exp_(x) - 1, 1, _float_out)
e = math.e
pi = math.pi
inf = float('inf')
nan = float('nan')


def _opaque_ufunc(name):
    def one(x):
        x = unbox(x)
        if concrete(x):
            return getattr(math, name)(x)
        f = z3.Function('np_' + name, z3.RealSort(), z3.RealSort())
        return SReal(f(zreal(x)))
    return ufunc(name, one, 1, _float_out)


log10 = _opaque_ufunc('log10')
log2 = _opaque_ufunc('log2')
sin = _opaque_ufunc('sin')
cos = _opaque_ufunc('cos')
tanh = _opaque_ufunc('tanh')


def isfinite(x):
    return ufunc('isfinite', lambda v: True, 1, 'bool')(x)


def isnan(x):
    return ufunc('isnan', lambda v: False if is_sym(v) else v != v, 1, 'bool')(x)


# ---------------------------------------------------------------- reductions

def norm_axes(axis, nd):
    if axis is None:
        return tuple(builtins.range(nd))
    ax = axis if isinstance(axis, (tuple, list)) else (axis,)
    out = []
    for x in ax:
        if not concrete(x):
            raise Unsupported('symbolic axis')
        y = x + nd if x < 0 else x
        if not 0 <= y < nd:
            raise AxisError('axis %d is out of bounds for array of dimension %d' % (x, nd))
        out.append(y)
    if builtins.len(set(out)) != builtins.len(out):
        raise ValueError("duplicate value in 'axis'")
    return tuple(out)


class AxisError(ValueError, IndexError):
    pass


def reduce_axes(a, op, axis=None, keepdims=False):
    a0 = asarray(a)
    axes = norm_axes(axis, a0.ndim)
    f = a0._snapshot()
    sh = a0._shape
    keep = [d for d in builtins.range(a0.ndim) if d not in axes]
    sizes = [sh[d] for d in axes]

    def at(idx):
        """idx over kept axes"""
        def el(r):
            full_ = [None] * a0.ndim
            for d, v in zip(keep, idx):
                full_[d] = v
            for d, v in zip(axes, r):
                full_[d] = v
            return f(tuple(full_))
        return reduce_box(op, sizes, el, a0._dtype)
    dt = a0._dtype
    if op in ('mean', 'std'):
        dt = DT['float32'] if dt.name == 'float32' else DT['float64']
    elif op in ('any', 'all'):
        dt = DT['bool']
    elif op == 'sum' and dt.kind in 'biu':
        dt = DT['uint64'] if dt.kind == 'u' else DT['int64']
    out_shape = [sh[d] for d in keep]
    if not keepdims and not out_shape:
        return at(())
    if op in ('max', 'min'):
        # an empty reduction raises (when the result is not empty itself)
        if builtins.any((s == 0) if concrete(s) else core._check(zint(s) == 0) != z3.unsat and fork(zint(s) == 0) for s in sizes):
            raise ValueError('zero-size array to reduction operation %simum which has no identity' % op)
    if keepdims:
        kshape = [1 if d in axes else sh[d] for d in builtins.range(a0.ndim)]
        memo = Memo(lambda idx: at(idx))
        return lazy(kshape, dt, lambda i: memo(tuple(i[d] for d in keep)))
    memo = Memo(lambda idx: at(idx))
    return lazy(out_shape, dt, lambda i: memo(tuple(i)))


class Memo(object):
    """same index term, same reduction constant"""

    def __init__(self, f):
        self.f, self.d, self.keep = f, {}, []

    def __call__(self, idx):
        key = tuple(x if concrete(x) else z3.simplify(zint(x)).get_id() for x in idx)
        if key not in self.d:
            self.keep.append([None if concrete(x) else z3.simplify(zint(x)) for x in idx])
            key = tuple(x if concrete(x) else y.get_id() for x, y in zip(idx, self.keep[-1]))
            self.d[key] = self.f(idx)
        return self.d[key]


def reduce_box(op, sizes, el, dt):
    if op == 'mean':
        n = prod(sizes)
        return np_div(reduce_box('sum', sizes, el, dt), n)
    if op == 'std':
        m = reduce_box('mean', sizes, el, dt)
        var = reduce_box('mean', sizes, lambda r: (el(r) - m) * (el(r) - m), dt)
        c = ctx()
        trust('std: non-negative, zero iff all deviations are zero (square root of the mean squared deviation)')
        if is_sym(var):
            c.add(zreal(var) >= 0)
        return sqrt_(var)
    if builtins.all(concrete(s) for s in sizes) and prod(sizes) <= 64:
        import itertools
        vals = [el(r) for r in itertools.product(*[builtins.range(s) for s in sizes])]
        if op == 'sum':
            r = 0 if dt.kind in 'biu' else 0.0
            for v in vals:
                r = r + v
            return r
        if op == 'prod':
            r = 1
            for v in vals:
                r = r * v
            return r
        if op == 'any':
            return core.Or(*[B.truth(v) for v in vals]) if vals else False
        if op == 'all':
            return core.And(*[B.truth(v) for v in vals]) if vals else True
        if not vals:
            raise ValueError('zero-size array to reduction operation %simum which has no identity' % op)
        r = vals[0]
        for v in vals[1:]:
            r = core.smax(r, v) if op == 'max' else core.smin(r, v)
        return r
    return red_symbolic(op, sizes, el, dt)


class Red(object):
    """an uninterpreted reduction; two of them are equal when sizes and elements are"""

    def __init__(self, op, z, sizes, el):
        self.op, self.z, self.sizes, self.el = op, z, sizes, el
        self.checked = set()


def red_symbolic(op, sizes, el, dt):
    c = ctx()
    if op in ('any', 'all'):
        ks = [z3.Int(c.fresh('kq')) for _ in sizes]
        rng = z3.And(*[z3.And(k >= 0, k < zint(s)) for k, s in zip(ks, sizes)])
        e_ = core.under(rng, lambda: zbool(B.truth(el(tuple(SInt(k) for k in ks)))))
        q = z3.ForAll(ks, z3.Implies(rng, z3.Not(e_) if op == 'any' else e_))
        return wrap(z3.Not(q)) if op == 'any' else wrap(q)
    if op == 'prod':
        raise Unsupported('product of a symbolic number of elements')
    isint_ = dt.kind in 'biu'
    z = (z3.Int if isint_ else z3.Real)(c.fresh('red_' + op))
    r = Red(op, z, list(sizes), el)
    c.reds.append(r)
    if op in ('max', 'min'):
        trust('min/max reductions: a bound of all elements, attained')
        ks = [fresh_int('kx', 0, s) for s in sizes]
        w = el(tuple(ks))
        c.add((zint(w) if isint_ else zreal(w)) == z)
        js = [z3.Int(c.fresh('jx')) for _ in sizes]
        rng = z3.And(*[z3.And(j >= 0, j < zint(s)) for j, s in zip(js, sizes)])

        def elz():
            v = el(tuple(SInt(j) for j in js))
            return zint(v) if isint_ else zreal(v)
        try:
            vz = core.under(rng, elz)
            c.add(z3.ForAll(js, z3.Implies(rng, vz <= z if op == 'max' else vz >= z)))
        except Unsupported:
            pass        # specs can still ask for the bound at the elements they need
        r.bound = lambda idx: c.add(z3.Implies(z3.And(*[z3.And(zint(i) >= 0, zint(i) < zint(s)) for i, s in zip(idx, sizes)]),
                                               (zreal(el(tuple(idx))) if not isint_ else zint(el(tuple(idx)))) <= z if op == 'max' else
                                               (zreal(el(tuple(idx))) if not isint_ else zint(el(tuple(idx)))) >= z))
    if op == 'sum':
        trust('sum reductions: uninterpreted, equal for pointwise equal summands; zero for all-zero, non-negative for non-negative summands')
        # the sum of an empty range is zero
        emp = z3.Or(*[zint(s) == 0 for s in sizes])
        c.add(z3.Implies(emp, z == 0))
    return wrap(z)


def congruence(goal=None):
    """close the reductions of this path under pointwise equality of their summands; True when something was learnt"""
    c = ctx()
    reds = c.reds
    done = c.__dict__.setdefault('redpairs', set())
    learnt = False
    for i in builtins.range(builtins.len(reds)):
        for j in builtins.range(i):
            a, b = reds[i], reds[j]
            if (i, j) in done or a.op != b.op or builtins.len(a.sizes) != builtins.len(b.sizes) or a.z.sort() != b.z.sort() or z3.eq(a.z, b.z):
                continue
            done.add((i, j))
            ks = [z3.Int(c.fresh('cg')) for _ in a.sizes]
            rng = z3.And(*[z3.And(k >= 0, k < zint(s)) for k, s in zip(ks, a.sizes)])
            if not entails(z3.And(*[zint(x) == zint(y) for x, y in zip(a.sizes, b.sizes)])):
                continue
            el = lambda r: core.under(rng, lambda: zreal(r.el(tuple(SInt(k) for k in ks))))
            try:
                if entails(z3.Implies(rng, el(a) == el(b))):
                    c.add(a.z == b.z)
                    learnt = True
            except Unsupported:
                continue
    return learnt


def sum_signs():
    """sums of non-negative terms are non-negative, sums of zeros are zero"""
    c = ctx()
    learnt = False
    if c.local is not None:
        return False
    for r in c.reds:
        if r.op != 'sum' or 'sign' in r.checked:
            continue
        r.checked.add('sign')
        ks = [z3.Int(c.fresh('sg')) for _ in r.sizes]
        rng = z3.And(*[z3.And(k >= 0, k < zint(s)) for k, s in zip(ks, r.sizes)])
        try:
            v = core.under(rng, lambda: zreal(r.el(tuple(SInt(k) for k in ks))))
        except Unsupported:
            continue
        if entails(z3.Implies(rng, v >= 0)):
            learnt = True
            c.add(r.z >= 0)
            if entails(z3.Implies(rng, v == 0)):
                c.add(r.z == 0)
    return learnt


core.STUCK.append(sum_signs)
core.BEFORE_SQRT.append(sum_signs)
core.STUCK.append(congruence)


def reduce_seq(op, s):
    probe = s.get(fresh_int('pr')) if True else None
    dt = DT['int64'] if isint(probe) else DT['float64']
    if isinstance(probe, timedelta64):
        raise Unsupported('sum of durations')
    return reduce_box(op, [s.length], lambda r: s.get(r[0]), dt)


def sum(a, axis=None, dtype=None, out=None, keepdims=False, **k):
    if isinstance(a, ndarray) and type(a) is not ndarray:
        return a.sum(axis=axis, dtype=dtype, keepdims=keepdims) if keepdims else a.sum(axis=axis, dtype=dtype)
    return asarray(a).sum(axis=axis, keepdims=keepdims)


def max(a, axis=None, out=None, keepdims=False, **k):
    if isinstance(a, ndarray) and type(a) is not ndarray:
        return a.max(axis=axis, keepdims=keepdims, out=out)
    return asarray(a).max(axis=axis, keepdims=keepdims)


def min(a, axis=None, out=None, keepdims=False, **k):
    return (a if isinstance(a, ndarray) else asarray(a)).min(axis=axis, keepdims=keepdims)


amax, amin = max, min


def mean(a, axis=None, dtype=None, out=None, keepdims=False):
    return (a if isinstance(a, ndarray) else asarray(a)).mean(axis=axis, keepdims=keepdims)


def std(a, axis=None, **k):
    return (a if isinstance(a, ndarray) else asarray(a)).std(axis=axis)


def any_(a, axis=None, **k):
    a = asarray(a)
    return a._red('any', axis, False, None) if a.ndim else B.truth(a._get(()))


def all_(a, axis=None, **k):
    a = asarray(a)
    return a._red('all', axis, False, None) if a.ndim else B.truth(a._get(()))


def product(a, axis=None, **k):
    a = asarray(a)
    if a.ndim == 0:
        return a._get(())
    return reduce_axes(a, 'prod', axis)


def cumsum(a, axis=None, **k):
    a = asarray(a)
    if a.ndim != 1:
        raise Unsupported('cumsum')
    n = a._shape[0]
    f = a._snapshot()
    if concrete(n):
        out = []
        t = 0
        for i in builtins.range(n):
            t = t + f((i,))
            out.append(t)
        return array(out, a._dtype if n else None)
    c = ctx()
    trust('numpy.cumsum: running sums (recursive definition)')
    isint_ = a._dtype.kind in 'biu'
    t = running(n, lambda i: f((i,)), isint_)
    return lazy((n,), a._dtype, lambda i: t.at(i[0] + 1))


def diff(a, n=1, axis=-1):
    a = asarray(a)
    ax = axis + a.ndim if axis < 0 else axis
    f = a._snapshot()
    sh = list(a._shape)
    sz = sh[ax] - 1
    sh[ax] = ite(sz < 0, 0, sz) if not concrete(sz) else builtins.max(0, sz)

    def fn(i):
        i = tuple(i)
        return f(i[:ax] + (i[ax] + 1,) + i[ax + 1:]) - f(i)
    return lazy(sh, a._dtype, fn)


def dot(a, b):
    aa, bb = asarray(a), asarray(b)
    if aa.ndim == 0 or bb.ndim == 0:
        return multiply(a, b)
    trust('numpy.dot: sum of products over the last axis of a and the second to last of b')
    ka = aa._shape[-1]
    kb = bb._shape[-2] if bb.ndim >= 2 else bb._shape[0]
    if not same(ka, kb):
        if concrete(ka) and concrete(kb) or not fork(zint(ka) == zint(kb)):
            raise ValueError('shapes not aligned')
    fa, fb = aa._snapshot(), bb._snapshot()
    dt = result_dtype(aa._dtype, bb._dtype)
    na = aa.ndim - 1
    shape = aa._shape[:-1] + (bb._shape[:-2] + bb._shape[-1:] if bb.ndim >= 2 else ())

    def at(idx):
        ia, ib = idx[:na], idx[na:]

        def el(r):
            k = r[0]
            y = fb(tuple(ib[:-1]) + (k,) + tuple(ib[-1:])) if bb.ndim >= 2 else fb((k,))
            return fa(tuple(ia) + (k,)) * y
        return reduce_box('sum', [ka], el, dt)
    memo = Memo(at)
    if not shape:
        return at(())
    r = lazy(shape, dt, lambda i: memo(tuple(i)))
    # without an __array_priority__ the first operand decides
    if isinstance(a, ndarray) and type(a) is not ndarray:
        return view_as(r, type(a), a)
    if isinstance(b, ndarray) and getattr(type(b), '__array_priority__', 0) > 0:
        raise Unsupported('dot with an operand that has an __array_priority__')
    return r


matmul = dot


class _linalg(object):
    @staticmethod
    def norm(x, ord=None, axis=None, keepdims=False):
        if ord is not None:
            raise Unsupported('norm order')
        a = asarray(x)
        trust('linalg.norm: square root of the sum of squares; zero iff all elements are zero')
        f = a._snapshot()
        sq = lazy(a._shape, a._dtype, lambda i: f(i) * f(i))
        s = reduce_axes(sq, 'sum', axis, keepdims)

        def root(v):
            if is_sym(v):
                ctx().add(zreal(v) >= 0)
            return sqrt_(v)
        if not isinstance(s, ndarray):
            r = root(s)
            normfact(r, a._shape, f)
            return r
        g = s._snapshot()
        ax = norm_axes(axis, a.ndim)
        keep = [d for d in builtins.range(a.ndim) if d not in ax]

        def fn(i):
            r = root(g(i))
            kept = tuple(i[d] for d in keep) if keepdims else tuple(i)

            def el(t):
                full_ = [None] * a.ndim
                for d, v in zip(keep, kept):
                    full_[d] = v
                for d, v in zip(ax, t):
                    full_[d] = v
                return f(tuple(full_))
            normfact(r, [a._shape[d] for d in ax], el)
            return r
        return lazy(s._shape, DT['float64'] if a._dtype.name != 'float32' else a._dtype, fn)


def normfact(r, sizes, el):
    """|x_k| <= norm for every element"""
    if not is_sym(r):
        return
    c = ctx()
    c.norms.append((r, sizes, el))
    ks = [z3.Int(c.fresh('nk')) for _ in sizes]
    try:
        v = zreal(el(tuple(SInt(k) for k in ks)))
    except Unsupported:
        return
    rng = z3.And(*[z3.And(k >= 0, k < zint(s)) for k, s in zip(ks, sizes)])
    if builtins.all(concrete(s) for s in sizes):
        return
    c.add(z3.ForAll(ks, z3.Implies(rng, z3.And(v <= zreal(r), -v <= zreal(r)))))


def norms_bound(ks):
    """the fact above, for the element at ks, of every norm taken so far"""
    for r, sizes, el in builtins.list(ctx().norms):
        if builtins.len(sizes) == builtins.len(ks):
            v = zreal(el(tuple(ks)))
            ctx().add(z3.Implies(z3.And(*[z3.And(zint(k) >= 0, zint(k) < zint(s)) for k, s in zip(ks, sizes)]),
                                 z3.And(v <= zreal(r), -v <= zreal(r))))


linalg = _linalg()


# ------------------------------------------------------------ sorting, search

def permutation(n, tag='perm'):
    c = ctx()
    nm = c.fresh(tag)
    P = z3.Function(nm, z3.IntSort(), z3.IntSort())
    Q = z3.Function(nm + '.inv', z3.IntSort(), z3.IntSort())
    i = z3.Int('pi')
    N = zint(n)
    c.add(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N), z3.And(0 <= P(i), P(i) < N, Q(P(i)) == i)), patterns=[P(i)]))
    c.add(z3.ForAll([i], z3.Implies(z3.And(0 <= i, i < N), z3.And(0 <= Q(i), Q(i) < N, P(Q(i)) == i)), patterns=[Q(i)]))
    c.maps.append((P, Q))
    return P, Q


def source_trigger(P, Q, key, at, N):
    """mentioning a source element also mentions its position in the sorted order"""
    x = z3.Int('psrc')
    seen, todo, pats = set(), [key], []
    while todo:
        t = todo.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() and builtins.any(a.eq(at) for a in t.children()) \
                and t.decl().name() != Q.name():
            pats.append(z3.substitute(t, (at, x)))
        todo += t.children()
    for pt in pats[:2]:
        ctx().add(z3.ForAll([x], z3.Implies(z3.And(0 <= x, x < N), z3.And(0 <= Q(x), Q(x) < N, P(Q(x)) == x)), patterns=[pt]))


def sort_seq(s, key=None, reverse=False):
    """sorted(): a permutation of s in non-decreasing key order"""
    trust('sorted/np.sort: a permutation in non-decreasing order')
    c = ctx()
    n = s.length
    kf = key or (lambda x: x)
    j, k = z3.Ints('sj sk')

    def kz(t, perm=True):
        v = kf(s.get(SInt(P(t) if perm else t)))
        if isinstance(v, timedelta64):
            return zint(v.ps)
        if isinstance(v, tuple):
            v = v[0]
        if isnum(v):
            return core.znum(v)
        return v

    def le(x, y):
        """what sorting establishes for x before y"""
        if z3.is_expr(x) and z3.is_expr(y):
            return x >= y if reverse else x <= y
        r = B.truth(x < y if reverse else y < x)
        return z3.Not(zbool(r))
    N = zint(n)
    if not reverse:
        # a sequence already in order stays as it is (sorting is stable)
        o = z3.Int(c.fresh('so'))
        v = core.under(z3.And(0 <= o, o + 1 < N), lambda: le(kz(o, False), kz(o + 1, False)))
        if core._solve(c.pc + [0 <= o, o + 1 < N, z3.Not(v)], 4000)[0] == 'unsat':
            return SSeq(n, s.get, 'list')
    P, Q = permutation(n, 'sorted')
    rel = core.under(z3.And(0 <= j, j <= k, k < N, 0 <= P(j), P(j) < N, 0 <= P(k), P(k) < N), lambda: le(kz(j), kz(k)))
    source_trigger(P, Q, rel, P(j), N)
    c.add(z3.ForAll([j, k], z3.Implies(z3.And(0 <= j, j <= k, k < zint(n)), rel),
                    patterns=[z3.MultiPattern(P(j), P(k))]))
    r = SSeq(n, lambda t: s.get(SInt(P(zint(t)))), 'list')
    r.perm = (P, Q)
    return r


def sort(a, axis=-1, **k):
    s = as_sseq(a)
    if s is not None and (not isinstance(a, ndarray) or a.ndim == 1):
        if concrete(s.length):
            xs = [s.get(i) for i in builtins.range(s.length)]
            arr = asarray(xs)
            return asarray(B.sorted_([arr._get((i,)) for i in builtins.range(s.length)]))
        r = sort_seq(s)
        return asarray(r)
    raise Unsupported('np.sort')


def argsort(a, axis=-1, kind=None, **k):
    a = asarray(a)
    if a.ndim != 1:
        raise Unsupported('argsort of an n-d array')
    n = a._shape[0]
    trust('numpy.argsort: a permutation listing elements in non-decreasing order')
    f = a._snapshot()
    P, Q = permutation(n, 'argsort')
    j, kk = z3.Ints('aj ak')
    va = core.under(z3.And(0 <= j, j < zint(n), 0 <= P(j), P(j) < zint(n)), lambda: core.znum(f((SInt(P(j)),))))
    vb = z3.substitute(va, (j, kk))
    source_trigger(P, Q, va, P(j), zint(n))
    ctx().add(z3.ForAll([j, kk], z3.Implies(z3.And(0 <= j, j <= kk, kk < zint(n)), va <= vb),
                        patterns=[z3.MultiPattern(P(j), P(kk))]))
    r = lazy((n,), int64, lambda i: ranged(SInt(P(zint(i[0]))), i[0], n))
    r._perm = (P, Q)
    return r


def ranged(v, i, n):
    """instantiate the range fact of a permutation at i"""
    ctx().add(z3.Implies(z3.And(zint(i) >= 0, zint(i) < zint(n)), z3.And(zint(v) >= 0, zint(v) < zint(n))))
    return v


def argpartition(a, kth, axis=-1, **k):
    a = asarray(a)
    if a.ndim != 1:
        raise Unsupported('argpartition of an n-d array')
    n = a._shape[0]
    trust('numpy.argpartition: a permutation; elements before position kth are <= those from kth on; kth must be < n')
    kk = kth
    neg = kk < 0
    if neg if type(neg) is builtins.bool else fork(zbool(neg)):
        kk = kk + n
    ok = core.And(kk >= 0, kk < n)
    if not (ok if type(ok) is builtins.bool else fork(zbool(ok))):
        raise ValueError('kth(=%s) out of bounds (%s)' % (kth, n))
    f = a._snapshot()
    P, Q = permutation(n, 'argpart')
    i, j = z3.Ints('pi pj')
    va = core.under(z3.And(0 <= i, i < zint(n), 0 <= P(i), P(i) < zint(n)), lambda: core.znum(f((SInt(P(i)),))))
    vb = z3.substitute(va, (i, j))
    source_trigger(P, Q, va, P(i), zint(n))
    K = zint(kk)
    ctx().add(z3.ForAll([i, j], z3.Implies(z3.And(0 <= i, i <= K, K <= j, j < zint(n)), va <= vb),
                        patterns=[z3.MultiPattern(P(i), P(j))]))
    r = lazy((n,), int64, lambda ix: ranged(SInt(P(zint(ix[0]))), ix[0], n))
    r._perm = (P, Q)
    return r


def argx(a, axis, op):
    a = asarray(a)
    if a.ndim != 1 or axis not in (None, 0, -1):
        raise Unsupported('argmin/argmax')
    n = a._shape[0]
    f = a._snapshot()
    if concrete(n) and n <= 64:
        if n == 0:
            raise ValueError('attempt to get argmax of an empty sequence')
        bi_, bv = 0, f((0,))
        for i in builtins.range(1, n):
            v = f((i,))
            c = v > bv if op == 'max' else v < bv
            bi_, bv = ite(c, i, bi_), ite(c, v, bv)
        return bi_
    c = ctx()
    if fork(zint(n) <= 0):
        raise ValueError('attempt to get argmax of an empty sequence')
    trust('argmin/argmax: the first index of an extreme element')
    k = fresh_int('arg', 0, n)
    j = z3.Int(c.fresh('aj'))
    vj, vk = core.under(z3.And(0 <= j, j < zint(n)), lambda: core.znum(f((SInt(j),)))), core.znum(f((k,)))
    c.add(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zint(n)), vj <= vk if op == 'max' else vj >= vk)))
    c.add(z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zint(k)), vj < vk if op == 'max' else vj > vk)))
    return k


def argmax(a, axis=None):
    return argx(a, axis, 'max')


def argmin(a, axis=None):
    return argx(a, axis, 'min')


def where(c, x=None, y=None):
    if x is None and y is None:
        m = asarray(c)
        r = WhereTuple(m)
        return r
    ca = asarray(c)
    f = ufunc('where', lambda k, p, q: ite(B.truth(k), p, q), 3, lambda d: result_dtype(*[z for z in d[1:] if z is not None]))
    return f(c, x, y)


class WhereTuple(object):
    def __init__(self, m):
        self.mask = m

    @property
    def __class__(self):
        return WhereResult

    def __getitem__(self, k):
        if self.mask.ndim != 1 or k != 0:
            raise Unsupported('where() of an n-d array')
        return mask_positions(self.mask)

    def __iter__(self):
        return iter([self[0]])

    def __len__(self):
        return self.mask.ndim


def nonzero(c):
    return where(c)


def bincount(*a, **k):
    raise Unsupported('bincount')


def searchsorted(a, v, side='left', **k):
    s = as_sseq(a)
    from . import deps
    return deps.bisect_contract(s, unbox(v), side)


def unique(*a, **k):
    raise Unsupported('np.unique')


def outer(a, b):
    a, b = asarray(a), asarray(b)
    return multiply(expand_dims(a, 1), expand_dims(b, 0))


def allclose(*a, **k):
    raise Unsupported('allclose')


def array_equal(a, b):
    raise Unsupported('array_equal')


def packbits(a, axis=None, **k):
    if k or axis is None:
        raise Unsupported('packbits')
    a = asarray(a)
    if a._dtype.kind not in 'iub':
        raise TypeError('Expected an input array of integer or boolean data type')
    d = norm_axes(axis, a.ndim)[0]
    n, f = a._shape[d], a._snapshot()
    trust('numpy.packbits: element j of a byte is its bit 7 - j; missing elements are zero')

    def fn(ix):
        v = 0
        for j in builtins.range(8):
            k = ix[d] * 8 + j
            w = ite(core.And(k < n, core.Not(core.Eq(f(ix[:d] + (k,) + ix[d + 1:]), 0))), 2 ** (7 - j), 0)
            v = v + w
        return v
    return lazy(a._shape[:d] + ((n + 7) // 8,) + a._shape[d + 1:], DT['uint8'], fn)


def angle(*a, **k):
    raise Unsupported('angle')


unwrap = angle


def isscalar(x):
    return isnum(x)


def ndim(a):
    return asarray(a).ndim


def shape(a):
    return asarray(a).shape


def size(a):
    return asarray(a).size


class _errstate(object):
    def __init__(self, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


errstate = _errstate


def seterr(**k):
    return {}


class finfo(object):
    eps = 2.220446049250313e-16

    def __init__(self, t=None):
        pass


hanning = lambda n: symarray('hanning', (n,))
hamming = lambda n: symarray('hamming', (n,))


class recarray(object):
    """structured array: one ndarray per field"""

    def __new__(cls, shape=None, dtype=None, order=None, **k):
        o = builtins.object.__new__(cls)
        shape = norm_shape_(shape)
        fields = to_dtype(dtype).fields_
        o._fields = {}
        o._shape = shape
        o._order = []
        for f in fields:
            name, t = f[0], f[1]
            sub = f[2] if builtins.len(f) > 2 else ()
            sub = norm_shape_(sub) if not (isinstance(sub, tuple) and sub == ()) else ()
            o._order.append(name)
            o._fields[name] = empty(tuple(shape) + tuple(sub), t)
        return o

    @classmethod
    def _from(cls, fields, shape, order):
        o = builtins.object.__new__(cls)
        o._fields, o._shape, o._order = fields, shape, order
        return o

    @property
    def shape(self):
        return self._shape

    @property
    def ndim(self):
        return builtins.len(self._shape)

    @property
    def dtype(self):
        return dtype('record', 'V', 0, fields=[(n, self._fields[n]._dtype, self._fields[n]._shape[builtins.len(self._shape):]) for n in self._order])

    @property
    def size(self):
        return prod(self._shape)

    def __len__(self):
        return self._shape[0]

    def __getattr__(self, k):
        if k.startswith('_') or k not in self._fields:
            raise AttributeError(k)
        return self._fields[k]

    def __getitem__(self, i):
        if isinstance(i, str):
            return self._fields[i]
        if isint(i):
            i = norm_index(i, self._shape[0], 'index')
            return record(self, i)
        if isinstance(i, (slice, ndarray, list)) or issubclass(type(i), SSeq):
            fs = {n: getitem(a, i) for n, a in self._fields.items()}
            return recarray._from(fs, (fs[self._order[0]]._shape[0],), self._order)
        raise Unsupported('recarray index')

    def __setitem__(self, i, v):
        if isinstance(v, recarray):
            for n in self._order:
                setitem(self._fields[n], i, v._fields[n])
            return
        if isinstance(v, record):
            for n in self._order:
                setitem(self._fields[n], i, v[n])
            return
        if isint(i) and isinstance(v, tuple):
            for n, x in zip(self._order, v):
                setitem(self._fields[n], i, x)
            return
        s = as_sseq(v)
        if s is None:
            raise Unsupported('recarray assignment')
        if i == slice(None):
            if not same(s.length, self._shape[0]):
                if concrete(s.length) and concrete(self._shape[0]):
                    raise ValueError('could not broadcast')
                raise Unsupported('recarray assignment size')
            for j, n in enumerate(self._order):
                a = self._fields[n]
                if a._dtype.kind == 'O':
                    a._buf.fn = (lambda j: lambda b: s.get(b[0])[j])(j)
                else:
                    d = a._dtype
                    a._buf.fn = (lambda j, d: lambda b: cast(elem(s.get(b[0])[j], b[1:]), d))(j, d)
            return
        raise Unsupported('recarray assignment')

    def __sseq__(self):
        return SSeq(self._shape[0], lambda k: record(self, k), 'gen')

    def __iter__(self):
        n = self._shape[0]
        if concrete(n):
            return iter([self[k] for k in builtins.range(n)])
        return B.SIter(self.__sseq__())


def elem(x, idx):
    if isinstance(x, ndarray):
        return x._get(idx)
    if idx:
        return asarray(x)._get(idx)
    return x


class record(object):
    def __init__(self, ra, i):
        self._ra, self._i = ra, i

    def __getattr__(self, k):
        if k.startswith('_'):
            raise AttributeError(k)
        return self[k]

    def __getitem__(self, k):
        if isinstance(k, builtins.int):
            k = self._ra._order[k]
        a = self._ra._fields[k]
        return row(a, self._i)

    def __setitem__(self, k, v):
        setitem(self._ra._fields[k], self._i, v)

    def __iter__(self):
        return iter([self[n] for n in self._ra._order])


class _lib(object):
    stride_tricks = _stride_tricks


lib = _lib()


class _random(object):
    @staticmethod
    def randint(lo, hi=None, size=None, **k):
        trust('numpy.random: arbitrary values in the documented range')
        if hi is None:
            lo, hi = 0, lo
        empty = lo >= hi
        if empty if type(empty) is builtins.bool else fork(zbool(empty)):
            raise ValueError('low >= high')
        if size is None:
            return fresh_int('rand', lo, hi)
        sh = norm_shape_(size)
        f = fresh_fn('rand', builtins.len(sh), 'i')
        c = ctx()
        ks = [z3.Int(c.fresh('rk')) for _ in sh]
        v = zint(f(tuple(SInt(k) for k in ks)))
        rng = z3.And(*[z3.And(k >= 0, k < zint(s)) for k, s in zip(ks, sh)])
        c.add(z3.ForAll(ks, z3.Implies(rng, z3.And(v >= zint(lo), v < zint(hi))), patterns=[v]))
        r = lazy(sh, int64, f)
        c.draws.append((lo, hi, r))
        return r

    @staticmethod
    def random_integers(lo, hi=None, size=None):
        if hi is None:
            lo, hi = 1, lo
        return _random.randint(lo, hi + 1, size)

    @staticmethod
    def normal(*a, **k):
        raise Unsupported('random.normal')

    @staticmethod
    def choice(a, size=None, replace=True, **k):
        if k or replace is not True:
            raise Unsupported('random.choice')
        a = asarray(a) if isint(a) is False else arange(a)
        if a.ndim != 1:
            raise ValueError('a must be 1-dimensional')
        n = a._shape[0]
        none = n <= 0
        if none if type(none) is builtins.bool else fork(zbool(none)):
            raise ValueError("'a' cannot be empty unless no samples are taken")
        return a[_random.randint(0, n, size)]

    @staticmethod
    def shuffle(a):
        if not isinstance(a, ndarray):
            raise Unsupported('random.shuffle')
        trust('numpy.random.shuffle: rearranges the rows in place by some permutation')
        P, Q = permutation(a._shape[0], 'shuffle')
        f, n = a._snapshot(), a._shape[0]
        write(a, lambda i: (True, lambda: f((ranged(SInt(P(zint(i[0]))), i[0], n),) + tuple(i[1:]))))


random = _random()


def make_module():
    m = types.ModuleType('numpy')
    g = globals()
    for k in list(g):
        if not k.startswith('_') and k not in ('core', 'B', 'z3', 'builtins', 'inspect', 'math', 'types'):
            setattr(m, k, g[k])
    m.any, m.all = any_, all_
    m.bool, m.int, m.float, m.object = builtins.bool, builtins.int, builtins.float, builtins.object
    m.str = builtins.str
    m.bool8 = bool_
    m.int_ = int64
    m.float_ = float64
    m.random = random
    m.linalg = linalg
    m.lib = lib
    m.__path__ = []
    _restrict(m)
    return m


def setup():
    from . import loader
    m = make_module()
    loader.EXTERNAL['numpy'] = m
    st = types.ModuleType('numpy.lib.stride_tricks')
    st.as_strided = _stride_tricks.as_strided
    st.sliding_window_view = _stride_tricks.sliding_window_view
    loader.EXTERNAL['numpy.lib.stride_tricks'] = st
    loader.EXTERNAL['numpy.lib'] = lib
    loader.EXTERNAL['numpy.linalg'] = linalg
    return m


# -- arguments the models do not look at: only these values of them are modelled

def _only(f, **allowed):
    import functools
    sig = inspect.signature(f)
    names = builtins.list(sig.parameters)
    first = builtins.min(names.index(k) for k in allowed) if allowed else builtins.len(names)
    kw = [p.name for p in sig.parameters.values() if p.kind == p.VAR_KEYWORD]

    @functools.wraps(f)
    def g(*a, **k):
        if k or builtins.len(a) > first:
            b = sig.bind(*a, **k).arguments
            for n, ok in allowed.items():
                if n in b and not builtins.any(_same_arg(b[n], o) for o in ok):
                    raise Unsupported('%s(%s=%r)' % (f.__name__, n, b[n]))
            for n in kw:
                for x, v in b.get(n, {}).items():
                    if v is not None and not (x == 'order' and v in ('C', 'K')):
                        raise Unsupported('%s(%s=...)' % (f.__name__, x))
        return f(*a, **k)
    return g


def _same_arg(v, o):
    if o is _any_float:
        return v is not None and to_dtype(v).kind in 'fc'
    return v is o or (type(v) is type(o) and not is_sym(v) and v == o)


_any_float = object()
_C = dict(order=('C', 'K', 'A', None))
_MODELLED = dict(
    empty=_C, zeros=_C, ones=_C, zeros_like={}, ones_like={}, empty_like={}, full_like={}, geomspace={}, asarray=_C,
    linspace=dict(dtype=(None, _any_float)), array=dict(copy=(True,), ndmin=(0,)),
    frombuffer=dict(count=(-1,), offset=(0,)), fromstring=dict(count=(-1,), offset=(0,)), fromiter=dict(count=(-1,)),
    round=dict(out=(None,)), around=dict(out=(None,)), clip={}, sum=dict(out=(None,), dtype=(None, _any_float)), max={}, min=dict(out=(None,)),
    amax={}, amin=dict(out=(None,)), mean=dict(dtype=(None, _any_float), out=(None,)), std={}, any={}, all={}, product={}, prod={},
    cumsum=dict(axis=(None, 0, -1)), diff=dict(n=(1,)), sort=dict(axis=(-1, 0)), argsort=dict(axis=(-1, 0)), argpartition=dict(axis=(-1, 0)),
    searchsorted={})
_METHODS = dict(
    sum=dict(dtype=(None, _any_float)), max={}, min={}, prod={}, mean=dict(dtype=(None, _any_float)),
    std=dict(dtype=(None, _any_float)), any={}, all={}, tobytes=_C, tostring=_C, copy=_C, view={}, astype=dict(copy=(True, False)))


def _restrict(m):
    for n, allowed in _METHODS.items():
        if not hasattr(ndarray.__dict__[n], '__wrapped__'):
            setattr(ndarray, n, _only(ndarray.__dict__[n], **allowed))
    for n, allowed in _MODELLED.items():
        f = getattr(m, n, None)
        if f is not None:
            setattr(m, n, _only(f, **allowed))


np = None


def issubdtype(d, t):
    d = to_dtype(d)
    kinds = {'inexact': 'fc', 'floating': 'f', 'complexfloating': 'c', 'integer': 'iu', 'signedinteger': 'i',
             'unsignedinteger': 'u', 'number': 'iufc', 'bool_': 'b', 'generic': None}
    if isinstance(t, str) or not isinstance(t, _Kind):
        if t in (float, int, bool, complex):
            t = {float: floating, int: signedinteger, bool: _Kind('bool_'), complex: complexfloating}[t]
        else:
            return d == to_dtype(t)
    k = kinds[t.name]
    return k is None or d.kind in k


class _Kind(type):
    """one of numpy's abstract scalar types"""

    def __new__(cls, name, *a):
        return type.__new__(cls, name, (), {})

    def __init__(self, name, *a):
        self.name = name

    def __instancecheck__(self, x):
        if is_sym(x):
            raise Unsupported('isinstance(x, np.%s) of a symbolic number' % self.name)
        return False


inexact, floating, complexfloating, number, generic, integer, signedinteger, unsignedinteger = [
    _Kind(k) for k in ('inexact', 'floating', 'complexfloating', 'number', 'generic', 'integer', 'signedinteger',
                       'unsignedinteger')]
