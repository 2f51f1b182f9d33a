"""Contracts assumed of dependencies outside /repo, as executable models: bytes, io.BytesIO."""
import builtins
import bisect as _bisect
import io as _io
import types

import z3

from . import core, bi, loader, mnumpy
from .core import Unsupported, is_sym, trust, ite, fork, zint, SInt, ctx
from .bi import slice_indices, norm_index, isint

concrete = lambda x: not is_sym(x)


class SBytes(object):
    """an immutable byte string of symbolic length"""

    def __init__(self, length, get):
        self.length, self.get = length, get

    @property
    def __class__(self):
        return bytes

    def __len__(self):
        return self.length

    def __getitem__(self, i):
        if isinstance(i, slice):
            start, stop, step, n = slice_indices(i, self.length)
            g = self.get
            return norm(SBytes(n, lambda k: g(start + k * step)))
        return self.get(norm_index(i, self.length))

    def __add__(self, o):
        return join(self, o) if isinstance(o, (bytes, bytearray)) else NotImplemented

    def __radd__(self, o):
        return join(o, self) if isinstance(o, (bytes, bytearray)) else NotImplemented

    def __bool__(self):
        n = self.length
        return n != 0 if concrete(n) else fork(zint(n) != 0)

    def __hash__(self):
        raise Unsupported('hash of symbolic bytes')

    def __eq__(self, o):
        if not isinstance(o, bytes):
            return False
        n, g = parts(o)
        m, f = parts(self)
        if concrete(n) and n == 0 or concrete(m) and m == 0:
            return core.Eq(n, m)
        raise Unsupported('comparison of symbolic bytes')

    def __ne__(self, o):
        r = self.__eq__(o)
        return core.Not(r)

    def __iter__(self):
        raise Unsupported('iterating over symbolic bytes')


def repeated(b, n):
    """n times the bytes b"""
    m = len(b)
    return SBytes(ite(n > 0, n, 0) * m, (lambda k: b[0]) if m == 1 else lambda k: ite_pick(b, k % m))


def ite_pick(b, k):
    r = b[-1]
    for j in range(len(b) - 1):
        r = ite(core.Eq(k, j), b[j], r)
    return r


def parts(b):
    if type(b) is SBytes:
        return b.length, b.get
    if isinstance(b, (bytes, bytearray)):
        b = bytes(b)
        n = builtins.len(b)

        def get(k):
            if concrete(k):
                return b[k]
            if not n:
                return 0
            v = b[n - 1]
            for j in range(n - 2, -1, -1):
                v = ite(core.Eq(k, j), b[j], v)
            return v
        return n, get
    f = getattr(type(b), '__sym_bytes__', None)
    if f is not None:
        return f(b)
    raise TypeError('a bytes-like object is required, not %r' % type(b).__name__)


def norm(s):
    """real bytes when everything is known"""
    n, g = s.length, s.get
    if concrete(n) and n <= 64:
        vs = [g(k) for k in range(n)]
        if all(concrete(v) for v in vs):
            return bytes(vs)
    return s


def join(a, b):
    n, f = parts(a)
    m, g = parts(b)
    if concrete(n) and n == 0:
        return b
    if concrete(m) and m == 0:
        return a
    return norm(SBytes(n + m, lambda k: pick(k < n, lambda: f(k), lambda: g(k - n))))


def pick(c, a, b):
    if type(c) is bool:
        return a() if c else b()
    return bi._sel(c, a, b)


def symbytes(name, n):
    f = z3.Function(ctx().fresh(name), z3.IntSort(), z3.IntSort())

    def get(k):
        v = f(zint(k))
        ctx().add(z3.And(v >= 0, v < 256))
        return SInt(v)
    return SBytes(n, get)


class BytesIO(object):
    """io.BytesIO: a growable byte array with a position"""

    def __init__(self, initial=b''):
        trust('io.BytesIO: read returns the bytes from the position on, write overwrites and extends at the position')
        n, g = parts(initial if initial is not None else b'')
        self._n, self._g, self._p = n, g, 0
        self.closed = False

    def read(self, count=-1):
        left = self._n - self._p
        left = ite(left < 0, 0, left) if is_sym(left) else max(0, left)
        if count is None:
            k = left
        elif concrete(count):
            k = left if count < 0 else (ite(left < count, left, count) if is_sym(left) else min(left, count))
        else:
            k = ite(core.Or(count < 0, count > left), left, count)
        p, g = self._p, self._g
        self._p = p + k
        return norm(SBytes(k, lambda i: g(p + i)))
    read1 = read

    def readinto(self, buf):
        d = self.read(bi.len_(buf))
        k = bi.len_(d)
        buf[:k] = d
        return k

    def write(self, data):
        m, f = parts(data)
        n, g, p = self._n, self._g, self._p
        if concrete(m) and m == 0:
            return 0
        if fork(zint(p) > zint(n)) if is_sym(p) or is_sym(n) else p > n:
            self._g = lambda k: pick(k < n, lambda: g(k), lambda: pick(k < p, lambda: 0, lambda: f(k - p)))
            self._n = p + m
        else:
            end = p + m
            self._g = lambda k: pick(core.And(k >= p, k < end), lambda: f(k - p), lambda: g(k))
            self._n = ite(end > n, end, n) if is_sym(end) or is_sym(n) else max(end, n)
            if is_sym(m):
                # writing nothing changes nothing
                pass
        self._p = p + m
        return m

    def seek(self, off, whence=0):
        if whence == 0:
            if fork(zint(off) < 0) if is_sym(off) else off < 0:
                raise ValueError('negative seek value')
            self._p = off
        elif whence in (1, 2):
            t = (self._p if whence == 1 else self._n) + off
            self._p = ite(t < 0, 0, t) if is_sym(t) else max(0, t)
        else:
            raise ValueError('invalid whence')
        return self._p

    def tell(self):
        return self._p

    def getvalue(self):
        return norm(SBytes(self._n, self._g))

    def getbuffer(self):
        raise Unsupported('BytesIO.getbuffer')

    def truncate(self, size=None):
        size = self._p if size is None else size
        self._n = ite(size < self._n, size, self._n)
        return size

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def readable(self):
        return True
    writable = seekable = readable

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class SBuffer(object):
    """a writable buffer of symbolic length"""

    def __init__(self, n, get):
        self.length, self.get = n, get

    @property
    def __class__(self):
        return memoryview

    def __len__(self):
        return self.length

    def __setitem__(self, i, v):
        if not isinstance(i, slice):
            raise Unsupported('buffer item assignment')
        start, stop, step, n = slice_indices(i, self.length)
        if not (concrete(step) and step == 1):
            raise Unsupported('strided buffer assignment')
        m, f = parts(v)
        from .mnumpy import entails
        if not entails(zint(n) == zint(m)) if is_sym(n) or is_sym(m) else n != m:
            if fork(zint(n) != zint(m)):
                raise ValueError('memoryview assignment: lvalue and rvalue have different structures')
        g = self.get
        self.get = lambda k: pick(core.And(k >= start, k < start + n), lambda: f(k - start), lambda: g(k))


def io_module():
    m = types.ModuleType('io')
    for k in dir(_io):
        if not k.startswith('__'):
            setattr(m, k, getattr(_io, k))
    m.BytesIO = BytesIO
    return m


loader.EXTERNAL['io'] = io_module()


def bisection(name, before):
    """bisect: the number of elements before the insertion point of x, given that the list is sorted"""
    real = getattr(_bisect, name)

    def f(a, x, lo=0, hi=None, key=None):
        if lo != 0 or hi is not None or key is not None:
            raise Unsupported('bisect with bounds')
        s = bi.as_sseq(a)
        if s is None:
            raise TypeError('object of type %r has no len()' % type(a).__name__)
        x = mnumpy.unbox(x)
        at = lambda i: mnumpy.unbox(s.get(i))
        n = s.length
        if concrete(n) and concrete(x) and all(concrete(at(i)) for i in range(n)):
            return real([at(i) for i in range(n)], x)
        trust('bisect: the insertion point of a sorted list')
        return insertion_point(n, at, lambda v: before(v, x), 'bisect')
    return f


def insertion_point(n, at, before, what):
    c = ctx()
    if not (concrete(n) and n < 2):
        i, j = core.fresh_int('bi'), core.fresh_int('bj')
        core.prove(z3.Implies(z3.And(zint(i) >= 0, zint(i) < zint(j), zint(j) < zint(n)),
                              core.under(z3.And(zint(i) >= 0, zint(i) < zint(j), zint(j) < zint(n)),
                                         lambda: core.zbool(at(i) <= at(j)))), what + ': the list is sorted')
    k = core.fresh_int('ins', 0)
    c.add(zint(k) <= zint(n))
    if concrete(n):
        for i in range(n):
            c.add(core.zbool(core.Iff(before(at(i)), i < k)))
        return k
    edge = lambda g, t, want: c.add(z3.Implies(g, core.under(g, lambda: core.zbool(before(at(t)) if want else core.Not(before(at(t)))))))
    edge(zint(k) > 0, k - 1, True)
    edge(zint(k) < zint(n), k, False)
    v = z3.Int(c.fresh('q'))
    rng = z3.And(v >= 0, v < zint(n))
    body = core.under(rng, lambda: core.zbool(core.Iff(before(at(SInt(v))), SInt(v) < k)))
    fact = core.quantify(v, rng, body)
    if fact is not None:
        c.add(fact)
    return k


def bisect_module():
    m = types.ModuleType('bisect')
    m.bisect_left = bisection('bisect_left', lambda v, x: v < x)
    m.bisect_right = m.bisect = bisection('bisect_right', lambda v, x: v <= x)
    return m


loader.EXTERNAL['bisect'] = bisect_module()


class Tensor(object):
    """a torch tensor: an array on a device; the values are those of the array"""

    def __init__(self, a, cuda=False):
        self._a, self.is_cuda = a, cuda

    def __getitem__(self, i):
        return Tensor(self._a[i], self.is_cuda)

    def __len__(self):
        return bi.len_(self._a)

    @property
    def shape(self):
        return self._a.shape

    def size(self, d=None):
        return self._a.shape if d is None else self._a.shape[d]

    @property
    def data(self):
        return self

    def detach(self):
        return self

    def cuda(self):
        return Tensor(self._a, True)

    def cpu(self):
        return Tensor(self._a, False)

    def numpy(self):
        if self.is_cuda:
            raise TypeError("can't convert cuda tensor to numpy")
        return self._a

    def __iter__(self):
        raise Unsupported('iterating over a tensor')

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('torch.Tensor.' + k)


class NoGrad(object):
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


def torch_module():
    from . import mnumpy

    class Torch(loader.OpaqueModule):
        pass
    m = Torch('torch')

    def from_numpy(a):
        trust('torch: from_numpy, numpy(), cuda(), cpu() and basic indexing of the first axis keep the values')
        if not isinstance(a, mnumpy.ndarray):
            raise TypeError('expected np.ndarray (got %s)' % type(a).__name__)
        return Tensor(mnumpy.view_as(a, mnumpy.ndarray))
    m.from_numpy = from_numpy
    m.no_grad = NoGrad
    m.cat = lambda ts, dim=0: Tensor(mnumpy.concatenate([t._a for t in ts] if isinstance(ts, (list, tuple)) and type(ts) in (list, tuple)
                                                        else bi.map_(lambda t: t._a, ts), axis=dim))
    return m


loader.EXTERNAL['torch'] = torch_module()


# ------------------------------------------------------------------ hashlib

class Digest(object):
    """a message digest: its value is never looked into"""
    count = 0

    def __init__(self, data=b''):
        trust('hashlib: digests are opaque, and different for every computation')

    def update(self, data):
        pass

    def hexdigest(self):
        Digest.count += 1
        return 'digest%d' % Digest.count


def hashlib_module():
    m = types.ModuleType('hashlib')
    m.md5 = m.sha1 = m.sha256 = Digest
    return m


loader.EXTERNAL['hashlib'] = hashlib_module()


# ------------------------------------------------------------------ base64, struct, json

class Coded(object):
    """the base64 encoding of some bytes"""

    def __init__(self, b):
        self.b = b

    @property
    def __class__(self):
        return bytes

    def decode(self, *a):
        return CodedText(self.b)


class CodedText(object):
    def __init__(self, b):
        self.b = b

    @property
    def __class__(self):
        return str

    def encode(self, *a):
        return Coded(self.b)


def base64_module():
    import base64
    m = types.ModuleType('base64')
    m.__dict__.update({k: v for k, v in vars(base64).items() if not k.startswith('__')})

    def b64encode(s, *a):
        if isinstance(s, bytes) and type(s) is bytes:
            return base64.b64encode(s, *a)
        if a or not isinstance(s, bytes):
            raise Unsupported('base64')
        trust('base64: decoding undoes encoding')
        return Coded(s)

    def b64decode(s, *a, **k):
        if type(s) in (Coded, CodedText):
            return s.b
        return base64.b64decode(s, *a, **k)
    m.b64encode = m.standard_b64encode = b64encode
    m.b64decode = m.standard_b64decode = b64decode
    return m


loader.EXTERNAL['base64'] = base64_module()


class Word(object):
    """a packed number"""

    def __init__(self, fmt, v, n):
        self.fmt, self.v, self.n = fmt, v, n

    @property
    def __class__(self):
        return bytes

    def __len__(self):
        return self.n


def struct_module():
    import struct
    m = types.ModuleType('struct')
    m.__dict__.update({k: v for k, v in vars(struct).items() if not k.startswith('__')})

    def pack(fmt, *vs):
        if not any(is_sym(v) for v in vs):
            return struct.pack(fmt, *vs)
        if len(vs) != 1:
            raise Unsupported('struct.pack')
        trust('struct: unpacking undoes packing (numbers that fit)')
        return Word(fmt, vs[0], struct.calcsize(fmt))

    def unpack(fmt, b):
        if type(b) is Word:
            if b.fmt != fmt:
                raise Unsupported('unpacked in another format')
            return (b.v,)
        return struct.unpack(fmt, b)
    m.pack, m.unpack = pack, unpack
    return m


loader.EXTERNAL['struct'] = struct_module()


class JText(object):
    """the JSON text of some values"""

    def __init__(self, value, length=None, cls=str):
        self.value, self.cls = value, cls
        self.length = core.fresh_int('json', 2) if length is None else length

    @property
    def __class__(self):
        return self.cls

    def __len__(self):
        return self.length

    def encode(self, *a):
        return JText(self.value, self.length, bytes)

    def decode(self, *a):
        return JText(self.value, self.length, str)


def jsonable(o):
    if isinstance(o, dict):
        if not all(isinstance(k, str) for k in o):
            raise Unsupported('keys that are no strings')
        return {k: jsonable(v) for k, v in o.items()}
    s = o if isinstance(o, bi.SSeq) else None
    if s is not None:
        g = s.get
        return bi.SSeq(s.length, lambda k: jsonable(g(k)))
    if isinstance(o, (list, tuple)):
        return [jsonable(v) for v in o]
    if o is None or isinstance(o, (str, bool, int, float)) or core.isnum(o):
        return o
    e = TypeError('Object of type %s is not JSON serializable' % type(o).__name__)
    if type(o).__module__.startswith('engine') and not isinstance(o, (mnumpy.ndarray, mnumpy.timedelta64)):
        raise Unsupported('JSON of %r' % type(o))
    e.modelled = True
    raise e


def json_module():
    import json
    m = types.ModuleType('json')
    m.__dict__.update({k: v for k, v in vars(json).items() if not k.startswith('__')})

    def dumps(o, **k):
        if k:
            return json.dumps(o, **k)
        trust('json: reading undoes writing (numbers exactly, tuples become lists)')
        return JText(jsonable(o))

    def loads(s, **k):
        return jsonable(s.value) if type(s) is JText and not k else json.loads(s, **k)
    m.dumps, m.loads = dumps, loads
    return m


loader.EXTERNAL['json'] = json_module()
