"""C11: what is written to a database is restored identically."""
import z3
from engine.spec import *
from engine import core, bi, deps

util = load('zounds.persistence.util')
per = load('zounds.persistence.arraywithunits')
tsp = load('zounds.persistence.timeslice')
dimp = load('zounds.persistence.dimension')
aud = load('zounds.persistence.audiosamples')
axis_ = load('zounds.core.axis')
ts_ = load('zounds.timeseries.timeseries')
fs = load('zounds.spectral.frequencyscale')
tf = load('zounds.spectral.tfrepresentation')
Identity = load('zounds.core.dimensions').IdentityDimension
NumpyMetaData = load('featureflow').NumpyMetaData
AWU = axis_.ArrayWithUnits
td = np.timedelta64
INT = z3.IntSort()
UNITS = ('ps', 'ns', 'us', 'ms', 's', 'm', 'h', 'D', 'W')
assumption('durations are 64-bit counts of a unit')
assumption('json restores numbers exactly and base64, struct undo themselves')


def duration(name, unit, lo=None):
    n = Int(name, lo)
    assume(And(n < 2 ** 63, n > -2 ** 63))
    return td(n, unit)


def same_duration(a, b, name='the duration is restored'):
    prove(isinstance(a, td) and a.dtype == b.dtype, 'the unit is restored')
    prove(Eq(a.n, b.n), name)


def stored(d):
    """what is read back after writing these values as JSON"""
    json = load('json')
    return ok(json.loads, ok(json.dumps, d))


@spec('durations', each=UNITS)
def durations(unit):
    t = duration('n', unit)
    e = ok(util.encode_timedelta, t)
    same_duration(ok(util.decode_timedelta, e), t)
    same_duration(ok(util.decode_timedelta, stored({'d': e})['d']), t, 'the duration is restored from its text')


@spec('time slices', each=[(u, v) for u in UNITS for v in ('ps', u)] + [('s', None)])
def slices(unit, other):
    start = duration('start', unit)
    dur = None if other is None else duration('duration', other)
    t = ok(ts_.TimeSlice, start=start, duration=dur)
    d = stored(ok(tsp.TimeSliceEncoder().dict, t))
    r = ok(ts_.TimeSlice, **ok(tsp.TimeSliceDecoder().kwargs, d))
    prove(Eq(r.start.ps, t.start.ps), 'the start is restored')
    if dur is None:
        prove(r.duration is None, 'an open end is restored')
    else:
        same_duration(r.duration, dur)
    prove(ok(lambda: r == t), 'an equal slice')


# ------------------------------------------------------------------ dimensions

def through(dims):
    d = ok(lambda: list(dimp.DimensionEncoder().encode(dims)))
    out = ok(lambda: list(dimp.DimensionDecoder().decode(stored(d))))
    prove(len(out) == len(dims), 'as many dimensions')
    return out


@spec('identity dimensions')
def identity():
    prove(isinstance(through([Identity()])[0], Identity), 'an identity dimension')


@spec('time dimensions', each=[(u, v, s) for u, v, s in zip(UNITS, UNITS[1:] + UNITS[:1], [True, False] * 5)])
def time(unit, other, sized):
    f, d = duration('frequency', unit, 1), duration('duration', other, 1)
    size = Int('size', 0) if sized else None
    t = ok(ts_.TimeDimension, f, d, size)
    r = through([t])[0]
    prove(type(r) is type(t), 'a time dimension')
    same_duration(r.frequency, f)
    same_duration(r.duration, d)
    prove(r.size is None if size is None else Eq(r.size, size), 'the size is restored')


class Scales(object):
    """a scale of each kind with any parameters, and how two of a kind are compared"""

    @staticmethod
    def band():
        lo, hi = Real('start_hz'), Real('stop_hz')
        assume(And(lo >= 0, hi > lo))
        return ok(fs.FrequencyBand, lo, hi)

    @staticmethod
    def params(s):
        return [s.n_bands, s.always_even] + [getattr(s, a) for a in ('start_center_hz', 'stop_center_hz', 'bandwidth_ratio') if hasattr(s, a)]

    @classmethod
    def make(cls, kind, n=None):
        n = Int('bands', 1) if n is None else n
        even = choose('always_even')
        if kind == 'LinearScale':
            return ok(fs.LinearScale, cls.band(), n, always_even=even)
        if kind == 'GeometricScale':
            a, b, q = Real('start_center_hz'), Real('stop_center_hz'), Real('bandwidth_ratio')
            assume(And(a > 0, b > a, q > 0, q < 1))
            return ok(fs.GeometricScale, a, b, q, n, always_even=even)
        if kind == 'ExplicitScale':
            f, g = [z3.Function(core.ctx().fresh(x), INT, z3.RealSort()) for x in ('starts', 'widths')]

            def one(k):
                a, w = SReal(f(zint(k))), SReal(g(zint(k)))
                a = ite(a > 0, a, 0.0)
                return fs.FrequencyBand(a, a + ite(w > 0, w, 1.0))
            assume(one(0).start_hz < one(n - 1).stop_hz)
            return ok(fs.ExplicitScale, bi.SSeq(n, one))
        if kind == 'ChromaScale':
            return ok(fs.ChromaScale, cls.band())
        return ok(getattr(fs, kind), cls.band(), n)

    @classmethod
    def same(cls, r, s):
        prove(type(r) is type(s), 'the type of the scale is restored')
        prove(And(*[Eq(a, b) for a, b in zip(cls.params(r), cls.params(s))]), 'the parameters are restored')
        a, b = r.frequency_band, s.frequency_band
        prove(And(Eq(a.start_hz, b.start_hz), Eq(a.stop_hz, b.stop_hz)), 'the frequency band is restored')
        if isinstance(s, fs.ExplicitScale):
            k = Int('k', 0)
            assume(k < s.n_bands)
            a, b = item(r.bands, k), item(s.bands, k)
            prove(And(Eq(a.start_hz, b.start_hz), Eq(a.stop_hz, b.stop_hz)), 'every band is restored')


KINDS = ['LinearScale', 'GeometricScale', 'ExplicitScale', 'BarkScale', 'MelScale', 'ChromaScale']


@spec('frequency dimensions', each=KINDS, seconds=100)
def frequency(kind):
    s = Scales.make(kind)
    r = through([ok(tf.FrequencyDimension, s)])[0]
    prove(type(r) is tf.FrequencyDimension, 'a frequency dimension')
    Scales.same(r.scale, s)


@spec('explicit frequency dimensions', each=KINDS[:3] + ['BarkScale', 'MelScale'], seconds=100)
def explicit(kind):
    s = Scales.make(kind)
    n = s.n_bands
    f, g = [z3.Function(core.ctx().fresh(x), INT, INT) for x in ('from', 'to')]
    sl = bi.SSeq(n, lambda k: slice(SInt(f(zint(k))), SInt(g(zint(k)))))
    d = tf.ExplicitFrequencyDimension.__new__(tf.ExplicitFrequencyDimension)
    d.scale, d.slices = s, sl
    by_contract(tf.ExplicitFrequencyDimension, '__init__', keep, 'construction of an explicit frequency dimension')
    r = through([d])[0]
    prove(type(r) is tf.ExplicitFrequencyDimension, 'an explicit frequency dimension')
    Scales.same(r.scale, s)
    prove(Eq(len_(r.slices), n), 'as many slices')
    k = Int('k', 0)
    assume(k < n)
    a, b = item(r.slices, k), item(sl, k)
    prove(And(Eq(a.start, b.start), Eq(a.stop, b.stop), a.step is None), 'every slice is restored')


def keep(self, scale, slices):
    self.scale, self.slices = scale, slices


# ------------------------------------------------------------------ arrays

class Meta(object):
    """what NumpyMetaData writes"""

    def __init__(self, dt, shape):
        self.dt, self.shape = dt, shape

    @property
    def __class__(self):
        return bytes


class Stream(object):
    """a file-like object over some byte strings, which are read one after the other, or several at once at the end"""

    def __init__(self, items):
        self.items = [i.encode() if isinstance(i, str) else i for i in items]

    def read(self, n=None):
        if n is None or n == -1:
            rest, self.items = self.items, []
            if len(rest) != 1:
                raise Unsupported('several byte strings read at once')
            return rest[0]
        first = self.items[0]
        size = len_bytes(first)
        if not same(n, size) and not same_number(n, size):
            raise Unsupported('part of a byte string is read')
        return self.items.pop(0)


def same_number(a, b):
    return core._check(z3.Not(zint(a) == zint(b))) == z3.unsat


def len_bytes(b):
    return builtins_len(b) if type(b) is bytes else b.__len__()


builtins_len = len


def metadata_by_contract():
    def pack(self):
        return Meta(self.dtype, self.shape)

    def unpack(flo):
        m = flo.items.pop(0)
        if type(m) is not Meta:
            raise Unsupported('the metadata are read from elsewhere')
        return NumpyMetaData(m.dt, m.shape), Int('metadata_bytes', 1)
    by_contract(NumpyMetaData, 'pack', pack, 'featureflow.NumpyMetaData (a dependency): the type and shape of a row are restored')
    by_contract(NumpyMetaData, 'unpack', unpack, 'featureflow.NumpyMetaData (a dependency): the type and shape of a row are restored')


def shape(rank):
    return tuple(Int('n%d' % d, 1 if d else 0) for d in range(rank))


def index(sh):
    ix = tuple(Int('at%d' % d, 0) for d in range(len(sh)))
    assume(And(*[i < n for i, n in zip(ix, sh)]))
    return ix


DIMS = {
    'identity': lambda n: Identity(),
    'time': lambda n: ts_.TimeDimension(duration('frequency', 'ps', 1), duration('length', 'us', 1)),
    'frequency': lambda n: tf.FrequencyDimension(Scales.make('LinearScale', n)),
}
TYPES = ['float64', 'float32', 'int16', 'uint8', 'bool', 'complex128']
ARRAYS = [(t, d) for t, d in zip(TYPES * 2, [('time',), ('time', 'frequency'), ('time', 'identity', 'frequency'), ('identity',),
                                             ('identity', 'time'), ('time', 'time', 'identity')] * 2)]


def same_dims(r, dims):
    prove(len(r.dimensions) == len(dims), 'as many dimensions')
    for a, b in zip(r.dimensions, dims):
        prove(type(a) is type(b), 'the type of each dimension')
        if isinstance(b, ts_.TimeDimension):
            same_duration(a.frequency, b.frequency)
            same_duration(a.duration, b.duration)
        elif isinstance(b, tf.FrequencyDimension):
            Scales.same(a.scale, b.scale)


def array_of(dt, dims, name='x', sh=None):
    sh = sh or shape(len(dims))
    d = [DIMS[k](n) for k, n in zip(dims, sh)] if isinstance(dims[0], str) else dims
    return AWU(mnumpy.symarray(name, sh, dt), d)


@spec('arrays', each=ARRAYS, seconds=100)
def arrays(dt, dims):
    metadata_by_contract()
    x = array_of(dt, dims)
    items = ok(lambda: list(per.ArrayWithUnitsEncoder()._process(x)))
    r = ok(per.ArrayWithUnitsDecoder(), Stream(items))
    prove(isinstance(r, AWU) and r.dtype == x.dtype, 'the element type is restored')
    prove(len(r.shape) == len(x.shape) and And(*[Eq(a, b) for a, b in zip(r.shape, x.shape)]), 'the shape is restored')
    same_dims(r, x.dimensions)
    ix = index(x.shape)
    prove(Eq(r._get(ix), x._get(ix)), 'the values are restored')


@spec('later chunks', each=ARRAYS[:6], seconds=100)
def later(dt, dims):
    """the first chunk writes dimensions, metadata and its bytes; any later one its bytes only, which follow those before"""
    metadata_by_contract()
    for packed in (False, True):
        e = (per.PackedArrayWithUnitsEncoder if packed else per.ArrayWithUnitsEncoder)()
        x = array_of(dt if not packed else 'bool', dims)
        first = ok(lambda: list(e._process(x)))
        for _ in range(2):
            y = array_of(dt if not packed else 'bool', x.dimensions[:1] + x.dimensions[1:], 'y', (Int('more', 0),) + tuple(x.shape[1:]))
            items = ok(lambda: list(e._process(y)))
            prove(len(items) == 1, 'a later chunk writes its bytes only')
            b = items[0]
            want = np.packbits(y.astype(np.uint8), axis=-1) if packed else y
            if type(b) is not mnumpy.SBytes:
                raise Unsupported('the bytes written')
            prove(b.arr.dtype == want.dtype and And(*[Eq(p, q) for p, q in zip(b.arr.shape, want.shape)]), 'of the same type and rows')
            ix = index(want.shape)
            prove(Eq(b.arr._get(ix), want._get(ix)), 'all of them')


PACKED = [('bool', ('time', 'frequency')), ('uint8', ('identity',)), ('float64', ('time',)), ('int64', ('identity', 'time')),
          ('bool', ('time', 'identity', 'frequency'))]


@spec('packed arrays', each=PACKED, seconds=100)
def packed(dt, dims):
    """the elements of a binary array are 0 or 1, of any type"""
    metadata_by_contract()
    sh = shape(len(dims))
    f = z3.Function(core.ctx().fresh('bit'), *([INT] * len(sh) + [z3.BoolSort()]))
    bit = lambda ix: SBool(f(*[zint(i) for i in ix]))
    x = AWU(mnumpy.lazy(sh, mnumpy.dtype(dt), lambda ix: bit(ix) if dt == 'bool' else ite(bit(ix), mnumpy.cast(1, dt), mnumpy.cast(0, dt))),
            [DIMS[k](n) for k, n in zip(dims, sh)])
    items = ok(lambda: list(per.PackedArrayWithUnitsEncoder()._process(x)))
    r = ok(per.ArrayWithUnitsDecoder(), Stream(items))
    prove(isinstance(r, AWU) and r.dtype == np.dtype('uint8'), 'bytes')
    n = sh[-1]
    prove(len(r.shape) == len(sh) and And(*[Eq(a, b) for a, b in zip(r.shape[:-1], sh[:-1])]), 'the other axes are restored')
    prove(Eq(r.shape[-1], (n + 7) // 8), 'eight elements per byte')
    same_dims_but_last(r, x)
    ix = index(r.shape)
    v = 0
    for b in range(8):
        k = ix[-1] * 8 + b
        v = v + ite(And(k < n, bit(ix[:-1] + (k,))), 2 ** (7 - b), 0)
    prove(Eq(r._get(ix), v), 'the bits packed along the last axis')


def same_dims_but_last(r, x):
    prove(len(r.dimensions) == len(x.dimensions), 'as many dimensions')
    class Part(object):
        dimensions = r.dimensions[:-1]
    same_dims(Part, x.dimensions[:-1])


RATES = ['SR96000', 'SR48000', 'SR44100', 'SR22050', 'SR11025']


@spec('audio samples', each=[(r, k) for r in RATES for k in (1, 2)], seconds=100)
def audio(rate, rank):
    metadata_by_contract()
    sr = getattr(load('zounds.timeseries.samplerate'), rate)()
    sh = shape(1) + ((2,) if rank == 2 else ())
    x = ok(load('zounds.timeseries.audiosamples').AudioSamples, mnumpy.symarray('x', sh), sr)
    items = ok(lambda: list(per.ArrayWithUnitsEncoder()._process(x)))
    r = ok(aud.AudioSamplesDecoder(), Stream(items))
    prove(type(r) is type(x), 'audio samples')
    prove(type(r.samplerate) is type(sr) and r.samplerate == sr, 'of the same sample rate')
    prove(len(r.shape) == len(sh) and And(*[Eq(a, b) for a, b in zip(r.shape, sh)]), 'of the same shape')
    same_dims(r, x.dimensions)
    ix = index(sh)
    prove(Eq(r._get(ix), x._get(ix)), 'the values are restored')


@spec('the features')
def features():
    for f in (per.ArrayWithUnitsFeature, per.PackedArrayWithUnitsFeature):
        got = ok(f, object)
        prove(isinstance(got, f), 'a feature')
