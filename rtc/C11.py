"""Run-time contracts for C11, on the real code: what is written is restored."""
import json
import numpy as np
from io import BytesIO
from util import *

from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.timeseries import (
    TimeDimension, TimeSlice, AudioSamples, SR96000, SR48000, SR44100, SR22050, SR11025)
from zounds.spectral import (
    FrequencyDimension, ExplicitFrequencyDimension, FrequencyBand, LinearScale, GeometricScale, ExplicitScale, BarkScale,
    MelScale, ChromaScale, FrequencyAdaptive, Hz)
from zounds.persistence.arraywithunits import (
    ArrayWithUnitsEncoder, ArrayWithUnitsDecoder, PackedArrayWithUnitsEncoder, PackedArrayWithUnitsFeature, ArrayWithUnitsFeature)
from zounds.persistence.audiosamples import AudioSamplesDecoder
from zounds.persistence.frequencyadaptive import FrequencyAdaptiveDecoder
from zounds.persistence.timeslice import TimeSliceEncoder, TimeSliceDecoder
from zounds.persistence.util import encode_timedelta, decode_timedelta
from zounds.persistence.dimension import DimensionEncoder, DimensionDecoder

UNITS = ['W', 'D', 'h', 'm', 's', 'ms', 'us', 'ns', 'ps', 'fs', 'as']
DTYPES = ['float64', 'float32', 'float16', 'int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint64', 'bool',
          'complex64', 'complex128', '>f4', '>i2', '<U4', 'S3', 'datetime64[ms]', 'timedelta64[us]']


def written(chunks, encoder):
    out = []
    for c in chunks:
        for it in encoder._process(c):
            out.append(it.encode() if isinstance(it, str) else bytes(it))
    return BytesIO(b''.join(out))


def a_duration(rng, positive=False):
    hi = rng.choice([10, 10 ** 6, 2 ** 62])
    return np.timedelta64(rng.randint(1 if positive else -hi, hi), rng.choice(UNITS))


def tell(x):
    # printing a duration in a coarse unit overflows: describe the parts instead
    if isinstance(x, (list, tuple)):
        return [tell(k) for k in x]
    if isinstance(x, TimeDimension):
        return 'TimeDimension(%s, %s, %s)' % (x.frequency, x.duration, x.size)
    if isinstance(x, (FrequencyDimension, ExplicitFrequencyDimension)):
        return '%s(%s, %s)' % (type(x).__name__, type(x.scale).__name__, x.scale.n_bands)
    return type(x).__name__


def same_td(a, b):
    return a.dtype == b.dtype and a.astype(np.int64) == b.astype(np.int64)


def check_durations(t):
    for _ in t.times(2000, 30000):
        d = a_duration(t.rng)
        case = dict(duration=str(d))
        t.current = case
        r = decode_timedelta(json.loads(json.dumps(encode_timedelta(d))))
        t.expect(same_td(r, d), 'a duration is restored', case, str(r))


def check_slices(t):
    for _ in t.times(1000, 10000):
        rng = t.rng
        unit = rng.choice(UNITS[4:9])
        a = np.timedelta64(rng.randint(-1000, 1000), unit)
        b = rng.choice([None, np.timedelta64(rng.randint(0, 1000), rng.choice(UNITS[4:9]))])
        s = TimeSlice(start=a, duration=b)
        case = dict(slice=str((a, b)))
        t.current = case
        r = TimeSlice(**TimeSliceDecoder().kwargs(json.loads(json.dumps(TimeSliceEncoder().dict(s)))))
        t.expect(same_td(r.start, s.start) and (b is None) == (r.duration is None), 'a slice is restored', case, str((r.start, r.duration)))
        if b is not None:
            t.expect(same_td(r.duration, b), 'with its duration', case)
        t.expect(r == s, 'and equals the original', case)


def a_band(rng):
    lo = rng.choice([0, 20, rng.uniform(1, 1000), np.float64(rng.uniform(1, 1000))])
    hi = lo + rng.choice([1, 1000, rng.uniform(1, 20000)])
    return FrequencyBand(Hz(float(lo)), Hz(float(hi))) if rng.random() < .1 and lo else FrequencyBand(lo, hi)


def a_scale(rng, n=None):
    n = n or rng.randint(1, 9)
    kind = rng.randrange(7)
    if kind == 0:
        return LinearScale(a_band(rng), n, always_even=rng.random() < .5)
    if kind == 1:
        return GeometricScale(rng.uniform(10, 100), rng.uniform(200, 9000), rng.uniform(.01, .9), n, always_even=rng.random() < .5)
    if kind == 2:
        a = rng.uniform(0, 10)
        bands = []
        for _ in range(n):
            bands.append(FrequencyBand(a, a + rng.uniform(1, 50)))
            a += rng.uniform(.1, 40)
        return ExplicitScale(bands)
    if kind == 3:
        return BarkScale(FrequencyBand(20, rng.uniform(100, 9000)), n)
    if kind == 4:
        return MelScale(FrequencyBand(20, rng.uniform(100, 9000)), n)
    if kind == 5 and n > 1:
        s = LinearScale(FrequencyBand(0, 1000), 2 * n)
        return s[FrequencyBand(1, 500 - 1)]
    if n == 12:
        return ChromaScale(FrequencyBand(20, 5000))
    return LinearScale(a_band(rng), n)


def same_scale(a, b):
    if type(a) is not type(b) or a.n_bands != b.n_bands or a.always_even != b.always_even or not a == b:
        return False
    if (a.frequency_band.start_hz, a.frequency_band.stop_hz) != (b.frequency_band.start_hz, b.frequency_band.stop_hz):
        return False
    for k in ('start_center_hz', 'stop_center_hz', 'bandwidth_ratio'):
        if getattr(a, k, None) != getattr(b, k, None):
            return False
    if isinstance(a, ChromaScale):
        return True
    return [(x.start_hz, x.stop_hz) for x in a] == [(x.start_hz, x.stop_hz) for x in b]


def same_dim(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, TimeDimension):
        return same_td(a.frequency, b.frequency) and same_td(a.duration, b.duration) and a.size == b.size
    if isinstance(a, FrequencyDimension):
        return same_scale(a.scale, b.scale) and a == b
    if isinstance(a, ExplicitFrequencyDimension):
        return same_scale(a.scale, b.scale) and list(a.slices) == list(b.slices) and a == b
    return True


def a_time_dimension(rng):
    return TimeDimension(a_duration(rng, True), rng.choice([None, a_duration(rng, True)]))


def explicit(rng, n):
    scale = a_scale(rng, n)
    if isinstance(scale, ChromaScale):
        scale = LinearScale(FrequencyBand(20, 2000), n)
    at, sl = 0, []
    for _ in range(scale.n_bands):
        m = rng.randint(1, 4)
        sl.append(slice(at, at + m))
        at += m
    return ExplicitFrequencyDimension(scale, rng.choice([list, tuple])(sl)), at


def a_dimension(rng):
    """a dimension, and its size"""
    kind = rng.randrange(4)
    if kind == 0:
        return IdentityDimension(), rng.randint(1, 5)
    if kind == 1:
        return a_time_dimension(rng), rng.randint(1, 5)
    if kind == 2:
        s = a_scale(rng, rng.choice([None, None, 12]))
        return FrequencyDimension(s), s.n_bands
    return explicit(rng, rng.randint(1, 5))


def check_dimensions(t):
    for _ in t.times(1500, 20000):
        rng = t.rng
        dims = []
        for _k in range(rng.randint(1, 4)):
            d, n = a_dimension(rng)
            if isinstance(d, TimeDimension) and rng.random() < .7:
                d = TimeDimension(d.frequency, d.duration, rng.choice([n, n - 1]))
            if isinstance(d, ExplicitFrequencyDimension) and rng.random() < .5:
                # blocks that begin after the first position, with gaps, or that overlap
                by = rng.randint(0, 9)
                d = ExplicitFrequencyDimension(d.scale, [slice(s.start + by + k, s.stop + by + k + rng.randint(0, 2)) for k, s in enumerate(d.slices)])
            dims.append(d)
        case = dict(dims=tell(dims))
        t.current = case
        out = list(DimensionDecoder().decode(json.loads(json.dumps(list(DimensionEncoder().encode(dims))))))
        t.expect(len(out) == len(dims) and all(same_dim(a, b) for a, b in zip(out, dims)), 'dimensions are restored', case, tell(out))


def values(rng, shape, dt):
    r = np.random.RandomState(rng.randrange(2 ** 31))
    if dt in ('<U4', 'S3'):
        return r.randint(0, 999, shape).astype(dt)
    if dt.startswith(('datetime', 'timedelta')):
        return r.randint(-2 ** 40, 2 ** 40, shape).astype(dt)
    if dt.startswith('complex'):
        return (r.normal(size=shape) + 1j * r.normal(size=shape)).astype(dt)
    x = r.randint(-2 ** 31, 2 ** 31, shape) if 'f' not in dt else r.normal(size=shape)
    with np.errstate(all='ignore'):
        x = x.astype(dt)
    if 'f' in dt and x.size and rng.random() < .3:
        x.reshape(-1)[rng.randrange(x.size)] = rng.choice([np.nan, np.inf, -0.0])
    if rng.random() < .3 and x.ndim > 1:
        x = np.asfortranarray(x)
    return x


def an_array(rng, dt=None):
    dims, shape = [], []
    for k in range(rng.choice([1, 1, 2, 2, 3])):
        d, n = a_dimension(rng) if k else rng.choice([(IdentityDimension(), rng.randint(0, 6)), (a_time_dimension(rng), rng.randint(0, 6)), a_dimension(rng)])
        dims.append(d)
        shape.append(n)
    dt = dt or rng.choice(DTYPES)
    return ArrayWithUnits(values(rng, tuple(shape), dt), dims)


def identical(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()


def check_arrays(t):
    for _ in t.times(1500, 20000):
        x = an_array(t.rng)
        case = dict(shape=x.shape, dtype=str(x.dtype), dims=tell(x.dimensions))
        t.current = case
        r = ArrayWithUnitsDecoder()(written([x], ArrayWithUnitsEncoder()))
        t.expect(isinstance(r, ArrayWithUnits) and identical(r, x), 'values, type and shape are restored', case, (r.shape, str(r.dtype)))
        t.expect(len(r.dimensions) == x.ndim and all(same_dim(a, b) for a, b in zip(r.dimensions, x.dimensions)), 'dimensions are restored', case)


def cuts(rng, n):
    ks = sorted(rng.randint(0, n) for _ in range(rng.randint(1, 4)))
    return list(zip([0] + ks, ks + [n]))


def check_chunks(t):
    for _ in t.times(600, 8000):
        rng = t.rng
        rest, shape = [], []
        for _k in range(rng.choice([0, 1, 2])):
            d, n = a_dimension(rng)
            rest.append(d)
            shape.append(n)
        n = rng.randint(0, 12)
        dt = rng.choice(DTYPES)
        raw = values(rng, (n,) + tuple(shape), dt)
        first = rng.choice([IdentityDimension(), a_time_dimension(rng)])
        parts = [ArrayWithUnits(raw[a:b], [first] + rest) for a, b in cuts(rng, n)]
        whole = ArrayWithUnits(raw, [first] + rest)
        case = dict(shape=raw.shape, dtype=dt, chunks=[len(p) for p in parts])
        t.current = case
        r = ArrayWithUnitsDecoder()(written(parts, ArrayWithUnitsEncoder()))
        t.expect(identical(r, raw), 'the concatenation of the chunks', case, r.shape)
        t.expect(all(same_dim(a, b) for a, b in zip(r.dimensions, whole.dimensions)), 'the dimensions of the whole', case)


def check_packed(t):
    for _ in t.times(600, 8000):
        rng = t.rng
        dt = rng.choice(['bool', 'uint8', 'int64', 'float64'])
        dims, shape = [], []
        for k in range(rng.choice([1, 2, 3])):
            d, n = a_dimension(rng)
            dims.append(d)
            shape.append(n)
        if rng.random() < .5:
            dims[-1], shape[-1] = IdentityDimension(), rng.randint(1, 40)
        raw = np.random.RandomState(rng.randrange(2 ** 31)).randint(0, 2, tuple(shape)).astype(dt)
        free = type(dims[0]) in (IdentityDimension, TimeDimension) and len(dims) > 1
        parts = [ArrayWithUnits(raw[a:b], dims) for a, b in cuts(rng, len(raw))] if free else [ArrayWithUnits(raw, dims)]
        whole = ArrayWithUnits(raw, dims)
        case = dict(shape=raw.shape, dtype=dt, chunks=[p.shape[0] for p in parts], dims=tell(dims))
        t.current = case
        r = ArrayWithUnitsDecoder()(written(parts, PackedArrayWithUnitsEncoder()))
        t.expect(identical(r, np.packbits(raw.astype(np.uint8), axis=-1)), 'the bits packed along the last axis', case, r.shape)
        t.expect(len(r.dimensions) == raw.ndim and all(same_dim(a, b) for a, b in zip(r.dimensions[:-1], whole.dimensions[:-1])), 'the other dimensions are restored', case)


def check_audio(t):
    for _ in t.times(100, 1000):
        rng = t.rng
        sr = rng.choice([SR96000, SR48000, SR44100, SR22050, SR11025])()
        shape = rng.choice([(rng.randint(0, 50),), (rng.randint(0, 50), 2)])
        x = AudioSamples(values(rng, shape, rng.choice(['float32', 'int16'])), sr)
        case = dict(shape=shape, rate=str(sr))
        t.current = case
        r = AudioSamplesDecoder()(written([x], ArrayWithUnitsEncoder()))
        t.expect(type(r) is AudioSamples and r.samplerate == sr and identical(r, x), 'audio samples are restored', case)


def check_adaptive(t):
    for _ in t.times(150, 1500):
        rng = t.rng
        n, rows = rng.randint(1, 5), rng.randint(1, 4)
        scale = GeometricScale(20, 2000, .1, n)
        sizes = [rng.randint(1, 5) for _k in range(n)]
        x = FrequencyAdaptive([values(rng, (rows, m), 'float64') for m in sizes], a_time_dimension(rng), scale)
        case = dict(sizes=sizes, rows=rows)
        t.current = case
        r = FrequencyAdaptiveDecoder()(written([x], ArrayWithUnitsEncoder()))
        t.expect(isinstance(r, FrequencyAdaptive) and identical(r, x), 'an adaptive array is restored', case)
        t.expect(all(same_dim(a, b) for a, b in zip(r.dimensions, x.dimensions)), 'with its dimensions', case)
        for band in scale:
            t.expect(identical(r[:, band], x[:, band]), 'and bands', case)


def check_features(t):
    for cls in (ArrayWithUnitsFeature, PackedArrayWithUnitsFeature):
        t.current = cls.__name__
        t.expect(isinstance(cls(ArrayWithUnitsEncoder), cls), 'a feature can be declared', cls.__name__)


def check_large(t):
    for n in [1 << 16, 200001] if not t.thorough else [1 << 16, 200001, 1 << 21, (1 << 22) + 7]:
        raw = np.arange(n * 3, dtype=np.float64).reshape(n, 3)
        x = ArrayWithUnits(raw, [a_time_dimension(t.rng), IdentityDimension()])
        t.current = n
        t.expect(identical(ArrayWithUnitsDecoder()(written([x], ArrayWithUnitsEncoder())), raw), 'long arrays are restored', n)
