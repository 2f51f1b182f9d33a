from util import *
import numpy as np
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.core.dimensions import Dimension
from zounds.core.axis import CustomSlice
from zounds.timeseries import TimeDimension, TimeSlice
from zounds.spectral import FrequencyBand, LinearScale, FrequencyDimension


class Span(CustomSlice):
    """a custom slice in steps of a dimension's own unit"""

    def __init__(self, a, b):
        super(Span, self).__init__()
        self.a, self.b = a, b


class Steps(Dimension):
    def __init__(self, unit):
        super(Steps, self).__init__()
        self.unit = unit

    def copy(self):
        return Steps(self.unit)

    def metaslice(self, index, size):
        return Steps(self.unit)

    def integer_based_slice(self, index):
        return slice(index.a // self.unit, index.b // self.unit) if isinstance(index, Span) else index


class Axis(object):
    """one axis of the array: its dimension, and how the oracle knows it again"""

    def __init__(self, t, k, size):
        self.size, self.k = size, k
        self.kind = t.rng.choice('TTFFIIS' if size else 'TIS')
        if self.kind == 'T':
            self.f = td(t.rng.randint(1, 9) * 10 + k, t.rng.choice(['ps', 'ms', 's', 'us']))
            self.dim = TimeDimension(self.f)
        elif self.kind == 'F':
            self.lo, self.w = 100 * (k + 1), t.rng.randint(4, 9)
            self.dim = FrequencyDimension(LinearScale(FrequencyBand(self.lo, self.lo + self.w * size), size))
        elif self.kind == 'S':
            self.dim = Steps(k + 2)
        else:
            self.dim = t.rng.choice([None, IdentityDimension()])

    def custom(self, t):
        """a custom slice and the integer slice it stands for"""
        if self.kind == 'F':
            a = t.rng.randint(0, self.size - 1)
            b = t.rng.randint(a + 1, self.size)
            return FrequencyBand(self.lo + a * self.w + 1, self.lo + b * self.w - 1), slice(a, b)
        a = t.rng.randint(0, self.size)
        b = t.rng.randint(a, self.size + 1)
        if self.kind == 'T':
            if b == a:
                b = a + 1
            if t.rng.random() < .2:
                return TimeSlice(start=self.f * a), slice(a, None)
            return TimeSlice(start=self.f * a, duration=self.f * (b - a)), slice(a, b)
        if self.kind == 'S':
            return Span(a * self.dim.unit, b * self.dim.unit), slice(a, b)
        return None

    def integer(self, t):
        """an integer slice"""
        n = self.size
        if self.kind == 'F':
            r = t.rng.random()
            a = t.rng.randint(0, n - 1)
            b = t.rng.randint(a + 1, n)
            return slice(None) if r < .2 else slice(a, None) if r < .4 else slice(None, b) if r < .5 else slice(a - n, b) if r < .6 else slice(a, b)
        pick = lambda: t.rng.choice([None, None, t.rng.randint(-n - 1, n + 1), t.rng.randint(0, n)])
        conv = lambda v: v if v is None or t.rng.random() < .7 else np.int64(v)
        return slice(conv(pick()), conv(pick()), t.rng.choice([None, None, None, 1, 2, -1]))

    def is_(self, d, sl, size):
        if self.kind == 'T':
            return isinstance(d, TimeDimension) and d.frequency == self.f and d.duration == self.f and d.size == size
        if self.kind == 'F':
            if not isinstance(d, FrequencyDimension) or len(d.scale) != size:
                return False
            at = range(self.size)[sl]
            return all(abs(b.start_hz - (self.lo + i * self.w)) < 1e-6 for b, i in zip(d.scale.bands, at))
        if self.kind == 'S':
            return isinstance(d, Steps) and d.unit == self.dim.unit
        return isinstance(d, IdentityDimension)


INT = [int, np.int64, np.int32, np.uint8, np.intp]


def index_for(t, axes):
    """an index, the plain index it stands for, the axis each component addresses"""
    rank = len(axes)
    used = t.rng.randint(0, rank)
    gap = t.rng.randint(0, used) if t.rng.random() < .5 else None
    m = t.rng.randint(0, 3)
    parts = []
    ax = 0
    for j in range(used + 1):
        if gap == j:
            parts.append((Ellipsis, Ellipsis, None))
            ax += rank - used
        if j == used:
            break
        a = axes[ax]
        k = t.rng.choice('iisscccl')
        if k == 'c' and a.kind != 'I':
            x, p = a.custom(t)
        elif k == 'i' and a.size:
            v = t.rng.randint(-a.size, a.size - 1)
            p = v
            x = t.rng.choice(INT)(v if v >= 0 else v) if v >= 0 else t.rng.choice([int, np.int64])(v)
        elif k == 'l' and (a.size or not m):
            p = [t.rng.randint(-a.size, a.size - 1) for _ in range(m)]
            x = list(p)
        else:
            x = p = a.integer(t)
        parts.append((x, p, ax))
        ax += 1
    for _ in range(t.rng.choice([0, 0, 0, 1, 1, 2])):
        parts.insert(t.rng.randint(0, len(parts)), (None, None, None))
    return parts


def problem(t):
    rank = t.rng.choice([1, 2, 2, 3, 3, 4])
    shape = tuple(t.rng.choice([0, 1, 2, 3, 4, 5]) if t.rng.random() < .9 else 7 for _ in range(rank))
    if t.rng.random() < .02:
        shape = shape[:1] + (t.rng.randint(30, 300),) + shape[2:3]
        rank = len(shape)
    axes = [Axis(t, k, n) for k, n in enumerate(shape)]
    raw = np.arange(int(np.prod(shape)), dtype=t.rng.choice([float, float, np.float32, np.int32, np.int64, complex])).reshape(shape) + 1
    if t.rng.random() < .2:
        raw = np.asfortranarray(raw)
    parts = index_for(t, axes)
    index, plain = tuple(p[0] for p in parts), tuple(p[1] for p in parts)
    if len(index) == 1 and t.rng.random() < .7:
        index = index[0]
    case = dict(shape=shape, dimensions=''.join(a.kind for a in axes), index=str(index), plain=str(plain))
    t.current = case
    return axes, raw, ArrayWithUnits(raw.copy('K'), [a.dim for a in axes]), index, plain, parts, case


def origins(raw, plain, parts):
    """the axis of origin of every axis of the result, found by probing plain numpy with arrays of axis numbers: the
    positions along each axis are tracked by indexing the coordinate arrays"""
    rank = raw.ndim
    ax = 0
    plan = []
    used = sum(1 for p in parts if p[2] is not None)
    for x, p, a in parts:
        if x is None:
            plan.append(('new', None))
        elif x is Ellipsis:
            plan.append(('gap', None))
            plan += [('keep', ax + j) for j in range(rank - used)]
            ax += rank - used
        else:
            plan.append(('list' if isinstance(p, list) else 'keep' if isinstance(p, slice) else 'int', ax))
            ax += 1
    if not any(x is Ellipsis for x, _, _ in parts):
        plan += [('keep', ax + j) for j in range(rank - used)]
    lists = any(k == 'list' for k, _ in plan)
    joint = [j for j, (k, _) in enumerate(plan) if k in ('list', 'int')] if lists else []
    near = joint and joint[-1] - joint[0] == len(joint) - 1
    out = ['list'] if joint and not near else []
    for j, (k, a) in enumerate(plan):
        if k == 'new':
            out.append('new')
        elif k == 'keep':
            out.append(a)
        elif near and j == joint[0]:
            out.append('list')
    return out


def check_reading(t):
    for _ in t.times(12000):
        axes, raw, arr, index, plain, parts, case = problem(t)
        want = raw[plain]
        got = arr[index]
        t.expect(np.shape(got) == want.shape, 'shape', case, (np.shape(got), want.shape))
        t.expect(np.shape(got) == want.shape and np.array_equal(np.asarray(got), want) and np.asarray(got).dtype == want.dtype, 'elements', case)
        if want.ndim:
            t.expect(isinstance(got, ArrayWithUnits), 'an-array-with-units', case)
            orig = origins(raw, plain, parts)
            sel = dict((p[2], p[1]) for p in parts if isinstance(p[1], slice))
            dims = getattr(got, 'dimensions', ())
            good = len(dims) == len(orig) == want.ndim and all(
                isinstance(d, IdentityDimension) if o in ('new', 'list') else axes[o].is_(d, sel.get(o, slice(None)), n)
                for d, o, n in zip(dims, orig, want.shape))
            t.expect(good, 'dimensions', case, (str(dims), orig))


def check_writing(t):
    for _ in t.times(8000):
        axes, raw, arr, index, plain, parts, case = problem(t)
        want = raw.copy()
        shape = want[plain].shape
        r = t.rng.random()
        if r < .3:
            v = -5.
        elif r < .8:
            v = -1 - np.arange(int(np.prod(shape)), dtype=float).reshape(shape)
        else:
            v = -1 - np.arange(shape[-1], dtype=float) if shape else -7.
        want[plain] = v
        if isinstance(v, np.ndarray) and v.ndim and t.rng.random() < .3:
            v = ArrayWithUnits(v, [IdentityDimension()] * v.ndim)
        arr[index] = v
        t.expect(np.array_equal(np.asarray(arr), want), 'written', case)
        t.expect(len(arr.dimensions) == raw.ndim and all(a.is_(d, slice(None), a.size) for a, d in zip(axes, arr.dimensions)), 'dimensions-kept', case)


def check_empty_list_and_masks(t):
    for n in (1, 3, 5):
        for rest in ((), (2,), (2, 3)):
            raw = np.arange(int(np.prod((n,) + rest)), dtype=float).reshape((n,) + rest)
            arr = ArrayWithUnits(raw.copy(), [TimeDimension(td(1, 's'))] + [IdentityDimension()] * len(rest))
            case = dict(shape=raw.shape)
            t.current = case
            got = arr[[]]
            t.expect(got.shape == raw[[]].shape and all(isinstance(d, IdentityDimension) for d in got.dimensions), 'empty-list', case)
            mask = raw > raw.mean()
            t.expect(np.array_equal(np.asarray(arr[mask]), raw[mask]), 'mask', case)
            want = raw.copy()
            want[mask] = -1
            arr[mask] = -1
            t.expect(np.array_equal(np.asarray(arr), want), 'mask-written', case)


def plain_of(t, axes):
    """an index that keeps every axis, the plain one, and the part of each axis that remains"""
    x, p = [], []
    for a, (_o, lo, hi) in axes:
        if a.kind == 'F' and hi - lo > 1:
            i = t.rng.randint(0, hi - lo - 1)
            j = t.rng.randint(i + 1, hi - lo)
            if t.rng.random() < .5:
                x.append(FrequencyBand(a.lo + (lo + i) * a.w + 1, a.lo + (lo + j) * a.w - 1))
            else:
                x.append(slice(i, j))
        elif hi - lo > 1:
            i = t.rng.randint(0, hi - lo - 1)
            j = t.rng.randint(i + 1, hi - lo)
            if a.kind == 'T' and t.rng.random() < .6:
                x.append(TimeSlice(start=a.f * i, duration=a.f * (j - i)))
            elif a.kind == 'S' and t.rng.random() < .6:
                x.append(Span(i * a.dim.unit, j * a.dim.unit))
            else:
                x.append(slice(i, j))
        else:
            x.append(slice(None))
            i, j = 0, hi - lo
        p.append((i, j))
    return tuple(x), p


def check_chain(t):
    """slices of slices: times count from where the slice begins, frequencies stay what they are; earlier arrays keep
    their axes"""
    for _ in t.times(800):
        shape = tuple(t.rng.choice([1, 3, 5, 8, 12]) for _ in range(t.rng.randint(1, 3)))
        own = [Axis(t, k, n) for k, n in enumerate(shape)]
        raw = np.arange(int(np.prod(shape)), dtype=float).reshape(shape)
        arr = ArrayWithUnits(raw.copy(), [a.dim for a in own])
        made = [(arr, raw, [(0, n) for n in shape])]
        steps = []
        case = dict(shape=shape, dimensions=''.join(a.kind for a in own), steps=steps)
        t.current = case
        for _ in range(t.rng.randint(2, 4)):
            k = t.rng.randrange(len(made))
            arr, raw, spans = made[k]
            index, plain = plain_of(t, [(a, (None,) + s) for a, s in zip(own, spans)])
            want = raw[tuple(slice(i, j) for i, j in plain)]
            steps.append((k, str(index)))
            got = arr[index if len(index) > 1 or t.rng.random() < .5 else index[0]]
            t.expect(np.shape(got) == want.shape and np.array_equal(np.asarray(got), want), 'chain-elements', case)
            made.append((got, want.copy(), [(lo + i, lo + j) for (lo, hi), (i, j) in zip(spans, plain)]))
        for j, (got, want, spans) in enumerate(made):
            t.expect(np.array_equal(np.asarray(got), want), 'chain-elements-kept', (case, j))
            dims = getattr(got, 'dimensions', ())
            t.expect(len(dims) == want.ndim and all(a.is_(d, slice(lo, hi), hi - lo) for a, d, (lo, hi) in zip(own, dims, spans)),
                     'chain-dimensions', (case, j), str(dims))
