from util import *
import numpy as np
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.core.dimensions import Dimension
from zounds.timeseries import TimeDimension
from zounds.spectral import FrequencyBand, LinearScale, FrequencyDimension


class Tagged(Dimension):
    def __init__(self, tag):
        super(Tagged, self).__init__()
        self.tag = tag

    def copy(self):
        return Tagged(self.tag)

    def __eq__(self, other):
        return isinstance(other, Tagged) and self.tag == other.tag


class Axis(object):
    """a dimension for an axis of the given size, and how the oracle knows it again"""

    def __init__(self, t, k, size):
        self.k, self.size = k, size
        self.kind = t.rng.choice('TTFSI' if size else 'TSI')
        if self.kind == 'T':
            self.f = td(t.rng.randint(1, 9) * 10 + k, t.rng.choice(['ps', 'ms', 's', 'us']))
            self.d = self.f + td(t.rng.randint(0, 3), 'ms')
            self.dim = TimeDimension(self.f, self.d)
        elif self.kind == 'F':
            self.scale = LinearScale(FrequencyBand(10 + k, 1000), size)
            self.dim = FrequencyDimension(self.scale)
        elif self.kind == 'S':
            self.dim = Tagged(k)
        else:
            self.dim = t.rng.choice([None, IdentityDimension()])

    def is_(self, d, size):
        if self.kind == 'T':
            return isinstance(d, TimeDimension) and d.frequency == self.f and d.duration == self.d and d.size == size
        if self.kind == 'F':
            return isinstance(d, FrequencyDimension) and d.scale == self.scale and len(d.scale) == size
        if self.kind == 'S':
            return isinstance(d, Tagged) and d.tag == self.k
        return isinstance(d, IdentityDimension)


def problem(t, ranks=(0, 1, 2, 2, 3, 3, 4, 5), sizes=(0, 1, 1, 2, 3, 4)):
    rank = t.rng.choice(ranks)
    shape = tuple(t.rng.choice(sizes) for _ in range(rank))
    if rank and t.rng.random() < .1:
        k = t.rng.randrange(rank)
        shape = shape[:k] + (t.rng.randint(20, 300),) + shape[k + 1:]
    axes = [Axis(t, k, n) for k, n in enumerate(shape)]
    n = int(np.prod(shape))
    raw = np.array([t.rng.randint(-50, 50) for _ in range(n)], dtype=t.rng.choice(['float64', 'float32', 'int32', 'int64', 'int16', 'complex64'])).reshape(shape)
    if rank and t.rng.random() < .3:
        raw = np.asfortranarray(raw)
    case = dict(shape=shape, dtype=str(raw.dtype), dimensions=''.join(a.kind for a in axes))
    t.current = case
    return axes, raw, ArrayWithUnits(raw, [a.dim for a in axes]), case


def compare(t, got, want, axes, key, case):
    """axes: for each axis of the result, the axis it was, None for an identity dimension or any for one that is not
    determined"""
    t.expect(np.shape(got) == want.shape, key + '-shape', case, (np.shape(got), want.shape))
    t.expect(np.shape(got) == want.shape and np.array_equal(np.asarray(got), want) and np.asarray(got).dtype == want.dtype,
             key + '-numbers', case)
    dims = getattr(got, 'dimensions', ())
    good = isinstance(got, ArrayWithUnits) and len(dims) == len(axes) and all(
        a is any or (isinstance(d, IdentityDimension) if a is None else a.is_(d, n))
        for d, a, n in zip(dims, axes, want.shape))
    t.expect(good, key + '-dimensions', case, str(dims))


def check_construction(t):
    for _ in t.times(1500):
        axes, raw, arr, case = problem(t)
        compare(t, arr, raw, axes, 'construct', case)
        dims = [a.dim for a in axes]
        wrong = dims + [t.rng.choice([None, Tagged(7), TimeDimension(td(1, 's'))])]
        t.raises(ValueError, lambda: ArrayWithUnits(raw, wrong), 'too-many-dimensions', case)
        if dims:
            t.raises(ValueError, lambda: ArrayWithUnits(raw, dims[:-1]), 'too-few-dimensions', case)
            k = t.rng.randrange(len(dims))
            n = t.rng.choice([x for x in range(1, 7) if x != raw.shape[k]])
            dims[k] = FrequencyDimension(LinearScale(FrequencyBand(10, 1000), n))
            t.raises(ValueError, lambda: ArrayWithUnits(raw, dims), 'scale-mismatch', (case, k, n))


def check_shared_dimension(t):
    for _ in t.times(300):
        shape = tuple(t.rng.randint(0, 5) for _ in range(t.rng.randint(1, 4)))
        shared = TimeDimension(td(3, 'ms'))
        case = shape
        t.current = case
        arr = ArrayWithUnits(np.zeros(shape), [shared] * len(shape))
        t.equal(tuple(d.size for d in arr.dimensions), shape, 'own-length', case)


def check_transpose(t):
    for _ in t.times(1500):
        axes, raw, arr, case = problem(t)
        compare(t, arr.T, raw.T, axes[::-1], 'T', case)
        perm = list(range(raw.ndim))
        t.rng.shuffle(perm)
        form = t.rng.randrange(4)
        case = dict(case, axes=str(perm), form=form)
        t.current = case
        want = raw.transpose(perm)
        if form == 0 or not perm:
            got, want, perm = arr.transpose(), raw.T, perm and list(range(raw.ndim))[::-1]
        elif form == 1:
            got = arr.transpose(*[p - t.rng.choice([0, raw.ndim]) for p in perm])
        elif form == 2:
            got = arr.transpose(tuple(perm))
        else:
            got = np.transpose(arr, perm)
        compare(t, got, want, [axes[p] for p in perm], 'transpose', case)


def check_squeeze(t):
    for _ in t.times(1500):
        axes, raw, arr, case = problem(t)
        compare(t, arr.squeeze(), raw.squeeze(), [a for a in axes if a.size != 1], 'squeeze', case)


def check_reshape(t):
    for _ in t.times(3000):
        axes, raw, arr, case = problem(t)
        kept = [a for a in axes if a.size != 1]
        new, out = [], []
        for a in kept + [None]:
            for _ in range(t.rng.choice([0, 0, 1, 1, 2])):
                new.append(1)
                out.append(any if 1 in raw.shape else None)
            if a is not None:
                new.append(a.size)
                out.append(a)
        if t.rng.random() < .2:
            new, out = list(raw.shape), list(axes)
        if tuple(new) == raw.shape:
            out = list(axes)
        arg = list(new)
        if arg and 0 not in new and t.rng.random() < .2:
            arg[t.rng.randrange(len(arg))] = -1
        if t.rng.random() < .5:
            arg = tuple(arg)
        case = dict(case, new=str(arg))
        t.current = case
        compare(t, arr.reshape(arg), raw.reshape(new), out, 'reshape', case)


def check_other_reshape(t):
    for _ in t.times(1000):
        axes, raw, arr, case = problem(t, (1, 2, 3, 4))
        n = raw.size
        k = t.rng.choice([x for x in range(1, n + 1) if n % x == 0]) if n else 0
        new = t.rng.choice([(-1,), (n,), (k, n // k if k else 3), [n // k if k else 2, 1, k]])
        want = raw.reshape(new)
        case = dict(case, new=str(new))
        t.current = case
        got = arr.reshape(new)
        one = [x for x in want.shape if x != 1] == [x for x in raw.shape if x != 1]
        compare(t, got, want, [any if one else None] * want.ndim, 'reshape', case)


def check_reductions(t):
    for _ in t.times(5000):
        axes, raw, arr, case = problem(t, (1, 2, 3, 4))
        op = t.rng.choice(['sum', 'sum', 'max'] if raw.size else ['sum'])
        keep = t.rng.random() < .5
        rank = raw.ndim
        k = t.rng.randint(0, rank)
        signed = lambda a: a - t.rng.choice([0, rank])
        if k == 0:
            red, axis = set(range(rank)), None
        else:
            red = t.rng.sample(range(rank), k)
            axis = signed(red[0]) if k == 1 and t.rng.random() < .6 else tuple(signed(a) for a in red)
            red = set(red)
        case = dict(case, op=op, axis=str(axis), keepdims=keep)
        t.current = case
        want = np.asarray(getattr(raw, op)(axis=axis, keepdims=keep))
        call = t.rng.randrange(2)
        got = getattr(arr, op)(axis=axis, keepdims=keep) if call else getattr(np, op)(arr, axis=axis, keepdims=keep)
        if want.ndim:
            compare(t, got, want, [None if j in red else a for j, a in enumerate(axes) if keep or j not in red], op, case)
        else:
            t.expect(np.ndim(got) == 0 and got == want, op + '-numbers', case, str(got))


def check_concat(t):
    for _ in t.times(2500):
        axes, raw, arr, case = problem(t, (1, 2, 2, 3, 4))
        rank = raw.ndim
        ax = t.rng.randrange(rank)
        if axes[ax].kind == 'F':
            continue
        raws = [raw]
        for _ in range(t.rng.randint(1, 3)):
            shape = list(raw.shape)
            shape[ax] = t.rng.randint(0, 4)
            if t.rng.random() < .05:
                shape[ax] = t.rng.randint(20, 100)
            as_ = raw.dtype if t.rng.random() < .7 else t.rng.choice(['int8', 'int64', 'float32', 'float64', 'complex128', 'bool'])
            half = .5 if np.dtype(as_).kind in 'fc' else 0
            raws.append(np.array([t.rng.randint(-50, 50) + half for _ in range(int(np.prod(shape)))], dtype=as_).reshape(shape))
        t.rng.shuffle(raws)
        arrs = [ArrayWithUnits(r, [a.dim for a in axes]) for r in raws]
        axis = ax - t.rng.choice([0, rank])
        case = dict(case, axis=axis, lengths=[r.shape[ax] for r in raws])
        t.current = case
        if ax == 0:
            compare(t, arrs[0].concatenate(arrs[1]), np.concatenate(raws[:2]), axes, 'concatenate', case)
        compare(t, ArrayWithUnits.concat(arrs, axis=axis), np.concatenate(raws, axis=axis), axes, 'concat', case)
        # one dimension of one of them is not the same
        j, k = t.rng.randrange(len(arrs)), t.rng.randrange(rank)
        a = axes[k]
        other = t.rng.choice([None, Tagged('x'), TimeDimension(td(7, 'ps'))] + (
            [TimeDimension(a.f + td(1, 'ps'), a.d), TimeDimension(a.f, a.d + td(1, 'ps'))] if a.kind == 'T' else []) + (
            [FrequencyDimension(LinearScale(FrequencyBand(10 + k, 1001), a.size))] if a.kind == 'F' else []))
        if other is None and a.kind == 'I':
            continue
        dims = [x.dim for x in axes]
        dims[k] = other
        wrong = list(arrs)
        wrong[j] = ArrayWithUnits(raws[j], dims)
        case = dict(case, which=j, dimension=k, other=str(other))
        t.current = case
        t.raises(ValueError, lambda: ArrayWithUnits.concat(wrong, axis=axis), 'different-dimensions', case)
        if ax == 0 and j < 2:
            t.raises(ValueError, lambda: wrong[0].concatenate(wrong[1]), 'different-dimensions', case)


def check_chain(t):
    """operations one after the other on the results of earlier ones; every array made on the way keeps its numbers and
    its axes"""
    for _ in t.times(500):
        axes, raw, arr, case = problem(t, (1, 2, 3, 4), (1, 1, 2, 3, 4))
        made = [(axes, raw.copy('K'), arr, 'made')]
        steps = []
        case = dict(case, steps=steps)
        t.current = case
        for _ in range(t.rng.randint(2, 7)):
            axes, want, got, _how = t.rng.choice(made[-2:] if t.rng.random() < .8 else made)
            rank = want.ndim
            if not rank:
                continue
            op = t.rng.choice(['T', 'transpose', 'squeeze', 'sum', 'reshape', 'concat', 'copy'])
            at = [j for j, m in enumerate(made) if m[2] is got][0]
            before = want
            if op == 'T':
                want, got, axes = want.T, got.T, axes[::-1]
            elif op == 'transpose':
                perm = list(range(rank))
                t.rng.shuffle(perm)
                want, got, axes = want.transpose(perm), got.transpose(*perm), [axes[p] for p in perm]
                op = '%s%s' % (op, perm)
            elif op == 'squeeze':
                axes = [a for a, n in zip(axes, want.shape) if n != 1]
                want, got = want.squeeze(), got.squeeze()
            elif op == 'sum':
                k, keep = t.rng.randrange(rank), t.rng.random() < .5
                if rank == 1 and not keep:
                    continue
                want, got = want.sum(axis=k, keepdims=keep), got.sum(axis=k, keepdims=keep)
                axes = [None if j == k else a for j, a in enumerate(axes) if keep or j != k]
                op = '%s(%d, %s)' % (op, k, keep)
            elif op == 'reshape':
                j = t.rng.randint(0, rank)
                if 1 in want.shape:
                    continue
                new = want.shape[:j] + (1,) + want.shape[j:]
                axes = axes[:j] + [None] + axes[j:]
                want, got = want.reshape(new), got.reshape(new)
                op = '%s%s' % (op, new)
            elif op == 'concat':
                k = t.rng.randrange(rank)
                if axes[k] is not None and axes[k] is not any and axes[k].kind == 'F':
                    continue
                want, got = np.concatenate([want, want], axis=k), ArrayWithUnits.concat([got, got], axis=k)
                op = '%s(%d)' % (op, k)
            else:
                want, got = want.copy(), ArrayWithUnits(np.array(got), [d for d in got.dimensions])
            steps.append('%s of %d' % (op, at))
            if not want.ndim:
                continue
            compare(t, got, want, axes, 'chain', case)
            made.append((axes, np.array(want), got, op))
        for axes, want, got, how in made:
            compare(t, got, want, axes, 'chain-kept', case)
