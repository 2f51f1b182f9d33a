"""Executable contract of C15 on the real code: reservoirs and the stream sampler"""
import numpy as np
from util import *
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.timeseries import TimeDimension, Seconds
from zounds.learn.random_samples import Reservoir, MultiplexedReservoir, ReservoirSampler, ShuffledSamples
from featureflow import NotEnoughData


class Numbered(object):
    """chunks whose rows say which row of the stream they are: row i is (i, i + 1/2, ...)"""

    def __init__(self, width, kind, dtype='float64', scale=1):
        if kind.endswith('integers'):    # larger than floating point can tell apart
            dtype, scale = 'int64', 2 ** 55 + 1
        self.width, self.kind, self.n, self.dtype, self.scale = width, kind, 1, dtype, scale

    def chunk(self, m):
        x = self.row(np.arange(self.n, self.n + m))
        self.n += m
        if self.kind.startswith('units'):
            x = ArrayWithUnits(x, [TimeDimension(Seconds(1))] + [IdentityDimension()] * (x.ndim - 1))
        return x

    def row(self, i):
        i = np.asarray(i, dtype=self.dtype) * self.scale
        return i if self.width == 0 else i[:, None] + np.arange(self.width, dtype=self.dtype)[None, :] * 1000


def which(src, rows):
    """the numbers of rows, or None if a row is not one of the stream"""
    rows = np.asarray(rows)
    first = rows if src.width == 0 else rows[:, 0]
    num = np.rint(first / src.scale).astype(np.int64) if src.dtype == 'int64' else first / src.scale
    if src.dtype == 'int64' and rows.dtype != 'int64' or not np.array_equal(np.asarray(src.row(num), dtype=rows.dtype), rows):
        return None
    ids = [int(v) for v in num]
    return ids if all(1 <= i < src.n and i == v for i, v in zip(ids, num)) else None


def seeded(t):
    np.random.seed(t.rng.randrange(2 ** 32))
    return t.rng.randrange(1, 12), t.rng.choice([0, 1, 3]), t.rng.choice(['plain', 'units', 'plain integers', 'units integers'])


def sizes(t):
    return [t.rng.choice([0, 1, 2, 3, 7, 20]) for _ in range(t.rng.randrange(1, 6))]


def check_given_slots(t):
    for _ in t.times(300, 3000):
        n, width, kind = seeded(t)
        src, slots = Numbered(width, kind), {}
        r = Reservoir(n)
        plan = []
        for m in sizes(t):
            idx = [t.rng.randrange(n) for _ in range(m)]
            plan.append(idx)
            t.current = {'slots': n, 'width': width, 'kind': kind, 'indices': plan}
            start = src.n
            r.add(src.chunk(m), indices=np.array(idx, dtype=int))
            slots.update((s, start + k) for k, s in enumerate(idx))
            if not slots:
                continue
            if width and t.rng.random() < .2:
                # rows of another shape are refused, and no slot is taken for them
                free = np.array([t.rng.randrange(n) for _ in range(2)])
                t.raises(ValueError, lambda: r.add(np.ones((2, width + 1), dtype=src.dtype), indices=free), 'refused', t.current)
            out = r.get()
            t.equal(which(src, out), [slots[s] for s in sorted(slots)], 'slots', t.current)
            t.equal(len(r), len(slots), 'length', t.current)
            t.close(r.percent_full(), len(slots) / n, 'percent full', t.current)
            b = t.rng.randrange(1, n + 3)
            if b > len(slots):
                t.raises(ValueError, lambda: r.get_batch(b), 'batch too large', t.current)
            else:
                got = which(src, r.get_batch(b))
                t.expect(got is not None and len(got) == b and set(got) <= set(slots.values()), 'batch', t.current, str(got))
        t.raises(ValueError, lambda: r.add(src.chunk(3), indices=np.array([0, 0])), 'mismatch', t.current)


def check_random_slots(t):
    for _ in t.times(300, 3000):
        n, width, kind = seeded(t)
        src = Numbered(width, kind)
        r = Reservoir(n)
        total, held, plan = 0, 0, []
        for m in sizes(t):
            plan.append(m)
            t.current = {'slots': n, 'width': width, 'kind': kind, 'chunks': plan}
            r.add(src.chunk(m))
            total += m
            if not total:
                continue
            got = which(src, r.get())
            if not t.expect(got is not None, 'rows given', t.current, str(r.get())):
                break
            t.expect(held <= len(got) <= min(n, total) and len(set(got)) == len(got), 'number of rows', t.current, str(got))
            t.expect(m == 0 or got and src.n - 1 in got, 'the last row is there', t.current, str(got))
            held = len(got)


def check_multiplexed(t):
    for _ in t.times(200, 2000):
        n, width, kind = seeded(t)
        a, b, c = Numbered(width, kind), Numbered(2, 'plain', scale=3), Numbered(0, kind, scale=7)
        r = MultiplexedReservoir(n)
        total, plan = 0, []
        for m in sizes(t):
            plan.append(m)
            t.current = {'slots': n, 'width': width, 'kind': kind, 'chunks': plan}
            chunk = {'a': a.chunk(m), 'b': b.chunk(m), 'c': c.chunk(m)}
            order = list('abc')
            t.rng.shuffle(order)
            r.add(dict((k, chunk[k]) for k in order))
            total += m
            if not total:
                continue
            out = r.get()
            got = [which(s, out[k]) for k, s in (('a', a), ('b', b), ('c', c))]
            t.expect(got[0] is not None and got[0] == got[1] == got[2], 'aligned', t.current, str(got))
        t.raises(ValueError, lambda: r.add({'a': a.chunk(1)}), 'keys', t.current)


def check_sampler(t):
    for _ in t.times(300, 3000):
        n, width, kind = seeded(t)
        src = Numbered(width, kind)
        ms = [m for m in sizes(t)]
        t.current = {'slots': n, 'width': width, 'kind': kind, 'chunks': ms}
        if not sum(ms):
            continue
        out = stream(lambda needs: ReservoirSampler(nsamples=n, needs=needs), [[src.chunk(m) for m in ms]])
        if not t.expect(len(out) == 1, 'once', t.current, len(out)):
            continue
        total = sum(ms)
        got = which(src, out[0])
        t.expect(got is not None and len(got) == min(n, total), 'rows', t.current, str(out[0]))
        if total <= n:
            t.expect(sorted(got or []) == list(range(1, total + 1)), 'whole stream', t.current, str(got))
        t.expect(isinstance(out[0], ArrayWithUnits) == kind.startswith('units'), 'type', t.current)


def check_shuffled(t):
    for _ in t.times(100, 1000):
        n, width, kind = seeded(t)
        src = Numbered(width, kind)
        ms = [m for m in sizes(t)]
        t.current = {'slots': n, 'width': width, 'kind': kind, 'chunks': ms}
        if not sum(ms):
            continue
        out = stream(lambda needs: ShuffledSamples(nsamples=n, needs=needs), [[src.chunk(m) for m in ms]])
        if not t.expect(len(out) == 1, 'once', t.current, len(out)):
            continue
        got = which(src, out[0])
        t.expect(got is not None and len(got) == len(set(got)) and len(got) <= n, 'shuffled rows', t.current, str(out[0]))
