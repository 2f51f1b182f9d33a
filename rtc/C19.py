from util import *
import numpy as np
from zounds import ArrayWithUnits, TimeDimension, IdentityDimension
from zounds.basic.basic import Merge


def gaps(t, parts):
    while t.rng.random() < .2:
        parts.insert(t.rng.randint(0, len(parts)), 0)      # a chunk of no rows
    return parts


def check_streams(t):
    for _ in t.times(250, 3000):
        n = t.rng.choice([2, 2, 3, 4])
        rows = t.rng.choice([t.rng.randint(1, 14), t.rng.randint(1, 14), t.rng.randint(1, 14), t.rng.randint(30, 200)])
        dt = t.rng.choice(['float64', 'float32', 'int16', 'complex128'])
        f = td(t.rng.randint(1, 50), t.rng.choice(['ms', 'ps', 's']))
        data, chunks = [], []
        for s in range(n):
            w = t.rng.choice([1, 2, 3, 4, 4, 50])
            own = rows + t.rng.choice([0, 0, 0, t.rng.randint(0, 3)])
            x = t.np_rng.uniform(-1000, 1000, (own, w)).astype(dt)
            x = special(t.rng, x)
            data.append(x)
            chunks.append([ArrayWithUnits(c, [TimeDimension(f), IdentityDimension()]) for c in cut(x, gaps(t, partitions(t.rng, own)))])
        if t.rng.random() < .3:
            # the first chunks of one source are whole numbers, or the chunks differ in precision
            s = t.rng.randrange(n)
            for k, c in enumerate(chunks[s]):
                as_ = np.int8 if k == 0 else t.rng.choice([np.float64, np.float32, np.int64])
                v = (np.asarray(t.np_rng.randint(-100, 100, c.shape)) + (.5 if np.dtype(as_).kind == 'f' else 0)).astype(as_)
                chunks[s][k] = ArrayWithUnits(v, c.dimensions)
            data[s] = np.concatenate([np.asarray(c, dtype=np.float64) for c in chunks[s]])
        order = [i for i, c in enumerate(chunks) for _ in c]
        kind = t.rng.choice(['shuffled', 'sequential', 'reversed'])
        if kind == 'shuffled':
            t.rng.shuffle(order)
        elif kind == 'reversed':
            order.reverse()
        case = t.current = dict(sources=[x.shape for x in data], chunks=[[len(c) for c in cs] for cs in chunks], order=order)
        out = stream(lambda src: Merge(needs=dict((str(i), s) for i, s in enumerate(src))), chunks, order)
        m = min(len(x) for x in data)
        want = np.concatenate([x[:m] for x in data], axis=1)
        got = np.concatenate([np.asarray(o) for o in out]) if out else np.zeros((0, want.shape[1]))
        t.equal(got.tolist(), want.tolist(), 'rows', case)
        t.expect(all(isinstance(o, ArrayWithUnits) and isinstance(o.dimensions[0], TimeDimension) and o.dimensions[0].frequency == f
                     for o in out), 'time-series', case)


def check_as_soon(t):
    """rows leave with the chunk that completes them"""
    from featureflow import Node
    for _ in t.times(100, 1000):
        n = t.rng.choice([2, 3])
        nodes = [Node() for _ in range(n)]
        sent, parts = [0] * n, []
        m = Merge(needs=dict((str(i), s) for i, s in enumerate(nodes)))
        got = 0
        case = dict(sources=n, chunks=parts)
        for _ in range(12):
            s, k = t.rng.randrange(n), t.rng.randint(1, 4)
            parts.append((s, k))
            t.current = case
            x = np.zeros((k, 1)) + 100 * s + np.arange(sent[s], sent[s] + k)[:, None]
            sent[s] += k
            queue = __import__('collections').deque()
            for _ in m.process(ArrayWithUnits(x, [TimeDimension(td(1, 's')), IdentityDimension()]), nodes[s], queue):
                pass
            rows = [q[2]['data'] for q in queue if q[2].get('data') is not None]
            new = sum(len(r) for r in rows)
            for r in rows:
                for i, row in enumerate(np.asarray(r)):
                    t.equal(row.tolist(), [100. * j + got + i for j in range(n)], 'row', case)
            got += new
            t.equal(got, min(sent), 'emitted', case)
