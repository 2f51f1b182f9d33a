"""shared generators and oracles for run-time contracts (exact integer arithmetic)"""
from fractions import Fraction
import numpy as np

PS = {'h': 3600 * 10 ** 12, 'm': 60 * 10 ** 12, 's': 10 ** 12, 'ms': 10 ** 9, 'us': 10 ** 6, 'ns': 10 ** 3, 'ps': 1}


def ps(td):
    """exact integer picoseconds of a timedelta64"""
    unit, k = np.datetime_data(td.dtype)
    return int(td.astype(np.int64)) * PS[unit] * k


def td(v, unit):
    return np.timedelta64(int(v), unit)


def rand_td(rng, lo=1, hi=2000, units=('ps', 'ns', 'us', 'ms', 's')):
    return td(rng.randint(lo, hi), rng.choice(units))


def close_units(rng):
    return rng.choice([('ps', 'ps'), ('ms', 'ms'), ('s', 's'), ('ms', 's'), ('s', 'ms'), ('us', 'ms'), ('ns', 'ps'), ('ps', 'ns'), ('us', 'ps')])


def show(td_):
    return None if td_ is None else str(td_)


def stream(make_node, chunks_by_source, order=None):
    """drives a node through the real featureflow graph: one source node per entry of chunks_by_source, chunks
    delivered in the given order (list of source indices); returns everything the node emitted"""
    from featureflow import Node
    from featureflow.extractor import Graph

    feed = [list(c) for c in chunks_by_source]
    if order is None:
        order = [i for i, c in enumerate(feed) for _ in c]
    steps = []
    pos = [0] * len(feed)
    for s in order:
        steps.append((s, feed[s][pos[s]]))
        pos[s] += 1

    class Root(Node):
        def _process(self, data):
            for st in steps:
                yield st

    class Source(Node):
        def __init__(self, index, needs=None):
            super(Source, self).__init__(needs=needs)
            self.index = index

        def _dequeue(self):
            from featureflow import NotEnoughData
            if self._cache is None or self._cache[0] != self.index:
                self._cache = None
                raise NotEnoughData()
            v, self._cache = self._cache, None
            return v

        def _process(self, data):
            yield data[1]

    out = []

    class Sink(Node):
        def _process(self, data):
            out.append(data)
            yield data

    root = Root()
    sources = [Source(i, needs=root) for i in range(len(feed))]
    node = make_node(sources if len(sources) > 1 else sources[0])
    sink = Sink(needs=node)
    g = Graph(root=root, node=node, sink=sink, **dict(('s%d' % i, s) for i, s in enumerate(sources)))
    g.process(root=object())
    return out


def partitions(rng, n, k=None):
    """a random composition of n into positive parts"""
    parts = []
    while n > 0:
        c = rng.randint(1, n) if rng.random() < .5 else min(n, rng.randint(1, 4))
        parts.append(c)
        n -= c
    return parts


def cut(seq, parts):
    i, out = 0, []
    for p in parts:
        out.append(seq[i:i + p])
        i += p
    return out


def special(rng, x):
    """x as it is, or with rows of zeros, all zeros, all alike, or alike in pairs (a copy)"""
    r = rng.random()
    if r < .7 or not len(x):
        return x
    x = np.array(x)
    k = rng.randint(0, len(x))
    if r < .77:
        x[k:] = 0
    elif r < .82:
        x[:k] = 0
    elif r < .87:
        x[:] = 0
    elif r < .93:
        x[:] = x[0]
    else:
        x[1:k] = x[0:k - 1] if k > 1 else x[1:k]
    return x
