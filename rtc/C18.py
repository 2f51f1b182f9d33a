import numpy as np
from util import *
from zounds import TimeDimension, TimeSlice, ArrayWithUnits, IdentityDimension, Picoseconds
from zounds.segment.onset import BasePeakPicker, MovingAveragePeakPicker


class Marked(BasePeakPicker):
    """detects the frames whose first column is positive"""

    def _onset_indices(self, data):
        return np.where(np.asarray(data)[:, 0] > 0)[0]


def chunks(x, f, parts):
    return [ArrayWithUnits(c, [TimeDimension(f, f * 2), IdentityDimension()]) for c in cut(x, parts)]


def emitted(make, x, f, parts):
    out = stream(lambda src: make(needs=src), [chunks(x, f, parts)])
    return [(ps(s.start), ps(s.duration)) for o in out for s in o.slices]


def judge(t, got, bounds, case):
    starts = [0] + bounds[:-1]
    t.equal(got, [(a, b - a) for a, b in zip(starts, bounds)], 'slices', case)


def check_tiling(t):
    for _ in t.times(250, 3000):
        n = t.rng.choice([1, 2, 3, 8, t.rng.randint(1, 40), t.rng.randint(1, 40), t.rng.randint(100, 400)])
        f = t.rng.choice([td(1, 'ps'), td(3, 's'), td(11609977, 'us'), td(250, 'ms'), td(1, 's')])
        p = t.rng.choice([0, .2, .5, 1])
        hits = sorted(i for i in range(n) if t.rng.random() < p)
        x = np.zeros((n, 3)) - 1
        x[hits, 0] = 1
        parts = partitions(t.rng, n)
        while t.rng.random() < .3:
            parts.insert(t.rng.randint(0, len(parts)), 0)      # a chunk of no frames
        case = t.current = dict(n=n, f=show(f), onsets=hits, chunks=parts)
        got = emitted(Marked, x, f, parts)
        judge(t, got, [h * ps(f) for h in hits] + [n * ps(f)], case)


def check_moving_average(t):
    for _ in t.times(120, 1500):
        n = t.rng.randint(1, 30)
        f = td(t.rng.choice([7, 250]), 'ms')
        x = special(t.rng, t.np_rng.normal(0, 1, (n, 11)) ** 2)
        parts = partitions(t.rng, n)
        while t.rng.random() < .3:
            parts.insert(t.rng.randint(0, len(parts)), 0)      # a chunk of no frames
        case = t.current = dict(n=n, f=show(f), chunks=parts)
        hits = []
        for i in range(n):
            r = x[i]
            c = 5
            if r[c - 1] > r[c - 2] and r[c] < r[c - 1] and r[c] > r.mean() * 1.25:
                hits.append(i)
        got = emitted(MovingAveragePeakPicker, x, f, parts)
        judge(t, got, [h * ps(f) for h in hits] + [n * ps(f)], case)
