from util import *
import numpy as np
import zounds
from zounds.timeseries import VariableRateTimeSeries, TimeSlice, Picoseconds
from zounds.timeseries.variablerate import VariableRateTimeSeriesEncoder, VariableRateTimeSeriesDecoder, VariableRateTimeSeriesFeature

PS = np.timedelta64(1, 'ps')
UNITS = {'ps': 1, 'ns': 10 ** 3, 'us': 10 ** 6, 'ms': 10 ** 9, 's': 10 ** 12}


def ps(x):
    return int(x.astype('m8[ps]').astype(np.int64))


def pairs(t):
    """(start ps, duration ps, data) with ties, nesting and gaps"""
    n = t.rng.choice([0, 1, 2, 3, 5, 9]) if t.rng.random() < .95 else t.rng.randint(10, 80)
    far = t.rng.choice([0, 0, 0, 3600, 10 ** 6])
    shape = t.rng.choice([(0,), (1,), (3,), (2, 3), ()])
    dt = t.rng.choice(['float64', 'int16', 'uint8', 'float32'])
    out, made = [], []
    mixed = t.rng.random() < .2         # data of several types: all of their numbers are kept
    for i in range(n):
        u = t.rng.choice(list(UNITS))
        a, d = t.rng.randint(0, 6), t.rng.choice([0, 1, 1, 2, 3, 7])
        if far and u != 's':
            a, d = t.rng.randint(0, far), t.rng.randint(0, far // 10)
        if mixed:
            dt = t.rng.choice(['float64', 'int16', 'uint8', 'float32', 'bool'])
        x = (t.np_rng.uniform(0, 100, shape)).astype(dt) if shape else np.dtype(dt).type(t.rng.randint(0, 100))
        out.append((a * UNITS[u], d * UNITS[u], x))
        made.append((TimeSlice(start=np.timedelta64(a, u), duration=np.timedelta64(d, u)), x))
    return out, made


def content(s):
    return [(ps(x.start), ps(x.duration), np.asarray(d, dtype=float).tolist()) for x, d in zip(s.slices, s.slicedata)]


def key(xs):
    return sorted(xs, key=repr)


def plain(xs):
    return [(a, d, np.asarray(x, dtype=float).tolist()) for a, d, x in xs]


def holds(t, got, want, name, case):
    c = content(got)
    t.equal(key(c), key(plain(want)), name, case)
    t.expect(all(c[i][0] <= c[i + 1][0] for i in range(len(c) - 1)), name + '-ordered', case, c)
    t.expect(len(got) == len(want), name + '-length', case)


def check_series(t):
    for _ in t.times(400, 4000):
        want, made = pairs(t)
        case = t.current = dict(pairs=plain(want))
        s = VariableRateTimeSeries(made if t.rng.random() < .5 else (p for p in made))
        holds(t, s, want, 'build', case)
        c = content(s)
        t.equal(ps(s.end), c[-1][0] + c[-1][1] if c else 0, 'end', case)
        t.equal((ps(s.span.start), ps(s.span.duration)), (c[0][0], c[-1][0] + c[-1][1] - c[0][0]) if c else (0, 0), 'span', case)
        for i in range(len(c)):
            r = s[i]
            t.equal((ps(r.timeslice.start), ps(r.timeslice.duration), np.asarray(r.slicedata, dtype=float).tolist()), c[i], 'item', dict(case, i=i))
        a, b = sorted((t.rng.randint(0, 9), t.rng.randint(0, 9)))
        t.equal(content(s[a:b]), c[a:b], 'positions', dict(case, a=a, b=b))


def check_select(t):
    for _ in t.times(800, 8000):
        want, made = pairs(t)
        u = t.rng.choice(list(UNITS))
        a = t.rng.randint(0, 7)
        d = t.rng.choice([None, 0, 1, 2, 5])
        case = t.current = dict(pairs=plain(want), start=a, duration=d, unit=u)
        q = TimeSlice(start=np.timedelta64(a, u), duration=None if d is None else np.timedelta64(d, u))
        s = VariableRateTimeSeries(made)
        got = s[q]
        lo, hi = a * UNITS[u], None if d is None else (a + d) * UNITS[u]
        holds(t, got, [p for p in want if p[0] + p[1] > lo and (hi is None or p[0] < hi)], 'select', case)
        holds(t, s, want, 'select-leaves', case)


def check_history(t):
    """one series asked many times"""
    for _ in t.times(200, 2000):
        want, made = pairs(t)
        s = VariableRateTimeSeries(made)
        log, c = [], None
        starts = [p[0] for p in want] + [p[0] + p[1] for p in want] + [0, 10 ** 12]
        for _k in range(t.rng.randint(2, 7)):
            case = t.current = dict(pairs=plain(want), log=list(log))
            r = t.rng.random()
            if r < .7:
                a = t.rng.choice(starts)
                d = t.rng.choice([None, 0, 1, 10 ** 12, t.rng.choice(starts)])
                log.append((a, d))
                got = s[TimeSlice(start=np.timedelta64(a, 'ps'), duration=None if d is None else np.timedelta64(d, 'ps'))]
                part = [p for p in want if p[0] + p[1] > a and (d is None or p[0] < a + d)]
                holds(t, got, part, 'select-again', dict(case, start=a, duration=d))
                if t.rng.random() < .15:
                    s, want = got, part
                    log.append('take')
            elif r < .8:
                more, extra = pairs(t)
                if not want or not more or np.shape(more[0][2]) == np.shape(want[0][2]):
                    both = s.concat(VariableRateTimeSeries(extra))
                    log.append('concat %d' % len(more))
                    holds(t, both, want + more, 'concat-again', case)
            else:
                holds(t, s, want, 'unchanged-again', case)
                c = content(s)
                t.equal(ps(s.end), c[-1][0] + c[-1][1] if c else 0, 'end-again', case)


def check_concat(t):
    for _ in t.times(300, 3000):
        want, made = pairs(t)
        k = t.rng.randint(0, len(made))
        case = t.current = dict(pairs=plain(want), k=k)
        a, b = VariableRateTimeSeries(made[:k]), VariableRateTimeSeries(made[k:])
        holds(t, a.concat(b), want, 'concat', case)
        holds(t, a, want[:k], 'concat-leaves', case)


def check_saving(t):
    import featureflow as ff

    @zounds.simple_in_memory_settings
    class Doc(ff.BaseModel):
        raw = VariableRateTimeSeriesFeature(ff.IteratorNode, store=True)

    for _ in t.times(60, 600):
        want, made = pairs(t)
        if made and not np.shape(made[0][1]):
            continue
        case = t.current = dict(pairs=plain(want))
        s = VariableRateTimeSeries(made)
        d = Doc(Doc.process(raw=[s]))
        holds(t, d.raw, want, 'saving', case)
        t.equal(content(d.raw), content(s), 'saving-order', case)
        if made:
            t.equal(d.raw.slicedata.dtype, s.slicedata.dtype, 'saving-type', case)
            t.equal(d.raw.slicedata.shape, s.slicedata.shape, 'saving-shape', case)
