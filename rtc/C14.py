import numpy as np
from util import *
from zounds.nputil import Growable


def check_histories(t):
    for _ in t.times(600, 6000):
        extra = t.rng.choice([(), (), (3,), (2, 2)])
        dt = t.rng.choice([np.float64, np.float32, np.uint8, np.uint64, np.int16, np.int64, np.complex128, bool])
        n = t.rng.choice([0, 1, 2, 5, 10])
        p = t.rng.choice([0, n, t.rng.randint(0, n)])
        rate = t.rng.choice([1, .5, 1e-5, 2, 3.7, .1, 1.0])
        def values(shape):
            raw = t.np_rng.bytes(int(np.prod(shape)) * np.dtype(dt).itemsize)
            if np.dtype(dt).kind in 'iu':
                return np.frombuffer(raw, dtype=dt).reshape(shape).copy()
            if np.dtype(dt).kind == 'b':
                return t.np_rng.randint(0, 2, shape).astype(bool)
            x = special(t.rng, t.np_rng.normal(0, 1000, shape))
            return (x + 1j * x[::-1] if np.dtype(dt).kind == 'c' else x).astype(dt)
        a = values((n,) + extra)
        if t.rng.random() < .3:
            a = np.asfortranarray(a)
        g = Growable(a, p, rate)
        log = [x for x in a[:p].copy()]
        ops = []

        def new(k):
            return values((k,) + extra)
        phys = n
        for _ in range(t.rng.randint(1, 12)):
            case = t.current = dict(n=n, p=p, rate=rate, extra=extra, dtype=np.dtype(dt).name, ops=list(ops))
            if t.rng.random() < .5:
                x = new(1)[0]
                ops.append('append')
                r = g.append(x)
                log.append(x)
            else:
                k = t.rng.choice([0, 1, 2, 5, 30] * 5 + [700])
                x = new(k)
                ops.append('extend %d' % k)
                r = g.extend(x if t.rng.random() < .7 else (list(x) if k and not extra else x))
                log.extend(x)
            if extra and t.rng.random() < .2:
                # items of another shape are refused, and nothing is added
                ops.append('refused')
                bad = np.zeros((extra[0] + 1,) + extra[1:], dtype=dt)
                what = (lambda: g.append(bad)) if t.rng.random() < .5 else (lambda: g.extend(np.stack([bad, bad])))
                t.raises(ValueError, what, 'refused', dict(case, ops=list(ops)))
                phys = min(phys, g.physical_size)
            case['ops'] = list(ops)
            t.expect(r is g, 'self', case)
            t.expect(g.logical_size == len(log), 'logical-size', case, g.logical_size)
            t.expect(g.physical_size >= max(phys, len(log)) and g.physical_size == len(g.data), 'physical-size', case, g.physical_size)
            phys = g.physical_size
            t.equal(g.logical_data, np.array(log, dtype=dt).reshape((len(log),) + extra), 'content', case)
    for r in (0, -1, -.5):
        t.raises(ValueError, lambda: Growable(np.zeros(3), 0, r), 'rate', r)


def check_records(t):
    dt = [('code', np.uint64, 2), ('id', 'S4')]
    for _ in t.times(30):
        g = Growable(np.recarray(t.rng.choice([1, 10]), dtype=dt))
        log = []
        for i in range(t.rng.randint(1, 40)):
            v = ((t.rng.randint(0, 9), i), b'%04d' % i)
            g.append(v)
            log.append(v)
        case = t.current = dict(records=len(log))
        got = [((int(r.code[0]), int(r.code[1])), bytes(r.id)) for r in g.logical_data]
        t.equal(got, log, 'records', case)
