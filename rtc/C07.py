from util import *
import numpy as np
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.spectral import (FrequencyBand, FrequencyScale, LinearScale, GeometricScale, ExplicitScale, BarkScale, MelScale,
                             Hertz, FrequencyDimension)


class AnyScale(FrequencyScale):
    def __init__(self, bands, always_even=False):
        self.given = bands
        super(AnyScale, self).__init__(FrequencyBand(bands[0].start_hz, bands[-1].stop_hz), len(bands), always_even)

    def _compute_bands(self):
        return self.given


def rand_bands(t):
    n = t.rng.choice([1, 1, 2, 3, 4, 5, 8]) if t.rng.random() < .95 else t.rng.randint(9, 100)
    lo = sorted(t.rng.sample(range(0, max(40, 3 * n)), n))
    hi = []
    for i, a in enumerate(lo):
        hi.append(max(a + t.rng.randint(1, 12), hi[-1] + 1 if hi else 1))
    for i in range(1, n):
        # bands that start where the one before starts, or end where it ends
        if t.rng.random() < .1:
            lo[i] = lo[i - 1]
        elif t.rng.random() < .1 and lo[i] > lo[i - 1] and hi[i - 1] > lo[i]:
            hi[i] = hi[i - 1]
    return [FrequencyBand(a, b) for a, b in zip(lo, hi)]


def problem(t, even=True):
    k = t.rng.choice(['any', 'any', 'even', 'explicit', 'linear', 'geometric', 'bark', 'mel'])
    n = t.rng.choice([1, 2, 3, 4, 7, 8]) if t.rng.random() < .95 else t.rng.randint(9, 200)
    if k in ('any', 'even', 'explicit'):
        b = rand_bands(t)
        s = ExplicitScale(b) if k == 'explicit' else AnyScale(b, k == 'even' and even)
    elif k == 'linear':
        a = t.rng.randint(0, 20)
        s = LinearScale(FrequencyBand(a, a + n * t.rng.randint(1, 8)), n, even and t.rng.random() < .3)
    elif k == 'geometric':
        s = GeometricScale(t.rng.randint(1, 20), t.rng.randint(30, 60), t.rng.choice([.05, .2, .5]), n)
    else:
        s = (BarkScale if k == 'bark' else MelScale)(FrequencyBand(t.rng.randint(1, 100), t.rng.randint(200, 4000)), n)
    return k, s, list(s.bands)


def value(t, bands):
    k = t.rng.choice(['edge', 'edge', 'near', 'any', 'outside'])
    top = bands[-1].stop_hz
    if k == 'outside':
        return top + t.rng.randint(0, 10)
    if k == 'any':
        return t.rng.uniform(0, top)
    b = t.rng.choice(bands)
    v = max(0., float(t.rng.choice([b.start_hz, b.stop_hz])))
    return v if k == 'edge' else max(0., v + t.rng.choice([-.25, .25]))


def query(t, bands):
    while True:
        a, b = value(t, bands), value(t, bands)
        if a < b:
            return a, b


def overlapping(bands, a, b):
    return [i for i, x in enumerate(bands) if x.stop_hz >= a and x.start_hz < b]


def show_bands(bands):
    return [(float(b.start_hz), float(b.stop_hz)) for b in bands]


def increasing(bands):
    return all(x.start_hz <= y.start_hz and x.stop_hz <= y.stop_hz and (x.start_hz, x.stop_hz) != (y.start_hz, y.stop_hz)
               for x, y in zip(bands, bands[1:]))


def check_get_slice(t):
    for _ in t.times(1500, 15000):
        k, s, bands = problem(t)
        if not increasing(bands):
            continue
        a, b = query(t, bands)
        case = t.current = dict(scale=k, even=s.always_even, bands=show_bands(bands), band=(a, b))
        want = overlapping(bands, a, b)
        sl = s.get_slice(FrequencyBand(a, b))
        got = list(range(sl.start, sl.stop))
        if not s.always_even or len(want) % 2 == 0:
            t.expect(got == want, 'exactly the overlapping bands', dict(case, got=got, want=want))
        else:
            t.expect([g for g in got if g < len(bands)] == [w for w in want + [want[-1] + 1] if w < len(bands)], 'one further band so that the count is even', dict(case, got=got, want=want))


def check_hertz(t):
    for _ in t.times(1000, 10000):
        k, s, bands = problem(t, even=False)
        if not increasing(bands):
            continue
        a, b = query(t, bands)
        top = s.stop_hz
        form = lambda v: t.rng.choice([v, v, v - top]) if 0 < v < top else v
        fa, fb = form(a), form(b)
        if fa < 0:
            a = top + fa
        if fb < 0:
            b = top + fb
        x, y = Hertz(fa), Hertz(fb)
        if t.rng.random() < .25:
            x, a = None, 0
        elif t.rng.random() < .3:
            y, b = None, top
        if b <= a:
            continue
        case = t.current = dict(scale=k, bands=show_bands(bands), start=x and x.hz, stop=y and y.hz)
        sl = s.get_slice(slice(x, y))
        want = overlapping(bands, a, b)
        t.expect(list(range(sl.start, sl.stop)) == want, 'hertz bounds select the overlapping bands', dict(case, got=str(sl), want=want))


def check_subscale(t):
    for _ in t.times(800, 8000):
        k, s, bands = problem(t, even=False)
        n = len(bands)
        case = t.current = dict(scale=k, bands=show_bands(bands))
        i = t.rng.randrange(n)
        x = s[i]
        t.expect((x.start_hz, x.stop_hz) == (bands[i].start_hz, bands[i].stop_hz), 'the band at a position', dict(case, i=i))
        if t.rng.random() < .5 and increasing(bands):
            a, b = query(t, bands)
            want, ix = overlapping(bands, a, b), FrequencyBand(a, b)
        else:
            j = t.rng.randint(i + 1, n)
            step = t.rng.choice([None, 1, 2, 3])
            want, ix = list(range(i, j, step or 1)), slice(i, j, step)
        if not want:
            continue
        case = t.current = dict(case, index=str(ix))
        r = s[ix]
        t.expect(isinstance(r, FrequencyScale), 'a scale', case)
        got = list(r)
        t.expect(len(got) == len(r) == len(want), 'one band per selected band', dict(case, got=len(got), want=len(want)))
        t.expect(np.allclose(show_bands(got), show_bands([bands[w] for w in want])), 'the selected bands', dict(case, got=show_bands(got)))


def check_linear(t):
    for _ in t.times(500, 5000):
        n = t.rng.choice([1, 2, 3, 5, 16, 100])
        a = t.rng.uniform(0, 100)
        b = a + t.rng.uniform(.1, 10000)
        case = t.current = dict(start=a, stop=b, n=n)
        bands = list(LinearScale(FrequencyBand(a, b), n))
        t.expect(len(bands) == n, 'n bands', case)
        w = (b - a) / n
        want = [(a + i * w, a + (i + 1) * w) for i in range(n)]
        t.expect(np.allclose(show_bands(bands), want, rtol=1e-9), 'equal, adjacent bands over the range', dict(case, got=show_bands(bands)[:4]))


def check_arithmetic(t):
    for _ in t.times(500, 5000):
        a, c = t.rng.randint(-20, 20), t.rng.randint(-20, 20)
        b, d = a + t.rng.randint(1, 20), c + t.rng.randint(1, 20)
        case = t.current = dict(x=(a, b), y=(c, d))
        x, y = FrequencyBand(a, b), FrequencyBand(c, d)
        t.expect(x.bandwidth == b - a and x.center_frequency == (a + b) / 2, 'width and centre', case)
        lo, hi = max(a, c), min(b, d)
        if lo < hi:
            r = x.intersect(y)
            t.expect((r.start_hz, r.stop_hz) == (lo, hi), 'intersection', case)
            t.expect(abs(x.intersection_ratio(y) - (hi - lo) / (b - a)) < 1e-12, 'the part covered', case)
        else:
            t.raises(ValueError, lambda: x.intersect(y), 'an empty intersection is rejected', case)
        t.expect((x == y) == ((a, b) == (c, d)), 'equality', case)
        s = FrequencyBand.from_start(a, b - a)
        m = FrequencyBand.from_center((a + b) / 2, b - a)
        t.expect((s.start_hz, s.stop_hz) == (m.start_hz, m.stop_hz) == (a, b), 'from a start or a centre', case)
        t.raises(ValueError, lambda: FrequencyBand(b, a), 'an empty band is rejected', case)
        t.raises(ValueError, lambda: FrequencyBand(a, a), 'an empty band is rejected', case)


def check_axis(t):
    for _ in t.times(600, 6000):
        k, s, bands = problem(t, even=False)
        n, m = len(bands), t.rng.randint(1, 4)
        pos = t.rng.choice([0, 1])
        x = np.arange(n * m).reshape((n, m) if pos == 0 else (m, n))
        dims = [FrequencyDimension(s), IdentityDimension()]
        case = t.current = dict(scale=k, bands=show_bands(bands), axis=pos, shape=x.shape)
        arr = ArrayWithUnits(x, dims if pos == 0 else dims[::-1])
        wrong = np.zeros((n + t.rng.choice([-1, 1, 2]), 2)) if n > 1 else np.zeros((2, 2))
        t.raises(ValueError, lambda: ArrayWithUnits(wrong, dims), 'another number of entries is rejected', dict(case, wrong=wrong.shape))
        kind = t.rng.choice(['band', 'hertz', 'int'])
        if kind == 'int':
            i = t.rng.randrange(n)
            j = t.rng.randint(i + 1, n)
            step = t.rng.choice([None, 1, 2, 3])
            want, ix = list(range(i, j, step or 1)), slice(i, j, step)
        else:
            if not increasing(bands):
                continue
            a, b = query(t, bands)
            want = overlapping(bands, a, b)
            ix = FrequencyBand(a, b) if kind == 'band' else slice(Hertz(a), Hertz(b))
        if not want:
            continue
        case = t.current = dict(case, index=str(ix))
        r = arr[ix] if pos == 0 else arr[:, ix]
        y = x[want] if pos == 0 else x[:, want]
        t.expect(r.shape == y.shape and bool((np.asarray(r) == y).all()), 'the entries of the selected bands', case)
        d = r.dimensions[pos]
        t.expect(isinstance(d, FrequencyDimension) and np.allclose(show_bands(d.scale), show_bands([bands[w] for w in want])),
                'the axis keeps the scale of the selected bands', case)




def check_history(t):
    """one scale asked many times"""
    for _ in t.times(300, 3000):
        k, s, bands = problem(t)
        if not increasing(bands):
            continue
        n, top = len(bands), s.stop_hz
        even, log, near = s.always_even, [], None
        for _k in range(t.rng.randint(3, 10)):
            what = t.rng.choice(['band', 'band', 'near', 'near', 'near', 'hertz', 'all', 'position', 'sub', 'contains'])
            case = t.current = dict(scale=k, even=even, bands=show_bands(bands), log=list(log))
            if what in ('band', 'near'):
                a, b = near if what == 'near' and near else query(t, bands)
                if what == 'near':
                    e = t.rng.choice(bands)
                    c, g = t.rng.choice([0, 0, -.3, .3, -.6, .6, e.start_hz - a, e.stop_hz - a]), t.rng.choice([0, 0, -.3, .3, -.6, .6, e.start_hz - b, e.stop_hz - b])
                    if a + c >= 0 and a + c < b + g:
                        a, b = a + c, b + g
                near = a, b
                sl = s.get_slice(FrequencyBand(a, b))
                want, got = overlapping(bands, a, b), list(range(sl.start, sl.stop))
                if even and len(want) % 2:
                    got, want = got[:n - sl.start], (want + [want[-1] + 1])[:n - want[0]]
                t.expect(got == want, 'exactly the overlapping bands, asked again', dict(case, band=(a, b), got=got, want=want))
            elif what == 'hertz':
                a, b = near or query(t, bands)
                if b <= top and not even:
                    sl = s.get_slice(slice(Hertz(a), Hertz(b)))
                    t.expect(list(range(sl.start, sl.stop)) == overlapping(bands, a, b), 'hertz bounds, asked again', dict(case, band=(a, b)))
            elif what == 'all':
                t.expect(show_bands(s) == show_bands(bands) and len(s) == n, 'the bands stay', case)
            elif what == 'position':
                i = t.rng.randrange(n)
                t.expect(show_bands([s[i]]) == show_bands([bands[i]]), 'the band at a position, asked again', dict(case, i=i))
            elif what == 'sub' and not even:
                i = t.rng.randrange(n)
                j = t.rng.randint(i + 1, n)
                r = s[i:j]
                t.expect(len(r) == j - i and np.allclose(show_bands(r), show_bands(bands[i:j])), 'a part of the scale, asked again', dict(case, part=(i, j)))
                if t.rng.random() < .4:
                    s, bands, n = r, list(r), j - i
                    if not increasing(bands):
                        break
                    top, near = s.stop_hz, None
                    what = 'take', i, j
            log.append((what, near))
