import numpy as np
from util import *
import zounds
from zounds import SampleRate, TimeDimension, ArrayWithUnits
from zounds.timeseries.samplerate import AudioSampleRate, audio_sample_rate, nearest_audio_sample_rate

RATES = [96000, 48000, 44100, 22050, 16000, 11025]


def check_exact(t):
    ns = RATES + [1, 2, 3, 7, 8000, 32000, 88200, 192000, 384000, 999999, 999983, 44101, 12000]
    for i in t.times(3000):
        n = ns[i] if i < len(ns) else t.rng.randint(1, 999999)
        sr = AudioSampleRate(n, 2048, 1024)
        t.expect((sr.samples_per_second, int(sr), sr.nyquist) == (n, n, n // 2), 'samples-per-second', n, (sr.samples_per_second, sr.nyquist))


def check_lookup(t):
    for n in RATES + [0, -5, 1, 8000, 44099, 44101, 10 ** 7] + [t.rng.randint(0, 120000) for _ in range(300)]:
        if n in RATES:
            t.expect(audio_sample_rate(n).samples_per_second == n, 'lookup', n)
        else:
            t.raises(ValueError, lambda: audio_sample_rate(n), 'lookup-rejects', n)
        got = nearest_audio_sample_rate(n).samples_per_second
        t.expect(got in RATES and abs(got - n) == min(abs(r - n) for r in RATES), 'nearest', n, got)
    for n in RATES:
        sr = getattr(zounds, 'SR%d' % n)()
        t.expect(int(sr) == n and sr.nyquist == n // 2, 'predefined', n)


def check_alternating(t):
    """a rate, the ones made from it, lookups and axes, in any order: none changes another"""
    for _ in t.times(150):
        pool = []
        for _k in range(t.rng.randint(3, 12)):
            k = t.rng.randrange(5)
            if k == 0 or not pool:
                n = t.rng.choice(RATES)
                got = t.rng.choice([audio_sample_rate, nearest_audio_sample_rate, lambda n: getattr(zounds, 'SR%d' % n)()])(n)
                want = n
                F = ps(got.frequency)
                t.expect(abs(F * n - 10 ** 12) < n and ps(got.duration) == F, 'looked-up', n, repr(got))
                pool.append((got, n, F, F))
            else:
                sr, n, F, G = t.rng.choice(pool)
                a, b = t.rng.randint(1, 30), t.rng.randint(1, 30)
                case = t.current = (n, F, G, k, a, b)
                if k == 1:
                    new, want = sr * (a, b), (a * F, (b - 1) * F + G)
                elif k == 2:
                    new, want = sr.resample(a), (a * F, a * G)
                elif k == 3:
                    new, want = TimeDimension(*sr).samplerate, (F, G)
                elif n:
                    new, want = sr.windowing_scheme(a, b), (b * F, a * F)
                else:
                    new, want = sr * a, (a * F, (a - 1) * F + G)
                t.expect((ps(new.frequency), ps(new.duration)) == want, 'made', case, repr(new))
                pool.append((new, None) + want)
            for sr, n, F, G in pool:
                t.expect((ps(sr.frequency), ps(sr.duration)) == (F, G), 'rate-kept', (n, F, G), repr(sr))
                t.expect(n is None or (sr.samples_per_second, sr.nyquist) == (n, n // 2), 'samples-per-second-kept', (n, F, G))


def check_windowing(t):
    for _ in t.times(1500):
        n = t.rng.choice(RATES + [t.rng.randint(1, 999999)])
        sr = AudioSampleRate(n, 2048, 1024)
        w, h = t.rng.randint(1, 10 ** t.rng.randint(1, 5)), t.rng.randint(1, 10 ** t.rng.randint(1, 5))
        F = ps(sr.frequency)
        if max(w, h) * F > 2 ** 52:
            continue
        ws = sr.windowing_scheme(w, h)
        audio = ArrayWithUnits(np.zeros(3), [TimeDimension(*sr)])
        case = dict(rate=n, w=w, h=h)
        t.equal(tuple(ws.discrete_samples(audio)), (h, w), 'discrete-samples', case)
        t.expect(ps(ws.frequency) == h * F and ps(ws.duration) == w * F, 'scheme', case, repr(ws))
        one = sr.windowing_scheme(w)
        t.expect(ps(one.frequency) == w * F == ps(one.duration), 'default-hop', case)
        hl = sr.half_lapped()
        t.expect(ps(hl.frequency) == 1024 * F and ps(hl.duration) == 2048 * F, 'half-lapped', case)
        x = ArrayWithUnits(np.zeros((3, 2)), [zounds.IdentityDimension(), TimeDimension(*sr)])
        t.equal(tuple(ws.discrete_samples(x)), (h, w), 'discrete-samples-second-axis', case)


def check_discrete_lapped(t):
    for _ in t.times(600):
        f, o = t.rng.randint(1, 10 ** 6), t.rng.randint(0, 10 ** 6)
        w, h = t.rng.randint(1, 2000), t.rng.randint(1, 2000)
        series = ArrayWithUnits(np.zeros(2), [TimeDimension(td(f, 'ns'), td(f + o, 'ns'))])
        sr = SampleRate(td(f * h, 'ns'), td(f * w + o, 'ns'))
        t.equal(tuple(sr.discrete_samples(series)), (h, w), 'lapped', dict(f=f, o=o, w=w, h=h))


def check_arithmetic(t):
    for _ in t.times(1500):
        u = t.rng.choice(['ps', 'us', 'ms'])
        f = t.rng.randint(1, 5000) if t.rng.random() < .8 or u != 'ps' else t.rng.randint(1, 10 ** 8)
        d = f + t.rng.choice([0, f, t.rng.randint(0, 5000)]) if t.rng.random() < .8 else t.rng.randint(1, f)
        sr = SampleRate(td(f, u), td(d, u))
        a, b, k = t.rng.randint(1, 50), t.rng.randint(1, 50), PS[u]
        if min(a, b) * f + d - f <= 0:
            continue
        case = dict(f=f, d=d, u=u, a=a, b=b)
        x, y, z = sr * (a, b), sr * a, sr * (a,)
        t.expect((ps(x.frequency), ps(x.duration)) == (a * f * k, (b * f + d - f) * k), 'scale-pair', case, repr(x))
        t.expect((ps(y.frequency), ps(y.duration)) == (a * f * k, (a * f + d - f) * k) == (ps(z.frequency), ps(z.duration)), 'scale', case, repr(y))
        t.expect(ps(sr.overlap) == (d - f) * k, 'overlap', case)
        t.close(sr.overlap_ratio, (d - f) / d, 'overlap-ratio', case)
        r = sr.resample(a)
        t.expect((ps(r.frequency), ps(r.duration)) == (a * f * k, a * d * k), 'resample-whole', case, repr(r))
        q = t.rng.choice([.5, 2., 44100 / 22050., 22050 / 44100., t.rng.random() * 3 + .01])
        try:
            r = sr.resample(q)
            t.expect(abs(ps(r.frequency) - f * k * q) <= 1 + 1e-6 and abs(ps(r.duration) - d * k * q) <= 1 + 1e-6, 'resample', (case, q), repr(r))
        except ValueError:
            t.expect(f * k * q < 1, 'resample-rejected', (case, q))
        t.expect(tuple(sr) == (td(f, u), td(d, u)) and len(sr) == 2, 'unpack', case)
        t.expect((sr == SampleRate(td(f, u), td(d, u))) and not (sr == SampleRate(td(f + 1, u), td(d, u))) and
                 not (sr == SampleRate(td(f, u), td(d + 1, u))), 'equality', case)
        dim = TimeDimension(td(f, u), td(d, u))
        t.expect(dim.samplerate == sr and ps(dim.overlap) == (d - f) * k, 'axis', case)
        t.expect(dim.samples_per_second == 10 ** 12 // (f * k), 'axis-samples-per-second', case, dim.samples_per_second)
    for f, d in ((0, 1), (1, 0), (-1, 1), (1, -1), (0, 0)):
        for u in ('ps', 's'):
            t.raises(ValueError, lambda: SampleRate(td(f, u), td(d, u)), 'not-positive', (f, d, u))
    SampleRate(td(1, 'ps'), td(1, 'ps'))
