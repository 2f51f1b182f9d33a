"""C04: sample-rate arithmetic."""
from engine.spec import *

sr_ = load('zounds.timeseries.samplerate')
ts_ = load('zounds.timeseries.timeseries')
AWU = load('zounds.core.axis').ArrayWithUnits
SampleRate, AudioSampleRate, TimeDimension = sr_.SampleRate, sr_.AudioSampleRate, ts_.TimeDimension
td = np.timedelta64
RATES = [96000, 48000, 44100, 22050, 16000, 11025]
assumption('durations are below 2^53 of their common unit, so float64 quotients of durations have the floor and rounding of the exact '
           'rational quotient')


def rate(u='ps'):
    f, d = td(Int('f', 1), u), td(Int('d', 1), u)
    return f, d, SampleRate(f, d)


@spec('every rate reports exactly its samples per second')
def exact():
    n = Int('n', 1, 10 ** 6)
    assume(n <= 999999)
    sr = ok(AudioSampleRate, n, 4096, 2048)
    prove(Eq(sr.samples_per_second, n), 'samples per second')
    prove(Eq(int_of(sr), n), 'int()')
    prove(Eq(sr.nyquist, n // 2), 'nyquist')
    prove(Eq(sr.frequency.ps, sr.duration.ps), 'consecutive samples do not overlap')
    prove(sr.frequency.ps > 0, 'positive')


def int_of(sr):
    return sr.__int__()


@spec('the predefined rates', each=RATES)
def predefined(n):
    sr = getattr(sr_, 'SR%d' % n)()
    prove(sr.samples_per_second == n and sr.nyquist == n // 2, 'samples per second and nyquist')
    prove(ok(sr_.audio_sample_rate, n).samples_per_second == n, 'looked up by number')


@spec('looking up a rate')
def lookup():
    n = Int('n')
    supported = Or(*[Eq(n, r) for r in RATES])
    r = run(sr_.audio_sample_rate, n)
    if isinstance(r, Raised):
        prove(r.is_(ValueError), 'rejection is a ValueError')
        prove(Not(supported), 'only unsupported numbers are rejected')
        cover('rejected')
    else:
        prove(Eq(r.samples_per_second, n), 'the rate found has that many samples per second')
        prove(supported, 'unsupported numbers are rejected')
        cover('found')


@spec('the nearest rate')
def nearest():
    n = Int('n')
    r = ok(sr_.nearest_audio_sample_rate, n)
    got = r.samples_per_second
    prove(Or(*[Eq(got, x) for x in RATES]), 'is a supported rate')
    dist = lambda a: ite(a >= n, a - n, n - a)
    for x in RATES:
        prove(dist(got) <= dist(x), 'no supported rate is nearer')


@spec('windowing schemes resolve back to whole samples')
def windowing():
    n, w, h, size = Int('n', 1, 10 ** 6), Int('w', 1), Int('h', 1), Int('size', 0)
    sr = AudioSampleRate(n, 4096, 2048)
    audio = AWU(np.symarray('x', (size,)), [TimeDimension(sr.frequency, sr.duration)])
    ws = ok(sr.windowing_scheme, w, h)
    f = sr.frequency.ps
    prove(And(Eq(ws.frequency.ps, h * f), Eq(ws.duration.ps, w * f)), 'hop and window last as long as their samples')
    step, window = ok(ws.discrete_samples, audio)
    prove(And(Eq(step, h), Eq(window, w)), 'h and w samples')
    one = ok(sr.windowing_scheme, w)
    prove(And(Eq(one.frequency.ps, w * f), Eq(one.duration.ps, w * f)), 'the hop defaults to the window')
    half = ok(sr.half_lapped)
    prove(And(Eq(half.frequency.ps, sr.suggested_hop * f), Eq(half.duration.ps, sr.suggested_window * f)), 'half lapped uses the suggested sizes')


@spec('discrete samples relative to a lapped series', each=['ps', 'ms'])
def discrete(u):
    f, w, h, size = Int('f', 1), Int('w', 1), Int('h', 1), Int('size', 0)
    o = Int('overlap', 0)
    inner = TimeDimension(td(f, u), td(f + o, u))
    series = AWU(np.symarray('x', (size,)), [inner])
    sr = SampleRate(td(f * h, u), td(f * w + o, u))
    step, window = ok(sr.discrete_samples, series)
    prove(And(Eq(step, h), Eq(window, w)), 'the overlap of the samples themselves is not counted')


@spec('scaling a rate', each=['ps', 's'])
def scaling(u):
    f, d, sr = rate(u)
    a, b = Int('a', 1), Int('b', 1)
    over = d.ps - f.ps
    assume(And(a * f.ps + over > 0, b * f.ps + over > 0))    # where a gap is longer than the scaled window there is no rate
    x = ok(lambda: sr * (a, b))
    prove(And(Eq(x.frequency.ps, a * f.ps), Eq(x.duration.ps, b * f.ps + over)), 'multiplies the hop, extends the window by the overlap')
    y = ok(lambda: sr * a)
    prove(And(Eq(y.frequency.ps, a * f.ps), Eq(y.duration.ps, a * f.ps + over)), 'one factor scales both')
    z = ok(lambda: sr * (a,))
    prove(And(Eq(z.frequency.ps, y.frequency.ps), Eq(z.duration.ps, y.duration.ps)), 'a single-element tuple is one factor')


@spec('overlap', each=['ps', 'ms', 's'])
def overlap(u):
    f, d, sr = rate(u)
    prove(Eq(sr.overlap.ps, d.ps - f.ps), 'duration minus frequency')
    prove(Eq(sr.overlap_ratio * d.ps, d.ps - f.ps), 'its ratio is relative to duration')
    it = ok(lambda: tuple(sr))
    prove(len(it) == 2 and it[0] == f and it[1] == d, 'unpacks to frequency and duration')
    f2, d2 = td(Int('f2', 1), 'ps'), td(Int('d2', 1), 'ps')
    prove(Iff(ok(lambda: sr == SampleRate(f2, d2)), And(Eq(f.ps, f2.ps), Eq(d.ps, d2.ps))), 'rates are equal iff frequency and duration are')


@spec('resampling by a ratio', each=['ps', 'ms'])
def resample(u):
    f, d, sr = rate(u)
    k = Int('k', 1)
    r = ok(sr.resample, k)
    prove(And(Eq(r.frequency.ps, k * f.ps), Eq(r.duration.ps, k * d.ps)), 'a whole ratio scales exactly')
    q = Real('q')
    assume(And(q > 0, q * f.ps >= 1, q * d.ps >= 1))
    s = ok(sr.resample, q)
    for got, was in ((s.frequency.ps, f.ps), (s.duration.ps, d.ps)):
        prove(And(got <= q * was, got > q * was - 1), 'any ratio scales to within a picosecond')
    dim = TimeDimension(f, d)
    x = ok(dim.resample, k)
    prove(And(Eq(x.frequency.ps, k * f.ps), Eq(x.duration.ps, k * d.ps)), 'a time axis resamples as its rate')


@spec('non-positive frequencies and durations are rejected', each=['ps', 's'])
def positive(u):
    f, d = Int('f'), Int('d')
    r = run(SampleRate, td(f, u), td(d, u))
    if isinstance(r, Raised):
        prove(r.is_(ValueError) and Or(f <= 0, d <= 0), 'rejected only when not positive')
        cover('rejected')
    else:
        prove(And(f > 0, d > 0), 'accepted only when positive')


@spec('a time axis describes its own rate', each=['ps', 's'])
def axis(u):
    f, d, sr = rate(u)
    dim = TimeDimension(f, d)
    s = dim.samplerate
    prove(And(Eq(s.frequency.ps, f.ps), Eq(s.duration.ps, d.ps)), 'frequency and duration')
    prove(Eq(dim.overlap.ps, d.ps - f.ps), 'overlap')
    prove(Eq(dim.overlap_ratio * d.ps, d.ps - f.ps), 'overlap ratio')
    prove(Eq(dim.duration_in_seconds * 10 ** 12, d.ps), 'duration in seconds')
    prove(Eq(dim.samples_per_second, (10 ** 12) // f.ps), 'samples per second')
