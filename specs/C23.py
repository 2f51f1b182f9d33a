"""C23: audio sample containers keep rate, length and channels right."""
from engine.spec import *

as_ = load('zounds.timeseries.audiosamples')
core_ = load('zounds.core.axis')
ts_ = load('zounds.timeseries.timeseries')
sr_ = load('zounds.timeseries.samplerate')
du_ = load('zounds.timeseries.duration')
Identity = load('zounds.core.dimensions').IdentityDimension
AudioSamples, TimeSlice, TimeDimension = as_.AudioSamples, ts_.TimeSlice, ts_.TimeDimension
td = np.timedelta64
RATES = ['SR96000', 'SR48000', 'SR44100', 'SR22050', 'SR11025']
CASES = [(r, c) for r in RATES for c in (1, 2, 'c')]


def audio(rate, ch, name='x', n=None):
    sr = getattr(sr_, rate)()
    n = Int('n_' + name, 0) if n is None else n
    c = Int('channels_' + name, 2) if ch == 'c' else ch
    a = np.symarray(name, (n,) if ch == 1 else (n, c), 'float32')
    return sr, n, c, a, ok(AudioSamples, a, sr)


def is_audio(r, sr, n, c=None):
    """audio at rate sr of n samples with c channels (None: one-dimensional)"""
    prove(type(r) is AudioSamples, 'audio samples')
    if type(r) is not AudioSamples:
        return False
    prove(len(r.shape) == (1 if c is None else 2), 'rank')
    if len(r.shape) != (1 if c is None else 2):
        return False
    prove(Eq(r.shape[0], n), 'as many samples as promised')
    if c is not None:
        prove(Eq(r.shape[1], c), 'as many channels as promised')
        prove(isinstance(r.dimensions[1], Identity), 'channels are not a time axis')
    t = r.dimensions[0]
    prove(type(t) is TimeDimension, 'time axis')
    prove(And(Eq(t.frequency.ps, sr.frequency.ps), Eq(t.duration.ps, sr.duration.ps)), 'the sampling rate is kept')
    prove(Eq(t.size, n), 'the time axis records its length')
    return True


def values(r, want, n, c=None):
    i = Int('i', 0)
    assume(i < n)
    if c is None:
        prove(Eq(r._get((i,)), want(i, None)), 'sample values')
    else:
        k = Int('k', 0)
        assume(k < c)
        prove(Eq(r._get((i, k)), want(i, k)), 'sample values')


@spec('construction', each=CASES)
def construct(rate, ch):
    sr, n, c, a, x = audio(rate, ch)
    w = None if ch == 1 else c
    if is_audio(x, sr, n, w):
        values(x, lambda i, k: a._get((i,) if k is None else (i, k)), n, w)
    prove(Eq(x.channels, c), 'channels')
    prove(Eq(x.samples_per_second, sr.samples_per_second), 'samples per second')
    prove(type(x.samplerate) is type(sr), 'the rate is the rate it was made with')
    prove(And(Eq(x.frequency.ps, sr.frequency.ps), Eq(x.duration.ps, sr.duration.ps)), 'frequency and duration')
    prove(Eq(x.overlap.ps, 0), 'audio samples do not overlap')
    prove(Implies(n > 0, Eq(x.end.ps, n * sr.frequency.ps)), 'the end is where the last sample ends')


@spec('invalid ranks and rates are rejected', each=RATES)
def invalid(rate):
    sr = getattr(sr_, rate)()
    n, m, p = Int('n', 0), Int('m', 0), Int('p', 0)
    rejects(AudioSamples, ValueError, np.symarray('x', (n, m, p)), sr, _name='three axes are rejected')
    f, d = Int('frequency', 1), Int('duration', 1)
    for shape in ((n,), (n, m)):
        rejects(AudioSamples, TypeError, np.symarray('x', shape), sr_.SampleRate(td(f, 'ps'), td(d, 'ps')), _name='rates that are not audio rates are rejected')
        rejects(AudioSamples, TypeError, np.symarray('x', shape), sr_.SampleRate(sr.frequency, sr.duration), _name='rates that are not audio rates are rejected')


@spec('a slice keeps the rate', each=[(r, c, k) for r in RATES for c in (1, 2) for k in ('time', 'integers')])
def slices(rate, ch, kind):
    sr, n, c, a, x = audio(rate, ch)
    w = None if ch == 1 else c
    s, m = Int('start', 0), Int('length', 1)
    assume(s + m <= n)
    f = sr.frequency
    r = ok(lambda: x[TimeSlice(start=f * s, duration=f * m)] if kind == 'time' else x[s:s + m])
    if is_audio(r, sr, m, w):
        values(r, lambda i, k: a._get((s + i,) if k is None else (s + i, k)), m, w)


@spec('one sample is a plain value', each=RATES)
def element(rate):
    sr, n, c, a, x = audio(rate, 1)
    i = Int('i', 0)
    assume(i < n)
    prove(Eq(ok(lambda: x[i]), a._get((i,))), 'the sample')


@spec('summing the channels', each=[(r, c) for r in RATES for c in (2, 'c')])
def total(rate, ch):
    sr, n, c, a, x = audio(rate, ch)
    r = ok(x.sum, axis=1)
    if is_audio(r, sr, n):
        i = Int('i', 0)
        assume(i < n)
        prove(Eq(r._get((i,)), np.asarray(a).sum(axis=1)._get((i,))), 'the sum of the channels')
        if ch == 2:
            prove(Eq(r._get((i,)), a._get((i, 0)) + a._get((i, 1))), 'the sum of both channels')


@spec('mono', each=[(r, c) for r in RATES for c in (1, 2)])
def mono(rate, ch):
    sr, n, c, a, x = audio(rate, ch)
    r = ok(lambda: x.mono)
    if not is_audio(r, sr, n):
        return
    if ch == 1:
        prove(r is x or And(*[Eq(r._get((i,)), a._get((i,))) for i in [Int('i', 0)]]), 'mono audio is returned unchanged')
    else:
        values(r, lambda i, k: (a._get((i, 0)) + a._get((i, 1))) / 2, n)


@spec('stereo', each=[(r, c) for r in RATES for c in (1, 2)])
def stereo(rate, ch):
    sr, n, c, a, x = audio(rate, ch)
    r = ok(lambda: x.stereo)
    if is_audio(r, sr, n, 2):
        values(r, lambda i, k: a._get((i,)) if ch == 1 else a._get((i, k)), n, 2)


def whole(sr, d, n):
    assume(And(n * sr.frequency.ps <= d.ps, d.ps < (n + 1) * sr.frequency.ps, d.ps < 2 ** 53))


@spec('silence', each=CASES)
def silence(rate, ch):
    sr = getattr(sr_, rate)()
    d, n = td(Int('duration', 0), 'ps'), Int('samples', 0)
    whole(sr, d, n)
    c = Int('channels', 2) if ch == 'c' else ch
    r = ok(AudioSamples.silence, sr, d, channels=c)
    w = None if ch == 1 else c
    if is_audio(r, sr, n, w):
        values(r, lambda i, k: 0, n, w)


@spec('silence by default is mono', each=RATES)
def silence_default(rate):
    sr = getattr(sr_, rate)()
    n = Int('samples', 0)
    r = ok(AudioSamples.silence, sr, sr.frequency * n)
    if is_audio(r, sr, n):
        values(r, lambda i, k: 0, n)


@spec('silence like other audio', each=CASES)
def silence_like(rate, ch):
    sr, m, c, a, x = audio(rate, ch)
    d, n = td(Int('duration', 0), 'ps'), Int('samples', 0)
    whole(sr, d, n)
    r = ok(x.silence_like, d)
    w = None if ch == 1 else c
    if is_audio(r, sr, n, w):
        values(r, lambda i, k: 0, n, w)
        prove(r.dtype == x.dtype, 'of the same type')


@spec('padding with silence', each=CASES)
def pad(rate, ch):
    sr, m, c, a, x = audio(rate, ch)
    d, n = td(Int('duration', 0), 'ps'), Int('samples', 0)
    whole(sr, d, n)
    r = ok(x.pad_with_silence, d)
    w = None if ch == 1 else c
    if is_audio(r, sr, m + n, w):
        values(r, lambda i, k: ite(i < m, a._get((i,) if k is None else (i, k)), 0), m + n, w)


@spec('padding by default is one second', each=RATES)
def pad_default(rate):
    sr, m, c, a, x = audio(rate, 1)
    r = ok(x.pad_with_silence)
    n = 10 ** 12 // sr.frequency.ps
    if is_audio(r, sr, m + n):
        values(r, lambda i, k: ite(i < m, a._get((i,)), 0), m + n)


@spec('mixing', each=[(a, b) for a in RATES for b in RATES])
def mixing(one, two):
    n = Int('n', 1)
    sr, _, _, a, x = audio(one, 1, 'x', n)
    _, _, _, b, y = audio(two, 1, 'y', n)
    if one != two:
        rejects(lambda: x + y, ValueError, _name='audio of different rates is not added')
    else:
        r = ok(lambda: x + y)
        if is_audio(r, sr, n):
            values(r, lambda i, k: a._get((i,)) + b._get((i,)), n)
        r = ok(lambda: x + b)
        if is_audio(r, sr, n):
            values(r, lambda i, k: a._get((i,)) + b._get((i,)), n)


@spec('from an example', each=RATES)
def example(rate):
    sr, n, c, a, x = audio(rate, 1)
    m = Int('m', 0)
    b = np.symarray('b', (m,))
    if is_audio(ok(AudioSamples.from_example, b, x), sr, m):
        pass
