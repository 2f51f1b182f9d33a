from util import *
import numpy as np
import zounds
from zounds import AudioSamples, TimeSlice, SampleRate, TimeDimension, IdentityDimension
from zounds.timeseries import SR96000, SR48000, SR44100, SR22050, SR11025, Seconds, Milliseconds, Picoseconds

RATES = [SR96000(), SR48000(), SR44100(), SR22050(), SR11025()]


def judge(t, r, want, sr, name, case, exact=True):
    t.expect(isinstance(r, AudioSamples), name + '-type', case, str(type(r)))
    t.expect(r.shape == want.shape, name + '-shape', case, (r.shape, want.shape))
    t.expect(r.shape == want.shape and (np.array_equal(np.asarray(r), want) if exact else
                                        np.allclose(np.asarray(r), want, atol=1e-6)), name + '-values', case)
    if not isinstance(r, AudioSamples):
        return
    t.expect(not exact or r.dtype == want.dtype, name + '-element-type', case, str(r.dtype))
    t.expect(r.samplerate == sr and type(r.samplerate) is type(sr) and ps(r.dimensions[0].frequency) == ps(sr.frequency)
             and ps(r.dimensions[0].duration) == ps(sr.duration), name + '-rate', case, str(r.samplerate))
    t.equal(r.dimensions[0].size, len(want), name + '-length', case)


def audio(t, channels=None, n=None):
    sr = t.rng.choice(RATES)
    n = t.rng.randint(0, 60) if n is None else n
    c = t.rng.choice([1, 1, 2, 2, 3, 4]) if channels is None else channels
    a = special(t.rng, t.np_rng.uniform(-1, 1, (n,) if c == 1 else (n, c)))
    kind = t.rng.choice([np.float64, np.float64, np.float32, np.int16, np.int32])
    a = (a * np.iinfo(kind).max).astype(kind) if issubclass(kind, np.integer) else a.astype(kind)
    return sr, n, c, a, AudioSamples(a, sr)


def check_containers(t):
    for _ in t.times(400, 4000):
        sr, n, c, a, x = audio(t)
        case = t.current = dict(rate=sr.samples_per_second, samples=n, channels=c)
        judge(t, x, a, sr, 'construct', case)
        t.equal(x.channels, c, 'channels', case)
        t.equal(x.samples_per_second, sr.samples_per_second, 'samples-per-second', case)
        if n > 1:
            s = t.rng.randint(0, n - 1)
            m = t.rng.randint(1, n - s)
            case = dict(case, start=s, length=m)
            judge(t, x[TimeSlice(start=sr.frequency * s, duration=sr.frequency * m)], a[s:s + m], sr, 'time-slice', case)
            judge(t, x[s:s + m], a[s:s + m], sr, 'slice', case)
        if c > 1:
            judge(t, x.sum(axis=1), a.sum(axis=1), sr, 'sum', case, exact=False)
        if c <= 2:
            t.hold(x.mono, 'mono', case)
            t.hold(x.stereo, 'stereo', case)
            judge(t, x.mono, a if c == 1 else a.mean(axis=1), sr, 'mono', case, exact=False)
            judge(t, x.stereo, a if c == 2 else np.stack([a, a], 1), sr, 'stereo', case)
        t.expect(np.array_equal(np.asarray(x), a), 'unchanged', case)


def check_silence(t):
    for _ in t.times(400, 4000):
        sr, n, c, a, x = audio(t)
        k = t.rng.choice([0, 1, t.rng.randint(0, 100)])
        d = Picoseconds(ps(sr.frequency) * k + t.rng.randint(0, ps(sr.frequency) - 1))
        case = t.current = dict(rate=sr.samples_per_second, samples=n, channels=c, duration=str(d))
        zero = np.zeros((k,) if c == 1 else (k, c), dtype=a.dtype)
        quiet = AudioSamples.silence(sr, d, channels=c)
        judge(t, quiet, zero, sr, 'silence', case, exact=False)
        quiet += 1
        quiet = x.silence_like(d)
        judge(t, quiet, zero, sr, 'silence-like', case)
        quiet[...] = 1
        judge(t, x.pad_with_silence(d), np.concatenate([a, zero]), sr, 'pad', case)
        t.expect(np.array_equal(np.asarray(x), a), 'unchanged', case)


def check_rejections(t):
    for _ in t.times(40, 200):
        sr, n, c, a, x = audio(t, 1, 12)
        a = a * .25
        x = AudioSamples(a, sr)
        case = t.current = dict(rate=sr.samples_per_second)
        t.raises(ValueError, lambda: AudioSamples(np.zeros((4, 2, 2)), sr), 'three-axes', case)
        t.raises(TypeError, lambda: AudioSamples(a, SampleRate(Seconds(1), Seconds(1))), 'not-audio', case)
        t.raises(TypeError, lambda: AudioSamples(a, SampleRate(sr.frequency * 512, sr.frequency * 1024)), 'not-audio', case)
        for other in RATES:
            y = AudioSamples(a * 2, other)
            if other.samples_per_second != sr.samples_per_second:
                t.raises(ValueError, lambda: x + y, 'mixed-rates', dict(case, other=other.samples_per_second))
            else:
                judge(t, x + y, a * 3, sr, 'mix', case, exact=False)
        judge(t, x + a, a * 2, sr, 'mix-plain', case)


def check_decoded(t):
    """stereo audio decoded and summed to mono is the average of its channels"""
    import featureflow as ff
    from zounds.soundfile import AudioStream
    for _ in t.times(8, 60):
        sr = t.rng.choice(RATES)
        n = t.rng.randint(1000, 20000)
        a = t.np_rng.uniform(-.9, .9, (n, 2))
        flo = AudioSamples(a, sr).encode()

        class Settings(ff.PersistenceSettings):
            id_provider = ff.UuidProvider()
            key_builder = ff.StringDelimitedKeyBuilder()
            database = ff.InMemoryDatabase(key_builder=key_builder)

        class Doc(ff.BaseModel, Settings):
            raw = ff.ByteStreamFeature(ff.ByteStream, chunksize=t.rng.randint(2000, 50000), store=True)
            pcm = zounds.AudioSamplesFeature(AudioStream, needs=raw, store=True)
        case = t.current = dict(rate=sr.samples_per_second, samples=n)
        doc = Doc(Doc.process(raw=flo))
        pcm = doc.pcm
        t.expect(pcm.shape == (n,), 'decoded-shape', case, pcm.shape)
        t.expect(pcm.shape == (n,) and np.allclose(np.asarray(pcm), a.mean(axis=1), atol=1e-3), 'decoded-average', case)
        t.expect(pcm.samplerate == sr, 'decoded-rate', case)
