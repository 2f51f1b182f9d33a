from util import *
import numpy as np
import zounds
from zounds import ArrayWithUnits, TimeDimension, IdentityDimension, AudioSamples
from zounds.synthesize import WindowedAudioSynthesizer, DCTSynthesizer, FFTSynthesizer
from zounds.timeseries import SR96000, SR48000, SR44100, SR22050, SR11025

def silenced(t, x):
    """some of the frames silent: the first, the last, all of them, or a few samples"""
    r, x = t.rng.random(), x.copy()
    if r < .15:
        x[-t.rng.randint(1, len(x)):] = 0
    elif r < .3:
        x[:t.rng.randint(1, len(x))] = 0
    elif r < .4:
        x[t.rng.randrange(len(x))] = 0
    elif r < .5:
        x[t.np_rng.uniform(0, 1, x.shape) < .5] = 0
    elif r < .6:
        x[:] = x[t.rng.randrange(len(x))]
    return x


RATES = [SR96000(), SR48000(), SR44100(), SR22050(), SR11025()]


def overlap_add(frames, hop):
    n, w = frames.shape
    out = np.zeros((n - 1) * hop + w)
    for k in range(n):
        out[k * hop:k * hop + w] += frames[k]
    return out


def units(x, sr, hop):
    w = x.shape[-1]
    return ArrayWithUnits(x, [TimeDimension(sr.frequency * hop, sr.frequency * w), IdentityDimension()])


SYNTH = WindowedAudioSynthesizer()      # used again and again


def judge(t, got, want, sr, name, case):
    t.hold(got, name, case)
    t.expect(isinstance(got, AudioSamples) and got.ndim == 1, name + '-type', case)
    t.equal(len(got), len(want), name + '-length', case)
    t.expect(len(got) == len(want) and np.allclose(np.asarray(got), want, atol=1e-9 if case.get('type') != 'float32' else 1e-3), name, case)
    t.expect(got.samplerate == sr, name + '-rate', case, str(got.samplerate))


def check_overlap_add(t):
    for _ in t.times(300, 3000):
        sr = t.rng.choice(RATES)
        w, n = t.rng.choice([(t.rng.randint(1, 40), t.rng.randint(1, 12))] * 8 + [(t.rng.randint(500, 3000), 3), (8, 200)])
        hop = t.rng.choice([1, w, max(1, w // 2), max(1, w // 4), t.rng.randint(1, 2 * w)])
        x = t.np_rng.uniform(-1, 1, (n, w)) * t.rng.choice([1, 1, 1e-6, 1000])
        x = silenced(t, x)
        case = t.current = dict(rate=sr.samples_per_second, window=w, hop=hop, frames=n, silent=[i for i in range(n) if not x[i].any()])
        if t.rng.random() < .3:
            # frames of whole numbers, or of single precision: sums do not wrap around or lose samples
            dt = t.rng.choice([np.int8, np.int16, np.uint8, np.float32, np.int32])
            x = (t.np_rng.randint(0 if dt is np.uint8 else -127, 128, x.shape).astype(dt) if dt is not np.float32 else x.astype(dt))
            if t.rng.random() < .5 and dt is not np.float32:
                x[:] = np.iinfo(dt).max
            case['type'] = x.dtype.name
        before = x.copy()
        judge(t, (SYNTH if t.rng.random() < .7 else WindowedAudioSynthesizer()).synthesize(units(x, sr, hop)), overlap_add(x, hop), sr, 'overlap-add', case)
        t.expect(np.array_equal(x, before), 'frames-unchanged', case)
        if t.rng.random() < .3:
            from scipy.fftpack import idct
            judge(t, DCTSynthesizer().synthesize(units(x, sr, hop)), overlap_add(idct(x.astype(np.float64), norm='ortho'), hop), sr, 'dct', case)


def check_real_schemes(t):
    from zounds.timeseries import HalfLapped
    from zounds.spectral import OggVorbisWindowingFunc
    for _ in t.times(6, 40):
        sr = t.rng.choice(RATES)
        ws = sr.half_lapped()
        w, h = int(ws.duration / sr.frequency), int(ws.frequency / sr.frequency)
        x = t.np_rng.uniform(-1, 1, (t.rng.randint(1, 6), w))
        case = t.current = dict(rate=sr.samples_per_second, window=w, hop=h, frames=len(x))
        f = ArrayWithUnits(x, [TimeDimension(*ws), IdentityDimension()])
        judge(t, (SYNTH if t.rng.random() < .7 else WindowedAudioSynthesizer()).synthesize(f), overlap_add(x, h), sr, 'half-lapped', case)


def check_reproduce(t):
    for _ in t.times(60, 600):
        sr = t.rng.choice(RATES)
        w, n = t.rng.choice([(t.rng.randint(2, 50), t.rng.randint(2, 9))] * 5 + [(1000, 5), (3, 300)])
        x = silenced(t, t.np_rng.uniform(-1, 1, w * n))
        case = t.current = dict(rate=sr.samples_per_second, window=w, frames=n)
        _, f = AudioSamples(x, sr).sliding_window_with_leftovers(zounds.TimeSlice(sr.frequency * w), zounds.TimeSlice(sr.frequency * w))
        judge(t, (SYNTH if t.rng.random() < .7 else WindowedAudioSynthesizer()).synthesize(f), x, sr, 'reproduce', case)
