"""C20: overlap-add places every frame at its own time.

acc(k, t) is the sum, over the first k frames, of the frame samples that cover output sample t:
acc(0, t) = 0 and acc(k + 1, t) = acc(k, t) + (frame[k, t - k*hop] if k*hop <= t < k*hop + w else 0)."""
import z3
from engine.spec import *
from engine import core, bi

syn = load('zounds.synthesize.synthesize')
core_ = load('zounds.core.axis')
ts_ = load('zounds.timeseries.timeseries')
sr_ = load('zounds.timeseries.samplerate')
as_ = load('zounds.timeseries.audiosamples')
Identity = load('zounds.core.dimensions').IdentityDimension
AWU, TimeDimension = core_.ArrayWithUnits, ts_.TimeDimension
td = np.timedelta64
RATES = ['SR96000', 'SR48000', 'SR44100', 'SR22050', 'SR11025']


class Frames(object):
    def __init__(self, rate, kind='float64'):
        self.sr = getattr(sr_, rate)()
        s = self.s = self.sr.frequency.ps
        self.n, self.w, self.h = Int('frames', 1), Int('window', 1), Int('hop', 1)
        self.data = np.symarray('x', (self.n, self.w), kind)
        self.units = AWU(self.data, [TimeDimension(td(s * self.h, 'ps'), td(s * self.w, 'ps')), Identity()])
        self.acc = z3.Function('acc', z3.IntSort(), z3.IntSort(), z3.RealSort())

    def sum(self, k, t):
        return SReal(self.acc(zint(k), zint(t)))

    def term(self, k, t, scale=None):
        o = t - k * self.h
        v = self.data._get((k, o))
        return ite(And(0 <= o, o < self.w), v if scale is None else v * scale(o), 0)

    def define(self, k, t, scale=None):
        """the definition of acc, instantiated"""
        if not is_sym(k) and k == 0:
            assume(Eq(self.sum(0, t), 0))
        else:
            assume(Eq(self.sum(k, t), self.sum(k - 1, t) + self.term(k - 1, t, scale)))

    def length(self):
        return (self.n - 1) * self.h + self.w

    def contract(self, scale=None):
        def out(st):
            xs = [v for v in st._d.values() if type(v) is np.ndarray and v.ndim == 1]
            if len(xs) != 1:
                raise Unsupported('loop contract: the output under construction is not identified')
            return xs[0]

        def inv(st):
            a = out(st)
            t = Int('t', 0)
            assume(t < self.length())
            self.define(st._i, t, scale)
            return [Eq(a.shape[0], self.length()), Eq(a._get((t,)), self.sum(st._i, t))]

        def objs(st):
            i = st._i
            out(st)._buf.fn = lambda b: self.sum(i, b[0])
        core.R.contracts[('zounds.synthesize.synthesize.ShortTimeTransformSynthesizer._overlap_add', 0)] = \
            bi.LoopContract(inv, objs=objs)


def judge(f, got):
    prove(type(got) is as_.AudioSamples, 'audio samples')
    prove(And(len(got.shape) == 1, Eq(got.shape[0], f.length())), 'the output covers all frames, and no more')
    t = Int('sample', 0)
    assume(t < f.length())
    prove(Eq(got._get((t,)), f.sum(f.n, t)), 'every output sample is the sum of the frame samples that cover it')
    prove(got.dtype.kind == 'f' and got.dtype.itemsize >= 8, 'sums are kept in double precision')
    prove(And(Eq(got.samplerate.frequency.ps, f.s), Eq(got.samplerate.duration.ps, f.s)), 'the audio sample rate of the frames')


@spec('windowed frames', each=RATES, seconds=120)
def windowed(rate):
    f = Frames(rate)
    f.contract()
    judge(f, ok(syn.WindowedAudioSynthesizer().synthesize, f.units))


@spec('frames of other types', each=['int8', 'uint8', 'int16', 'float32'], seconds=120)
def other_types(kind):
    f = Frames('SR44100', kind)
    f.contract()
    judge(f, ok(syn.WindowedAudioSynthesizer().synthesize, f.units))


@spec('with a windowing function', each=['SR44100', 'SR11025'], seconds=120)
def with_window(rate):
    f = Frames(rate)
    W = load('zounds.spectral.sliding_window').WindowingFunc
    win = {}

    class Synth(syn.ShortTimeTransformSynthesizer):
        def _windowing_function(self):
            return W(lambda size: None)

    def wdata(self, size):
        win['w'] = np.symarray('window', (size,))
        return win['w']
    by_contract(W, '_wdata', wdata, 'C25: one window per size')
    f.contract(lambda o: win['w']._get((o,)))
    judge(f, ok(Synth().synthesize, f.units))


@spec('frames cut without overlap reproduce the signal')
def reproduce():
    """lemma, by induction on the number of frames: acc(k, t) is the signal at t for t < k*w and 0 after"""
    w = Int('window', 1)
    F = z3.Function('signal', z3.IntSort(), z3.RealSort())
    S = lambda t: SReal(F(zint(t)))
    k, t = Int('k', 0), Int('t', 0)
    closed = lambda k: ite(t < k * w, S(t), 0)
    prove(Eq(closed(0), 0), 'no frames')
    o = t - k * w
    step = closed(k) + ite(And(0 <= o, o < w), S(k * w + o), 0)
    prove(Eq(step, closed(k + 1)), 'one more frame of the signal')
