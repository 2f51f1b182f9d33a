"""C26: chunked processing equals whole processing.

A sample-wise network is an arbitrary function g of one sample and one output coordinate: network(x)[i, j] = g(x[i], j)."""
import z3
from engine.spec import *
from engine import deps

util = load('zounds.learn.util')
core_ = load('zounds.core.axis')
ts_ = load('zounds.timeseries.timeseries')
sr_ = load('zounds.timeseries.samplerate')
Identity = load('zounds.core.dimensions').IdentityDimension
chunk = load('zounds.soundfile.chunksize')
td = np.timedelta64


class Network(object):
    """sample-wise: every row of the output depends on the same row of the input only"""

    def __init__(self, width, cuda):
        self.width, self.cuda = width, cuda
        self.g = z3.Function('network', z3.RealSort(), z3.IntSort(), z3.RealSort())

    def parameters(self):
        class P(object):
            is_cuda = self.cuda
        return iter([P()])

    def out(self, v, j):
        return SReal(self.g(zreal(v), zint(j)))

    def __call__(self, t):
        if not isinstance(t, deps.Tensor):
            prove(False, 'the network is applied to a tensor')
        prove(t.is_cuda == self.cuda, 'input is on the device of the network')
        a = t._a
        return deps.Tensor(np.lazy((a.shape[0], self.width), np.to_dtype('float32'), lambda i: self.out(a._get((i[0],)), i[1])), self.cuda)


def judge(got, net, x, n):
    prove(len(got.shape) == 2, 'rows of outputs')
    prove(And(Eq(got.shape[0], n), Eq(got.shape[1], net.width)), 'one row per sample')
    i, j = Int('i', 0), Int('j', 0)
    assume(And(i < n, j < net.width))
    prove(Eq(got._get((i, j)), net.out(x._get((i,)), j)), 'row i is the network applied to sample i')


def setup(cuda):
    n = Int('samples', 1)
    x = np.symarray('x', (n,), 'float32')
    return n, x, Network(Int('width', 1), cuda)


@spec('applied at once', each=[True, False])
def whole(cuda):
    n, x, net = setup(cuda)
    judge(ok(util.apply_network, net, x), net, x, n)
    judge(ok(util.apply_network, net, x, chunksize=None), net, x, n)


@spec('applied in chunks of any size', each=[True, False])
def chunks(cuda):
    n, x, net = setup(cuda)
    c = Int('chunksize', 1)
    judge(ok(util.apply_network, net, x, chunksize=c), net, x, n)
    cover('chunked')


model = load('zounds.learn.pytorch_model')


class Codec(object):
    def __init__(self, net):
        self.encoder = self.decoder = net


def units_(x, dims):
    if dims == 'plain':
        return x
    return core_.ArrayWithUnits(x, [ts_.TimeDimension(td(Int('frequency', 1), 'ps'))])


@spec('a trained network in a pipeline', each=[('plain', False), ('time', False), ('time', True)])
def forward(dims, chunked):
    n, x, net = setup(True)
    c = Int('chunksize', 1) if chunked else None
    a = units_(x, dims)
    nd = ok(model.PyTorchNetwork, chunksize=c)
    r = ok(ok(nd._forward_func), a, network=net, chunk_size=c)
    judge(r, net, x, n)
    if dims == 'time':
        prove(type(r) is core_.ArrayWithUnits and same(r.dimensions[0].frequency.ps, a.dimensions[0].frequency.ps), 'the rows keep their times')


@spec('a trained autoencoder in a pipeline', each=['plain', 'time'])
def autoencoder(dims):
    n, x, net = setup(True)
    nd = ok(model.PyTorchAutoEncoder)
    judge(ok(ok(nd._forward_func), units_(x, dims), network=Codec(net)), net, x, n)
    judge(ok(ok(nd._backward_func), units_(x, dims), network=Codec(net)), net, x, n)


RATES = ['SR96000', 'SR48000', 'SR44100', 'SR22050', 'SR11025']


@spec('the byte size of a duration of audio', each=RATES)
def chunk_bytes(rate):
    sr = getattr(sr_, rate)()
    f = sr.frequency.ps
    d, ch, b = Int('duration', 0), Int('channels', 1), Int('bytes', 1)
    assume(d < 2 ** 53)
    c = ok(chunk.ChunkSizeBytes, sr, td(d, 'ps'), channels=ch, bit_depth=8 * b)
    r = ok(c.__int__)
    s = Int('whole samples', 0)
    assume(And(s * f <= d, d < (s + 1) * f))
    prove(Eq(r, s * ch * b), 'whole samples times channels times bytes per sample')


@spec('by default, 16 bit stereo', each=RATES)
def default(rate):
    sr = getattr(sr_, rate)()
    s = Int('whole samples', 0)
    assume(s * sr.frequency.ps < 2 ** 53)
    prove(Eq(ok(ok(chunk.ChunkSizeBytes, sr, sr.frequency * s).__int__), s * 4), 'four bytes per sample')
