from util import *
import numpy as np
import torch
import zounds
from zounds.learn import apply_network
from zounds.soundfile import ChunkSizeBytes
from zounds.timeseries import SR96000, SR48000, SR44100, SR22050, SR11025
from zounds.timeseries import Seconds, Milliseconds, Picoseconds

RATES = [SR96000(), SR48000(), SR44100(), SR22050(), SR11025()]


class Net(torch.nn.Module):
    def __init__(self, shape):
        super(Net, self).__init__()
        self.w = torch.nn.Parameter(torch.full((1,), 2.0))
        self.shape = shape

    def forward(self, x):
        f = x.reshape(x.shape[0], -1)
        return torch.stack([f.sum(1) * self.w, f.max(1)[0] - self.w, f[:, 0]], 1).reshape((x.shape[0],) + self.shape)


def check_chunks(t):
    for _ in t.times(300, 3000):
        n = t.rng.choice([t.rng.randint(1, 40), t.rng.randint(1, 40), t.rng.randint(1, 40), t.rng.randint(100, 1000)])
        shape = (n,) + tuple(t.rng.randint(1, 3) for _ in range(t.rng.randint(1, 3)))
        x = np.round(t.np_rng.uniform(-100, 100, shape)).astype(np.float32)
        x = special(t.rng, x)
        net = Net(t.rng.choice([(3,), (3, 1), (1, 3)]))
        c = t.rng.choice([1, n - 1, n, n + 1, 2 * n, max(1, n // 2), t.rng.randint(1, 45)]) or 1
        case = t.current = dict(samples=n, shape=shape, chunksize=c)
        f = x.reshape(n, -1)
        want = np.stack([f.sum(1) * 2, f.max(1) - 2, f[:, 0]], 1).reshape((n,) + net.shape)
        before = x.copy()
        for got in (apply_network(net, x), apply_network(net, x, chunksize=c), apply_network(net, x, chunksize=None)):
            t.expect(got.shape == want.shape and np.array_equal(got, want), 'chunked-as-whole', case, got.shape)
            if n < 50:
                t.hold(got, 'chunked-as-whole', case)
        t.expect(np.array_equal(before, x), 'input-unchanged', case)


def check_bytes(t):
    for _ in t.times(400, 5000):
        sr = t.rng.choice(RATES)
        f = ps(sr.frequency)
        d = t.rng.choice([Seconds(t.rng.randint(1, 100)), Seconds(t.rng.randint(100, 10 ** 5)), Milliseconds(t.rng.randint(1, 5000)), Picoseconds(t.rng.randint(1, 10 ** 12)),
                          sr.frequency * t.rng.randint(1, 10 ** 6)])
        ch, b = t.rng.randint(1, 6), t.rng.randint(1, 4)
        case = t.current = dict(rate=sr.samples_per_second, duration=str(d), channels=ch, bits=8 * b)
        t.equal(int(ChunkSizeBytes(sr, d, channels=ch, bit_depth=8 * b)), ps(d) // f * ch * b, 'chunk-bytes', case)
        t.equal(int(ChunkSizeBytes(sr, d)), ps(d) // f * 4, 'chunk-bytes-default', case)
