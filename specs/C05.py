"""C05: windows cover every sample in order, whole or streamed."""
from engine.spec import *

npx = load('zounds.nputil.npx')
core_ = load('zounds.core.axis')
ts_ = load('zounds.timeseries.timeseries')
sw_ = load('zounds.spectral.sliding_window')
AWU, TimeDimension, TimeSlice = core_.ArrayWithUnits, ts_.TimeDimension, ts_.TimeSlice
Identity = load('zounds.core.dimensions').IdentityDimension
SampleRate = load('zounds.timeseries.samplerate').SampleRate
NotEnoughData = load('featureflow').NotEnoughData
td = np.timedelta64


def signal(n, extra, contig=True):
    shape = (n,) + tuple(Int('m%d' % k, 1) for k in range(extra))
    return np.symarray('x', shape, contig=contig)


def sizes():
    w, h = Int('w', 2), Int('h', 1)
    assume(h <= w)
    return w, h


def idx(a, k=1):
    """an arbitrary position on the axes from k on"""
    out = []
    for n in a.shape[k:]:
        i = fresh_int('e')
        assume(And(i >= 0, i < n))
        out.append(i)
    return tuple(out)


@spec('windowed without padding', each=[(0, True), (1, True), (2, True), (1, False)])
def nopad(extra, contig):
    n = Int('n', 0)
    w, h = sizes()
    a = signal(n, extra, contig)
    left, win = ok(npx.windowed, a, w, h)
    K = win.shape[0]
    L = left.shape[0]
    prove(Implies(K > 0, (K - 1) * h + w <= n), 'no window reaches past the end of the signal')
    prove(Eq(L, n - K * h), 'the leftover starts where the next window would start')
    prove(Implies(n > w, (K * h + w > n)), 'no further whole window fits')
    e = idx(a)
    j = Int('j', 0)
    assume(j < L)
    prove(Eq(left._get((j,) + e), a._get((K * h + j,) + e)), 'the leftover holds the samples after the last hop')
    if K > 0:
        prove(And(Eq(win.shape[1], w), *[Eq(x, y) for x, y in zip(win.shape[2:], a.shape[1:])]), 'window shape')
        prove(len(win.shape) == len(a.shape) + 1, 'window rank')
        k, i = Int('k', 0), Int('i', 0)
        assume(And(k < K, i < w))
        prove(Eq(win._get((k, i) + e), a._get((k * h + i,) + e)), 'window k holds samples k*h .. k*h+w-1')
        cover('windows compared')
    prove(win.dtype == a.dtype and left.dtype == a.dtype, 'element type kept')


@spec('windowed with padding', each=[0, 1])
def dopad(extra):
    n = Int('n', 1)
    w, h = sizes()
    a = signal(n, extra)
    left, win = ok(npx.windowed, a, w, h, True)
    K = win.shape[0]
    prove(Eq(left.shape[0], 0), 'nothing is left over')
    prove(len(win.shape) == len(a.shape) + 1 and Eq(win.shape[1], w), 'window shape')
    prove(And(K > 0, (K - 1) * h + w >= n), 'every sample is in some window')
    e = idx(a)
    k, i = Int('k', 0), Int('i', 0)
    assume(And(k < K, i < w))
    p = k * h + i
    v = win._get((k, i) + e)
    if p < n:
        prove(Eq(v, a._get((p,) + e)), 'window k holds samples k*h .. k*h+w-1')
        cover('data compared')
    else:
        prove(Eq(v, 0), 'only zeros are added, only after the end')
        cover('padding compared')


@spec('windowed: hop defaults to the window; bad sizes are rejected')
def defaults():
    n, w = Int('n', 0), Int('w', 2)
    a = signal(n, 0)
    l1, w1 = ok(npx.windowed, a, w)
    l2, w2 = ok(npx.windowed, a, w, w)
    prove(And(Eq(l1.shape[0], l2.shape[0]), Eq(w1.shape[0], w2.shape[0])), 'hop defaults to the window size')
    bad = Int('bad', None, 0)
    rejects(npx.windowed, ValueError, a, bad, 1, _name='window below one is rejected')
    rejects(npx.windowed, ValueError, a, w, bad, _name='hop below one is rejected')


WHOLE = 'TimeDimension: a slice of q whole samples from the start is translated to the indices [0, q)'


@spec(WHOLE, each=['ps', 's'])
def whole(u):
    f, q, n = Int('f', 1), Int('q', 1), Int('n', 0)
    dim = TimeDimension(td(f, u), td(f, u), n)
    r = ok(dim.integer_based_slice, TimeSlice(duration=td(f * q, u)))
    prove(And(Eq(r.start, 0), Eq(r.stop, q), r.step is None), 'starts at 0 and stops at q')


def whole_samples(f, *qs):
    """use the contract above for slices of q*f on an axis of frequency and duration f"""
    def contract(self, sl):
        if isinstance(sl, TimeSlice) and same(sl.start.ps, 0) and same(self.frequency.ps, f) and same(self.duration.ps, f):
            for q in qs:
                if same(sl.duration.ps, q * f) or same(sl.duration.ps, f * q):
                    return slice(0, q)
        return Ellipsis
    by_contract(TimeDimension, 'integer_based_slice', contract, WHOLE)


def axis(n, extra=0):
    f = Int('f', 1)
    a = signal(n, extra)
    return f, a, AWU(a, [TimeDimension(td(f, 'ps'), td(f, 'ps'))] + [Identity() for _ in range(extra)])


@spec('ArrayWithUnits.sliding_window_with_leftovers', each=[(0, False), (1, False), (0, True)])
def units(extra, pad):
    n = Int('n', 1)
    w, h = sizes()
    f, a, arr = axis(n, extra)
    whole_samples(f, w, h)
    left, win = ok(arr.sliding_window_with_leftovers, TimeSlice(duration=td(w * f, 'ps')), TimeSlice(duration=td(h * f, 'ps')), pad)
    K = win.shape[0]
    e = idx(a)
    if len(win.shape) == len(a.shape):
        prove(Eq(K, 0), 'no windows')
        prove(And(Eq(left.shape[0], n), n <= w, not pad), 'everything is left over only when no window is complete')
        return
    L = left.shape[0]
    if not pad:
        j = Int('j', 0)
        assume(j < L)
        prove(Eq(L, n - K * h), 'the leftover starts where the next window would start')
        prove(Eq(left._get((j,) + e), a._get((K * h + j,) + e)), 'the leftover holds the samples after the last hop')
    prove(isinstance(left, AWU) and left.dimensions[0].frequency == td(f, 'ps') or pad, 'the leftover keeps its time axis')
    k, i = Int('k', 0), Int('i', 0)
    assume(And(k < K, i < w))
    prove(Eq(win.shape[1], w), 'windows of w samples')
    p = k * h + i
    v = win._get((k, i) + e)
    if p < n:
        prove(Eq(v, a._get((p,) + e)), 'window k holds samples k*h .. k*h+w-1')
    else:
        prove(Eq(v, 0) if pad else False, 'only zeros are added, only after the end')
    d0, d1 = win.dimensions[0], win.dimensions[1]
    prove(isinstance(d0, TimeDimension) and d0.frequency.ps == h * f and d0.duration.ps == w * f, 'the first axis steps by the hop and lasts the window')
    prove(isinstance(d1, TimeDimension) and d1.frequency.ps == f and d1.duration.ps == f, 'the second axis keeps the sampling rate')
    prove(len(win.dimensions) == extra + 2, 'one dimension per axis')


class Running(sw_.SlidingWindow):
    """upstream nodes have more to send"""
    _finalized = False


class Finished(sw_.SlidingWindow):
    """every upstream node has finished"""
    _finalized = True


def node(f, w, h, cls=Running):
    whole_samples(f, w, h)
    nd = cls(SampleRate(frequency=td(h * f, 'ps'), duration=td(w * f, 'ps')))
    state_is(nd, '_cache', '_emitted')
    return nd


def chunk(S, f, lo, hi, extra=0):
    """samples lo .. hi-1 of the stream S as a time series"""
    a = np.lazy((hi - lo,), S.dtype, lambda ix: S._get((ix[0] + lo,)))
    return AWU(a, [TimeDimension(td(f, 'ps'), td(f, 'ps'))])


def state(nd, S, f, w, h):
    """an arbitrary state satisfying the invariant: k windows emitted, the cache holds samples k*h .. N-1"""
    k, N = Int('emitted', 0), Int('received', 0)
    assume(Or(k == 0, (k - 1) * h + w <= N))
    if fork(k > 0):
        nd._emitted = True
        nd._cache = chunk(S, f, k * h, N)
    elif fork(N > 0):
        nd._cache = chunk(S, f, 0, N)
    return k, N


@spec('SlidingWindow: each chunk emits exactly the next windows (invariant over all histories)', seconds=120)
def stream():
    w, h = sizes()
    f = Int('f', 1)
    total = Int('total', 1)
    S = np.symarray('s', (total,))
    nd = node(f, w, h)
    prove(nd._cache is None and not nd._emitted, 'initially nothing is cached or emitted')
    k, N = state(nd, S, f, w, h)
    m = Int('chunk', 0)
    assume(N + m <= total)
    nd._enqueue(chunk(S, f, N, N + m), None)
    r = run(nd._dequeue)
    N2 = N + m
    if isinstance(r, Raised):
        prove(r.is_(NotEnoughData), 'waits only by signalling that data is missing')
        prove(N2 - k * h <= w, 'waits only while no complete window is available')
        k2 = k
        cover('waiting')
    else:
        K = r.shape[0]
        prove(And(K > 0, Eq(r.shape[1], w)), 'emits windows of w samples')
        j, i = Int('j', 0), Int('i', 0)
        assume(And(j < K, i < w))
        prove((k + j) * h + i < N2, 'every emitted window is complete')
        prove(Eq(r._get((j, i)), S._get(((k + j) * h + i,))), 'the j-th window emitted is the next window of the stream')
        k2 = k + K
        prove(nd._emitted, 'emission recorded')
        cover('emitting')
    # the invariant is restored
    prove(Eq(nd._cache.shape[0], N2 - k2 * h), 'invariant: the cache starts where the next window starts')
    p = Int('p', 0)
    assume(p < N2 - k2 * h)
    prove(Eq(nd._cache._get((p,)), S._get((k2 * h + p,))), 'invariant: the cache holds the samples of the stream')
    prove(Or(k2 == 0, (k2 - 1) * h + w <= N2), 'invariant: emitted windows were complete')
    prove(Or(N2 - k2 * h <= w), 'no complete window beyond the last is withheld')


@spec('SlidingWindow: the end of the stream emits the remaining padded windows', seconds=120)
def finish():
    w, h = sizes()
    f = Int('f', 1)
    N = Int('N', 1)
    k = Int('emitted', 0)
    S = np.symarray('s', (N,))
    nd = node(f, w, h, Finished)
    assume(Or(k == 0, (k - 1) * h + w <= N))
    assume(N - k * h <= w)
    nd._cache = chunk(S, f, k * h, N)
    nd._emitted = True if fork(k > 0) else False
    r = run(nd._dequeue)
    # the total number of windows depends on the length of the stream only
    if isinstance(r, Raised):
        prove(r.is_(NotEnoughData), 'ends quietly')
        K = 0
        cover('nothing left')
    else:
        K = r.shape[0]
        j, i = Int('j', 0), Int('i', 0)
        assume(And(j < K, i < w))
        p = (k + j) * h + i
        v = r._get((j, i))
        if p < N:
            prove(Eq(v, S._get((p,))), 'the last window holds the next samples')
        else:
            prove(Eq(v, 0), 'only zeros are added after the end')
        cover('last window')
    n = k + K
    prove(Implies(N > w, And((n - 1) * h + w >= N, (n - 2) * h + w < N)), 'as many windows as the stream needs, and no more')
    prove(Implies(N <= w, Eq(n, 1)), 'a short stream gives one window')

