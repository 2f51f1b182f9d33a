"""C18: onset segmentation tiles the whole signal."""
from engine.spec import *
from engine import bi
bi.GROWING.add('zounds.timeseries.timeseries')
bi.GROWING.add('zounds.segment.onset')

on = load('zounds.segment.onset')
core_ = load('zounds.core.axis')
ts_ = load('zounds.timeseries.timeseries')
vr = load('zounds.timeseries.variablerate')
AWU, TimeDimension, TimeSlice, VRTS = core_.ArrayWithUnits, ts_.TimeDimension, ts_.TimeSlice, vr.VariableRateTimeSeries
Identity = load('zounds.core.dimensions').IdentityDimension
td = np.timedelta64

class Picker(on.BasePeakPicker):
    """a peak picker that detects arbitrary positions within each chunk"""
    onsets = None

    def _onset_indices(self, data):
        return self.onsets


def node(L, P, u):
    nd = Picker()
    state_is(nd, '_pos', '_leftover_timestamp')
    prove(And(Eq(nd._pos.ps, 0), Eq(nd._leftover_timestamp.ps, 0)), 'the stream starts at zero')
    nd._pos, nd._leftover_timestamp = td(P, 'ps'), td(L, 'ps')
    return nd


def chunk(n, f, u):
    return AWU(np.symarray('x', (n, Int('width', 1))), [TimeDimension(td(f, u), td(Int('duration', 1), u)), Identity()])


def positions(n):
    """strictly increasing positions within a chunk of n frames"""
    m = Int('onsets', 0)
    idx = np.symarray('p', (m,), 'int64')
    assume(m <= n)
    forall_assume(m, lambda k: And(idx._get((k,)) >= 0, idx._get((k,)) < n))
    forall_assume(m, lambda j, k: idx._get((j,)) < idx._get((k,)), pairs=True)
    return m, idx


def run_chunk(u):
    P, L = Int('position', 0), Int('leftover', 0)
    assume(L <= P)
    nd = node(L, P, u)
    n, f = Int('frames', 0), Int('frequency', 1)
    m, idx = positions(n)
    nd.onsets = idx
    x = chunk(n, f, u)
    out = ok(lambda: list(nd._process(x)))
    F = td(f, u).ps
    return nd, P, L, n, F, m, lambda k: P + idx._get((k,)) * F, out


@spec('each chunk emits consecutive slices with one boundary per onset', each=['ps', 'ms', 's'], seconds=120)
def step(u):
    nd, P, L, n, F, m, t, out = run_chunk(u)
    prove(len(out) == 1, 'one series per chunk')
    got = out[0]
    prove(Eq(len_(got.slices), m), 'as many slices as onsets')
    i = Int('i', 0)
    assume(i < m)
    s = item(got.slices, i)
    prove(Eq(s.start.ps + s.duration.ps, t(i)), 'slice i ends at onset i, relative to the whole stream')
    if fork(i > 0):
        prove(Eq(s.start.ps, t(i - 1)), 'and starts at the onset before')
        cover('inner slice')
    else:
        prove(Eq(s.start.ps, L), 'the first starts where the last chunk left off')


@spec('the state after a chunk', each=['ps', 'ms', 's'], seconds=120)
def state(u):
    nd, P, L, n, F, m, t, out = run_chunk(u)
    prove(Eq(nd._pos.ps, P + n * F), 'the position advances by the duration of the chunk')
    last = t(m - 1) if fork(m > 0) else L
    prove(Eq(nd._leftover_timestamp.ps, last), 'the leftover starts at the last onset')
    prove(nd._leftover_timestamp.ps <= nd._pos.ps, 'the leftover starts before the position')


@spec('the end of the stream emits the rest')
def end():
    P, L = Int('position', 0), Int('leftover', 0)
    assume(L <= P)
    nd = node(L, P, 'ps')
    out = ok(lambda: list(nd._last_chunk()))
    prove(len(out) == 1 and len(out[0].slices) == 1, 'one last slice')
    s = out[0].slices[0]
    prove(And(Eq(s.start.ps, L), Eq(s.start.ps + s.duration.ps, P)), 'from the last onset to the total duration')
