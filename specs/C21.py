"""C21: the streaming byte buffer delivers every byte once, in order.

Invariant over all histories: the buffer holds the bytes [D, W) of the stream written so far and its position is at
byte R of the stream, D <= R <= W; reads return stream bytes from R on, writes move W only, and discarding moves D to R."""
from engine.spec import *

stateful('MemoryBuffer')
from engine.deps import SBytes, SBuffer, symbytes, BytesIO, parts

au = load('zounds.soundfile.audiostream')
MemoryBuffer = au.MemoryBuffer
KINDS = ['default limit', 'small limit']


def stream():
    D, R, W = Int('discarded', 0), Int('read', 0), Int('written', 0)
    assume(And(D <= R, R <= W))
    S = symbytes('S', W)
    return D, R, W, S.get


def buffer(kind):
    D, R, W, S = stream()
    total = Int('total', 0)
    mb = ok(MemoryBuffer, total) if kind == 'default limit' else ok(MemoryBuffer, total, Int('limit', 0))
    state_is(mb, '_buf', '_discarded')
    prove(And(Eq(parts(mb._buf.getvalue())[0], 0), Eq(mb._buf.tell(), 0)), 'initially empty')
    b = BytesIO(SBytes(W - D, lambda k: S(D + k)))
    b.seek(R - D)
    mb._buf = b
    mb._discarded = D
    return mb, D, R, W, S, total


def invariant(mb, S, R, W):
    n, g = parts(mb._buf.getvalue())
    p = mb._buf.tell()
    D = W - n
    prove(Eq(mb._discarded, D), 'invariant: everything discarded is counted')
    prove(And(D >= 0, Eq(D + p, R)), 'invariant: the position is at the next unread byte')
    k = Int('k', 0)
    assume(k < n)
    prove(Eq(g(k), S(D + k)), 'invariant: the buffer holds the stream from there on, in order')


def delivered(got, S, R, W, k):
    """got are the k bytes of the stream from R on"""
    n, g = parts(got)
    prove(Eq(n, k), 'as many bytes as asked for and available')
    i = Int('i', 0)
    assume(i < n)
    prove(Eq(g(i), S(R + i)), 'exactly the next bytes of the stream')


@spec('reading by count', each=KINDS)
def read_count(kind):
    mb, D, R, W, S, total = buffer(kind)
    c = Int('count', 0)
    got = ok(mb.read, c)
    k = ite(c < W - R, c, W - R)
    invariant(mb, S, R + k, W)
    delivered(got, S, R, W, k)


@spec('reading to the end', each=KINDS)
def read_all(kind):
    mb, D, R, W, S, total = buffer(kind)
    got = ok(mb.read, -1)
    invariant(mb, S, W, W)
    delivered(got, S, R, W, W - R)


@spec('reading into a buffer', each=KINDS)
def readinto(kind):
    mb, D, R, W, S, total = buffer(kind)
    c = Int('size', 0)
    old = symbytes('old', c).get
    buf = SBuffer(c, old)
    n = ok(mb.readinto, buf)
    k = ite(c < W - R, c, W - R)
    prove(Eq(n, k), 'reports the number of bytes delivered')
    invariant(mb, S, R + k, W)
    i = Int('i', 0)
    assume(i < c)
    if fork(i < k):
        prove(Eq(buf.get(i), S(R + i)), 'delivers exactly the next bytes of the stream')
    else:
        prove(Eq(buf.get(i), old(i)), 'leaves the rest of the buffer alone')


@spec('writing, with or without discarding consumed bytes', each=KINDS, seconds=120)
def write(kind):
    mb, D, R, W, S, total = buffer(kind)
    m = Int('new', 0)
    new = symbytes('N', m)
    r = ok(mb.write, new)
    prove(Eq(r, m), 'every byte is accepted')

    def all_(k):
        return ite(k < W, S(k), new.get(k - W))
    n, g = parts(mb._buf.getvalue())
    invariant(mb, all_, R, W + m)


@spec('seeking to the end reports the declared length once', each=KINDS)
def tell(kind):
    mb, D, R, W, S, total = buffer(kind)
    prove(Eq(ok(mb.tell), R), 'before, the position in the stream')
    ok(mb.seek, 0, 2)
    prove(Eq(ok(mb.tell), total), 'the declared total length')
    prove(Eq(ok(mb.tell), W), 'then the true position, which is the end of what was written')
    q = Int('q', 0)
    assume(And(q >= D, q <= W))
    ok(mb.seek, q, 0)
    prove(Eq(ok(mb.tell), q), 'seeking to a position of the stream and asking for it')
    prove(Eq(ok(mb.tell), q), 'any number of times')
    invariant(mb, S, q, W)
    ok(mb.seek, 0, 1)
    prove(Eq(ok(mb.tell), q), 'a relative seek by nothing stays there')
    c = Int('count', 0)
    delivered(ok(mb.read, c), S, q, W, ite(c < W - q, c, W - q))


@spec('a history of four operations from a new buffer', each=[(a, b, c) for a in ('count', 'all', 'into') for b in ('count', 'into') for c in ('small', 'big')], seconds=120)
def history(first, second, kind):
    """through the public interface only"""
    m1, m2, c1 = Int('m1', 0), Int('m2', 0), Int('c1', 0)
    A, B = symbytes('A', m1), symbytes('B', m2)
    mb = ok(MemoryBuffer, m1 + m2, Int('limit', 0)) if kind == 'small' else ok(MemoryBuffer, m1 + m2)
    S = lambda k: ite(k < m1, A.get(k), B.get(k - m1))
    ok(mb.write, A)
    if first == 'into':
        buf = SBuffer(c1, symbytes('old', c1).get)
        R = ok(mb.readinto, buf)
        got = SBytes(R, buf.get)
    else:
        got = ok(mb.read, c1 if first == 'count' else -1)
        R = parts(got)[0]
    delivered(got, S, 0, m1, ite(c1 < m1, c1, m1) if first != 'all' else m1)
    ok(mb.write, B)
    c2 = Int('c2', 0)
    left = m1 + m2 - R
    if second == 'into':
        buf = SBuffer(c2, symbytes('old', c2).get)
        n = ok(mb.readinto, buf)
        got = SBytes(n, buf.get)
    else:
        got = ok(mb.read, c2)
    n, g = parts(got)
    prove(Eq(n, ite(c2 < left, c2, left)), 'after another write, as many as asked for and available')
    j = Int('j', 0)
    assume(j < n)
    prove(Eq(g(j), S(R + j)), 'the bytes that follow those read before')
