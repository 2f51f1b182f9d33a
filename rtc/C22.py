import re
from fractions import Fraction
from util import *
from zounds import TimeSlice, Seconds, Picoseconds
from zounds.ui.contentrange import RangeRequest, ContentRange, RangeUnitUnsupportedException


def num(t):
    if t.rng.random() < .3:
        return t.rng.randint(0, 4)
    return t.rng.choice([0, 1, 7, 10, 99, 100, 4096, t.rng.randint(0, 10 ** 9)])


def count(t):
    return t.rng.choice([num(t), num(t), t.rng.randint(0, 10 ** 18)])


def check_bytes(t):
    for _ in t.times(800):
        a, b = sorted((count(t), count(t)))
        t.current = 'bytes=%d-%d' % (a, b)
        r = RangeRequest(t.current).range()
        t.expect(r == slice(a, b), 'bytes', t.current, r)
        r = RangeRequest('bytes=%d-' % a).range()
        t.expect(r == slice(a, None), 'bytes-open', t.current, r)


def check_seconds(t):
    for _ in t.times(800):
        d = t.rng.choice([0, 1, 3, 6])
        top = 500 * 10 ** d if t.rng.random() < .7 else 4
        a, b = sorted((t.rng.randint(0, top), t.rng.randint(0, top)))
        s = lambda v: ('%%.%df' % d) % (v / 10. ** d)
        want_a, want_b = [Fraction(s(v)) * 10 ** 12 for v in (a, b)]
        t.current = 'seconds=%s-%s' % (s(a), s(b))
        r = RangeRequest(t.current).range()
        t.expect(isinstance(r, TimeSlice) and abs(ps(r.start) - want_a) <= 1 and r.duration is not None
                 and abs(ps(r.duration) - (want_b - want_a)) <= 1, 'seconds', t.current, r)
        r = RangeRequest('seconds=%s-' % s(a)).range()
        t.expect(isinstance(r, TimeSlice) and abs(ps(r.start) - want_a) <= 1 and r.duration is None, 'seconds-open', t.current, r)


def check_malformed(t):
    for h in (None, '', 'bytes', 'bytes:1-2', '1-2', 'bytes=1', 'seconds=3.5', '-', '=1-2', 'bytes1-2'):
        t.current = h
        t.expect(RangeRequest(h).range() == slice(None), 'whole', h)
    for u in ('hours', 'byte', 'Bytes', 'second', 'items', 'bytes ', 'x', 'seconds2'):
        for rest in ('1-2', '0-', '5-9'):
            t.current = (u, rest)
            t.raises(RangeUnitUnsupportedException, lambda: RangeRequest('%s=%s' % (u, rest)).range(), 'unit', (u, rest))


def check_requests(t):
    """request after request, of few numbers, in both units, well formed or not, read once or twice"""
    kept = []
    for _ in t.times(1500):
        a, b = sorted((t.rng.randint(0, 3), t.rng.randint(0, 3)))
        unit = t.rng.choice(['bytes', 'bytes', 'seconds', 'seconds', 'Bytes', ''])
        end = t.rng.choice(['', '%d' % b, '%d' % b])
        h = t.current = '%s=%d-%s' % (unit, a, end)
        q = RangeRequest(h)
        for _k in range(t.rng.choice([1, 1, 2])):
            if unit == 'Bytes':
                t.raises(RangeUnitUnsupportedException, q.range, 'request-unit', h)
                continue
            r = q.range()
            if unit == 'seconds':
                want = a * 10 ** 12, (b - a) * 10 ** 12 if end else None
                kept.append((h, r, want))
                t.expect(isinstance(r, TimeSlice), 'request', h, r)
            else:
                t.expect(r == (slice(a, int(end) if end else None) if unit else slice(None)), 'request', h, r)
        for g, r, want in kept[-3:]:
            t.expect((ps(r.start), None if r.duration is None else ps(r.duration)) == want, 'request-times', (g, h), r)


def parse(t, c, case):
    m = re.match(r'^(\w+) ([^-]+)-([^/]+)/(.+)$', str(c))
    t.expect(m, 'form', case, str(c))
    return m.groups() if m else None


def check_content_range(t):
    for _ in t.times(800):
        a, b = sorted((count(t), count(t)))
        n = t.rng.choice([b, b + num(t), count(t)])
        for stop in (b, None):
            case = t.current = (a, stop, n)
            g = parse(t, ContentRange.from_slice(slice(a, stop), n), case)
            if g:
                t.expect(g[0] == 'bytes' and [int(x) for x in g[1:]] == [a, n if stop is None else stop, n], 'bytes-range', case, g)
    for z in ((0, 0, 10), (0, 0, 0), (5, 5, 10)):
        g = parse(t, ContentRange.from_slice(slice(z[0], z[1]), z[2]), z)
        t.expect(g and [int(x) for x in g[1:]] == list(z), 'bytes-range-edge', z, g)
    for _ in t.times(800):
        u = t.rng.choice(['s', 'ms', 'us', 'ps'])
        a, d, n = td(num(t), u), td(num(t), u), td(num(t), t.rng.choice(['s', 'ms']))
        for dur in (d, None):
            case = t.current = (show(a), show(dur), show(n))
            c = ContentRange.from_timeslice(TimeSlice(dur, start=a), n)
            g = parse(t, c, case) if c.start >= 1e-3 or c.start == 0 else None
            if g and 'e' not in ''.join(g[1:]):
                got = [float(x) for x in g[1:]]
                stop = ps(n) if dur is None else ps(a) + ps(d)
                want = [ps(a) / 1e12, stop / 1e12, ps(n) / 1e12]
                t.close(got, want, 'seconds-range', case, 1e-9)


def check_served(t):
    from zounds.ui.serializer import DefaultSerializer
    import io

    class Thing(object):
        def __init__(self, **kw):
            self.__dict__.update(kw)

    for _ in t.times(200):
        n = t.rng.choice([0, 1, 5, 100])
        data = bytes(t.rng.randrange(256) for _ in range(n))

        class F(Thing):
            def __call__(self, **kw):
                return io.BytesIO(data)
        a = t.rng.randint(0, n)
        b = t.rng.choice([a, n, t.rng.randint(a, n + 5)])
        sl = t.rng.choice([slice(a, b), slice(a, None), slice(None)])
        doc = Thing(_id='d', key_builder=Thing(build=lambda *x: 'k'), database=Thing(size=lambda k: n))
        case = t.current = (n, sl)
        r = DefaultSerializer('text/plain').serialize(Thing(document=doc, feature=F(key='k', version='1'), slce=sl))
        t.equal(r.data, data[sl], 'bytes-served', case)
        t.expect(bool(r.is_partial) == (sl != slice(None)), 'partial', case)


def _bytes(t, v):
    a, b = int(v.get('a', 0)), v.get('b')
    h = 'bytes=%d-%s' % (a, '' if b is None else int(b))
    ok, r = t.attempt(lambda: RangeRequest(h).range(), 'bytes', h)
    t.expect(ok and r == slice(a, None if b is None else int(b)), 'bytes', h, r)


REPLAY = {'a byte range': _bytes}
