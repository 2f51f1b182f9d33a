"""C22: HTTP range requests and content ranges agree."""
from engine.spec import *
from engine.bi import int_, float_

cr = load('zounds.ui.contentrange')
ts_ = load('zounds.timeseries.timeseries')
TimeSlice = ts_.TimeSlice
td = np.timedelta64
PRE = 10 ** 12


@spec('a byte range is the slice between its numerals')
def byte_range():
    a, b = Str('a', NUMERAL), Str('b', NUMERAL)
    r = ok(lambda: cr.RangeRequest('bytes=' + a + '-' + b).range())
    prove(type(r) is slice and r.step is None, 'is a slice')
    prove(Eq(r.start, int_(a)), 'starts at the first numeral')
    prove(r.stop is not None and Eq(r.stop, int_(b)), 'stops at the second')


@spec('a byte range without an end is open')
def byte_open():
    a = Str('a', NUMERAL)
    r = ok(lambda: cr.RangeRequest('bytes=' + a + '-').range())
    prove(type(r) is slice and r.step is None and r.stop is None, 'is an open slice')
    prove(Eq(r.start, int_(a)), 'starts at the first numeral')


@spec('a range in seconds is the time slice between its numerals')
def second_range():
    a, b = Str('a', DECIMAL), Str('b', DECIMAL)
    x, y = float_(a), float_(b)
    assume(And(x >= 0, x <= y))
    r = ok(lambda: cr.RangeRequest('seconds=' + a + '-' + b).range())
    prove(isinstance(r, TimeSlice), 'is a time slice')
    near = lambda p, q: And(p - q <= 1, q - p <= 1)
    prove(near(r.start.ps, PRE * x), 'starts at the first numeral')
    prove(r.duration is not None and near(r.duration.ps, PRE * (y - x)), 'lasts until the second')


@spec('a range in seconds without an end is open')
def second_open():
    a = Str('a', DECIMAL)
    x = float_(a)
    assume(x >= 0)
    r = ok(lambda: cr.RangeRequest('seconds=' + a + '-').range())
    prove(isinstance(r, TimeSlice) and r.duration is None, 'has no duration')
    prove(And(r.start.ps - PRE * x <= 1, PRE * x - r.start.ps <= 1), 'starts at the first numeral')


@spec('a missing header means the whole resource', each=['none', 'empty'])
def missing(h):
    r = ok(lambda: cr.RangeRequest(None if h == 'none' else '').range())
    prove(type(r) is slice and r.start is None and r.stop is None and r.step is None, 'the whole resource')


@spec('a header without "=" or without "-" after it means the whole resource', each=['plain', 'nodash'])
def malformed(kind):
    if kind == 'plain':
        h = Str('h', without('='))
    else:
        h = Str('u', without('=')) + '=' + Str('v', without('-'))
    r = ok(lambda: cr.RangeRequest(h).range())
    prove(type(r) is slice and r.start is None and r.stop is None and r.step is None, 'the whole resource')


@spec('an unknown unit is rejected', each=['open', 'closed'])
def unit(kind):
    u = Str('unit', without('='))
    assume(And(u != 'bytes', u != 'seconds', u != ''))
    a = Str('a', NUMERAL)
    h = u + '=' + a + '-' + (Str('b', NUMERAL) if kind == 'closed' else '')
    rejects(lambda: cr.RangeRequest(h).range(), cr.RangeUnitUnsupportedException)


def fields(c):
    t = parse_text('(.*) (.*)-(.*)/(.*)$', ok(lambda: str(c)))
    prove(t is not None and not any(isinstance(x, str) for x in t[1:]), 'is written unit start-stop/total')
    return t


def written(c, unit, start, stop, total):
    """the text of c is 'unit start-stop/total'"""
    t = fields(c)
    prove(t[0] == unit, 'names the unit')
    prove(Eq(t[1], start), 'names the start')
    prove(Eq(t[2], stop), 'names the stop')
    prove(Eq(t[3], total), 'names the total')


@spec('content range of a byte slice', each=['closed', 'open'])
def of_slice(kind):
    a, n, b = Int('start', 0), Int('total', 0), Int('stop', 0)
    if kind == 'closed':
        assume(a <= b)
        c = ok(cr.ContentRange.from_slice, slice(a, b), n)
        written(c, 'bytes', a, b, n)
    else:
        written(ok(cr.ContentRange.from_slice, slice(a, None), n), 'bytes', a, n, n)


@spec('content range of a time slice', each=[(k, u) for k in ('closed', 'open') for u in ('ps', 'ms', 's')])
def of_timeslice(kind, u):
    a, d, n = Int('start', 0), Int('duration', 0), Int('total', 0)
    if kind == 'closed':
        c = ok(cr.ContentRange.from_timeslice, TimeSlice(td(d, u), start=td(a, u)), td(n, 'ps'))
        stop = (td(a, u).ps + td(d, u).ps)
    else:
        c = ok(cr.ContentRange.from_timeslice, TimeSlice(start=td(a, u)), td(n, 'ps'))
        stop = n
    t = fields(c)
    prove(t[0] == 'seconds', 'names the unit')
    prove(Eq(t[1] * PRE, td(a, u).ps), 'names the start in seconds')
    prove(Eq(t[2] * PRE, stop), 'names the stop in seconds')
    prove(Eq(t[3] * PRE, n), 'names the total in seconds')


@spec('a content range built directly', each=['closed', 'open'])
def direct(kind):
    a, n, b = Int('start', 0), Int('total', 0), Int('stop', 0)
    if kind == 'closed':
        written(ok(cr.ContentRange, 'bytes', a, n, stop=b), 'bytes', a, b, n)
    else:
        written(ok(cr.ContentRange, 'bytes', a, n), 'bytes', a, n, n)


@spec('the default serializer serves exactly the bytes of the slice', each=['closed', 'open', 'whole'])
def served(kind):
    ser = load('zounds.ui.serializer')
    a, n, b = Int('start', 0), Int('total', 0), Int('stop', 0)
    assume(And(a <= b, a <= n))

    class Flo(object):
        pos = 0
        got = None

        def seek(self, k, whence=0):
            self.pos = k

        def read(self, k=None):
            left = n - self.pos
            k = left if k is None else ite(k < left, k, left)
            self.got = (self.pos, k)
            self.pos = self.pos + k
            return self.got

    class Thing(object):
        def __init__(self, **kw):
            self.__dict__.update(kw)

    flo = Flo()
    feature = Thing(key='k', version='1')
    feature.__class__ = type('F', (Thing,), dict(__call__=lambda self, **kw: flo))
    doc = Thing(_id='d', key_builder=Thing(build=lambda *x: 'key'), database=Thing(size=lambda key: n))
    sl = {'closed': slice(a, b), 'open': slice(a, None), 'whole': slice(None)}[kind]
    r = ok(ser.DefaultSerializer('text/plain').serialize, Thing(document=doc, feature=feature, slce=sl))
    first = 0 if kind == 'whole' else a
    last = ite(b < n, b, n) if kind == 'closed' else n
    prove(And(Eq(r.data[0], first), Eq(r.data[1], last - first)), 'the bytes from the start up to the stop')
    prove(r.is_partial == (kind != 'whole'), 'partial exactly when a range was asked for')
    if kind != 'whole':
        t = fields(r.content_range)
        prove(And(Eq(t[1], a), Eq(t[2], b if kind == 'closed' else n), Eq(t[3], n)), 'the content range names them')
