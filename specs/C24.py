"""C24: brute force search ranks all indexed segments and names them correctly"""
import z3
from engine.spec import *
from engine import core, bi, deps

bf = load('zounds.index.brute_force')
npx = load('zounds.nputil.npx')
axis_ = load('zounds.core.axis')
ts_ = load('zounds.timeseries.timeseries')
Identity = load('zounds.core.dimensions').IdentityDimension
td = np.timedelta64
bi.GROWING.add('zounds.index.brute_force')
assumption('scipy.spatial.distance.cdist: entry (i, j) is the distance, under the metric, of row i of the first array and row j of the second')
assumption('every document has at least one segment; all have the same number of features, at least one')


class Documents(object):
    """any number of documents: the d-th has an identifier, segments (rows of features), and a time dimension"""

    def __init__(self, dtype, count=None):
        self.m = Int('documents', 1) if count is None else count
        self.features = Int('features', 1)
        c = core.ctx()
        f = lambda name, k=1, s=z3.IntSort(): z3.Function(c.fresh(name), *([z3.IntSort()] * k + [s]))
        self.id_, self.len_, self.freq_, self.dur_ = f('id'), f('segments'), f('frequency'), f('span')
        self.x = f('x', 3, z3.IntSort() if dtype == 'uint64' else z3.RealSort())
        self.dist_ = f('distance', 2, z3.RealSort())
        self.doc_ = f('document of')
        self.dtype = dtype
        forall_assume(self.m, self.assumed)
        self.gen = bi.SSeq(self.m, lambda d: (self.id(d), self.example(d)), 'gen') if count is None else \
            [(self.id(d), self.example(d)) for d in range(count)]

    def id(self, d): return SInt(self.id_(zint(d)))
    def len(self, d): return SInt(self.len_(zint(d)))
    def freq(self, d): return SInt(self.freq_(zint(d)))
    def dur(self, d): return SInt(self.dur_(zint(d)))
    def dist(self, d, i): return SReal(self.dist_(zint(d), zint(i)))

    def assumed(self, d):
        return And(self.len(d) >= 1, self.freq(d) > 0, self.dur(d) > 0, self.freq(d) < 2 ** 53, self.dur(d) < 2 ** 53)

    def row(self, d, i, f):
        v = self.x(zint(d), zint(i), zint(f))
        return SInt(v) if self.dtype == 'uint64' else SReal(v)

    def example(self, d):
        assume(Implies(And(d >= 0, d < self.m), self.assumed(d)))
        a = mnumpy.lazy((self.len(d), self.features), mnumpy.dtype(self.dtype), lambda ix: self.row(d, ix[0], ix[1]))
        return axis_.ArrayWithUnits(a, [ts_.TimeDimension(td(self.freq(d), 'ps'), td(self.dur(d), 'ps')), Identity()])

    def offset(self, d):
        """segments of the documents before document d"""
        return mnumpy.running(self.m, self.len).at(d)

    def segment(self, p):
        """the segment at position p, counting through the documents in order"""
        d = SInt(self.doc_(zint(p)))
        off, after = self.offset(d), self.offset(d + 1)
        core.ctx().add(z3.Implies(zbool(And(p >= 0, p < self.offset(self.m))), zbool(And(d >= 0, d < self.m, off <= p, p < after))))
        return d, p - off

    def inside(self, d, i):
        return And(d >= 0, d < self.m, i >= 0, i < self.len(d))

    def is_row(self, a, at, d, i):
        return Eq(a._get(at), self.row(d, i, at[-1]))


class Search(object):
    """the metric, through the contract of whoever computes the distances"""

    def __init__(self, docs, kind):
        self.docs, self.kind = docs, kind
        self.query = np.symarray('query', (docs.features,), docs.dtype)

    def build(self):
        bf.cdist = lambda a, b, metric='euclidean', **k: self.cdist(a, b, metric)
        deal = lambda a, b: self.packed(a, b)
        by_contract(bf, 'packed_hamming_distance', deal, 'C13')
        if self.kind == 'cdist':
            s = ok(bf.BruteForceSearch, self.docs.gen, self.metric)
        elif self.kind == 'euclidean':
            s = ok(bf.BruteForceSearch, self.docs.gen)
        else:
            s = ok(bf.HammingDistanceBruteForceSearch, self.docs.gen)
        return s

    metric = 'cosine'

    def is_query(self, a, at):
        prove(Eq(a._get(at), self.query._get((at[-1],))), 'the distances are those of the query')

    def distances(self, b):
        """contract of the metric: the distance of every row of b, which has to be the segments of all documents in order"""
        docs, n = self.docs, b.shape[0]
        prove(Eq(n, docs.offset(docs.m)), 'all segments are compared')
        p, f = fresh_int('p', 0, n), fresh_int('feature', 0, docs.features)
        prove(Eq(b._get((p, f)), docs.row(*docs.segment(p), f)), 'the segments of the documents in order')
        return n, lambda j: docs.dist(*docs.segment(j))

    def cdist(self, a, b, metric):
        prove(metric == ('euclidean' if self.kind == 'euclidean' else self.metric), 'the metric asked for')
        if isinstance(a, bi.SSeq) or not isinstance(a, mnumpy.ndarray) or a.ndim != 2 or b.ndim != 2:
            raise Unsupported('cdist of other than two tables')
        prove(And(Eq(a.shape[0], 1), Eq(a.shape[1], self.docs.features), Eq(b.shape[1], self.docs.features)), 'one query, and the same features on both sides')
        f = fresh_int('feature', 0, self.docs.features)
        self.is_query(a, (0, f))
        n, one = self.distances(b)
        return mnumpy.lazy((1, n), mnumpy.dtype('float64'), lambda ix: one(ix[1]))

    def packed(self, a, b):
        if not isinstance(a, mnumpy.ndarray) or a.ndim != 1 or b.ndim != 2:
            return Ellipsis
        f = fresh_int('feature', 0, self.docs.features)
        self.is_query(a, (f,))
        n, one = self.distances(b)
        return mnumpy.lazy((n,), mnumpy.dtype('float64'), lambda ix: one(ix[0]))

    def judge(self, k, results, aspect):
        docs = self.docs
        rs = results.results if isinstance(results.results, bi.SSeq) else bi.as_sseq(list(results))
        total, got = docs.offset(docs.m), len_(rs)
        prove(Eq(got, ite(k < total, k, total)), 'k results, or all segments if there are fewer')
        r, q = Int('r', 0), Int('q', 0)
        assume(And(r < got, q < got))
        if aspect == 'names':
            return self.named(rs, r, True)
        rp, rd = self.named(rs, r)
        if aspect == 'order':
            qp, qd = self.named(rs, q)
            prove(Implies(r <= q, rd <= qd), 'nearest first')
            prove(Implies(Not(Eq(r, q)), Not(Eq(rp, qp))), 'no segment twice')
        else:
            s = Int('segment', 0)
            assume(s < total)
            found = False
            for w in reversed(positions(s, back=True, depth=1)):
                found = Or(found, And(w >= 0, w < got, Eq(self.named(rs, w)[0], s)))
                if mnumpy.entails(zbool(Or(rd <= docs.dist(*docs.segment(s)), found))):
                    break
            prove(Or(rd <= docs.dist(*docs.segment(s)), found), 'no segment left out is nearer')

    def named(self, rs, t, check=False):
        """the position of the segment a result names, and its distance"""
        docs = self.docs
        for p in positions(t):
            d, i = docs.segment(p)
            _id, ts = rs.get(t)
            right = [And(p >= 0, p < docs.offset(docs.m)), Eq(_id, docs.id(d)), Eq(ts.start.ps, docs.freq(d) * i), Eq(ts.duration.ps, docs.dur(d))]
            if all(mnumpy.entails(z3.Implies(z3.And(zint(t) >= 0, zint(t) < zint(len_(rs))), zbool(c))) for c in right[:2]):
                if check:
                    for c, what in zip(right[1:], ('the identifier of its document', 'its start in that document', 'its duration')):
                        prove(c, 'every result has %s' % what)
                return p, docs.dist(d, i)
        raise Unsupported('which segment a result names')


ASPECTS = ['names', 'order', 'nearest']


@spec('search', each=[(k, a) for k in ('cdist', 'euclidean', 'packed') for a in ASPECTS], seconds=150)
def search(kind, aspect):
    s = Search(Documents('uint64' if kind == 'packed' else 'float64'), kind)
    index = s.build()
    k = Int('k', 0)
    r = ok(index.search, s.query, n_results=k)
    s.judge(k, r, aspect)
    cover('ranked')


@spec('a random segment as the query', each=['cdist', 'packed'], seconds=100)
def random_query(kind):
    docs = Documents('uint64' if kind == 'packed' else 'float64')
    s = Search(docs, kind)
    index = s.build()
    picked = []

    def choice(rows):
        """contract of random.choice: any element"""
        picked.append(fresh_int('picked', 0, len_(rows)))
        return rows[picked[-1]]
    by_patch(bf, "choice", choice)
    told = []

    def search(self, query, n_results=10):
        if self is not index:
            return Ellipsis
        told.append((query, n_results))
        return told
    by_contract(type(index), 'search', search, 'search')
    k = Int('k', 0)
    r = ok(index.random_search, n_results=k)
    prove(r is told and len(told) == 1 and len(picked) == 1, 'one search')
    if r is not told or len(picked) != 1:
        return
    query, n = told[0]
    f = Int('feature', 0)
    assume(f < docs.features)
    prove(Eq(n, k), 'for as many results as asked')
    prove(len(query.shape) == 1 and Eq(query.shape[0], docs.features), 'a query of the same features')
    prove(Eq(query._get((f,)), docs.row(*docs.segment(picked[0]), f)), 'an indexed segment is the query')
