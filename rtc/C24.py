"""Executable contract of C24 on the real code: brute force search against an independent ranking"""
import numpy as np
import zounds
from zounds.timeseries import TimeDimension, Seconds, Milliseconds, TimeSlice
from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.index import BruteForceSearch, HammingDistanceBruteForceSearch

STEPS = [(Milliseconds(250), Milliseconds(500)), (Seconds(1), Seconds(1)), (Milliseconds(10), Milliseconds(35))]


def documents(rng, packed):
    out = []
    features = int(rng.integers(1, 4))
    small = rng.random() < 0.8
    for d in range(int(rng.integers(1, 6))):
        n = int(rng.integers(1, 9)) if small else int(rng.integers(20, 150))
        if packed:
            x = rng.integers(0, 2 ** 64, (n, features), dtype=np.uint64)
        else:
            x = rng.normal(0, 1, (n, features))
        if not packed and rng.random() < 0.2:
            x = np.round(x * 50) + 2. ** 30 * rng.integers(-1, 2)     # close together, far from zero: distances are exact
        if rng.random() < 0.3:
            x[:] = x[0]                    # equally distant segments
        f, s = STEPS[rng.integers(len(STEPS))]
        out.append(('doc%d' % d, x, f, s))
    return out, features


def distances(query, x, kind):
    if kind == 'packed':
        return np.array([sum(bin(int(a) ^ int(b)).count('1') for a, b in zip(query, r)) for r in x], dtype=float)
    if kind == 'cityblock':
        return np.abs(query - x).sum(axis=1)
    return np.sqrt(((query - x) ** 2).sum(axis=1))


def judge(t, docs, kind, query, k, results, what):
    rows = np.concatenate([x for _, x, _, _ in docs])
    where = {}
    for _id, x, f, s in docs:
        for i in range(len(x)):
            where[(_id, int((f * i) / np.timedelta64(1, 'ps')), int(s / np.timedelta64(1, 'ps')))] = x[i]
    d = np.sort(distances(query, rows, kind))
    case = {'docs': [(a, len(b), str(c), str(e)) for a, b, c, e in docs], 'kind': kind, 'k': k}
    res = list(results)
    t.expect(len(res) == min(k, len(rows)), what + ':count', case, len(res))
    got, seen = [], set()
    for _id, ts in res:
        key = (_id, int(ts.start / np.timedelta64(1, 'ps')), int(ts.duration / np.timedelta64(1, 'ps')))
        if not t.expect(key in where, what + ':named', case, str(key)):
            return
        t.expect(key not in seen, what + ':twice', case, str(key))
        seen.add(key)
        got.append(distances(query, where[key][None, :], kind)[0])
    t.expect(np.allclose(got, d[:len(got)], atol=1e-9), what + ':ranked', case, '%s for %s' % (got, d[:len(got)]))


def check_search(t):
    for _ in t.times(40, 400):
        rng = np.random.default_rng(t.rng.randrange(2 ** 32))
        np.random.seed(t.rng.randrange(2 ** 32))
        kind = ['euclidean', 'cityblock', 'packed'][int(rng.integers(3))]
        docs, features = documents(rng, kind == 'packed')
        t.current = {'docs': [(a, len(b), str(c), str(e)) for a, b, c, e in docs], 'kind': kind}
        gen = ((a, ArrayWithUnits(x, [TimeDimension(f, s), IdentityDimension()])) for a, x, f, s in docs)
        index = HammingDistanceBruteForceSearch(gen) if kind == 'packed' else \
            BruteForceSearch(gen) if kind == 'euclidean' else BruteForceSearch(gen, distance_metric=kind)
        total = sum(len(x) for _, x, _, _ in docs)
        for k in (0, 1, 3, total // 2, total, total + 2):
            if rng.random() < 0.4:
                d = docs[int(rng.integers(len(docs)))][1]
                query = d[int(rng.integers(len(d)))]
            elif kind == 'packed':
                query = rng.integers(0, 2 ** 64, features, dtype=np.uint64)
            else:
                query = rng.normal(0, 1, features)
            r = index.search(query, n_results=k)
            judge(t, docs, kind, np.asarray(query), k, r, 'search')
            t.expect(np.all(np.asarray(r.query) == query), 'search:query', t.current)
        r = index.random_search(n_results=3)
        judge(t, docs, kind, np.asarray(r.query), 3, r, 'random_search')
        rows = np.concatenate([x for _, x, _, _ in docs])
        t.expect(np.any(np.all(rows == np.asarray(r.query), axis=1)), 'random_search:query', t.current)


def check_several(t):
    """several indexes, some over documents of the same names and lengths but other times, searched in turn; what one
    search found does not change when others are made"""
    for _ in t.times(40, 300):
        rng = np.random.default_rng(t.rng.randrange(2 ** 32))
        np.random.seed(t.rng.randrange(2 ** 32))
        packed = rng.random() < .4
        docs, features = documents(rng, packed)
        pool = []
        for _k in range(int(rng.integers(2, 4))):
            kind = 'packed' if packed else ['euclidean', 'cityblock'][int(rng.integers(2))]
            gen = ((a, ArrayWithUnits(x, [TimeDimension(f, s), IdentityDimension()])) for a, x, f, s in docs)
            index = HammingDistanceBruteForceSearch(gen) if packed else BruteForceSearch(gen, distance_metric=kind)
            pool.append((kind, docs, index))
            docs = [(a, x[::-1].copy() if rng.random() < .5 else x) + STEPS[rng.integers(len(STEPS))] for a, x, _f, _s in docs]
            if rng.random() < .3:
                docs = docs[::-1]
        kept = []
        for _k in range(6):
            kind, docs, index = pool[int(rng.integers(len(pool)))]
            t.current = {'docs': [(a, len(b), str(c), str(e)) for a, b, c, e in docs], 'kind': kind}
            query = rng.integers(0, 2 ** 64, features, dtype=np.uint64) if packed else rng.normal(0, 1, features)
            given = query.copy()
            n = int(rng.integers(1, 6))
            r = index.search(query, n_results=n)
            t.expect(np.array_equal(query, given), 'several:query-changed', t.current)
            found = list(r) if rng.random() < .5 else r        # or read only after other searches
            if found is not r:
                judge(t, docs, kind, query, n, found, 'several')
            kept.append((docs, kind, query, n, r, found))
        for docs, kind, query, n, r, found in kept:
            judge(t, docs, kind, query, n, found, 'several-kept')
            t.expect(np.array_equal(np.asarray(r.query), query), 'several:query', t.current)
