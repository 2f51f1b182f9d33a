"""Run-time contracts for C12, on real databases in a scratch directory."""
import shutil
import tempfile
import numpy as np
from contextlib import contextmanager
from util import *

from zounds.index.hammingdb import HammingDb


@contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix='c12')
    try:
        yield d + '/db'
    finally:
        shutil.rmtree(d)


def bits(code):
    return np.unpackbits(np.frombuffer(code, dtype=np.uint8))


def distance(a, b):
    return int((bits(a) != bits(b)).sum())


class Model(object):
    def __init__(self):
        self.stored = {}     # data -> code

    def code(self, rng, size):
        kind = rng.randrange(4)
        if kind == 0 and self.stored:
            c = bytearray(rng.choice(sorted(self.stored.values())))
            for _ in range(rng.randrange(4)):
                c[rng.randrange(size)] ^= 1 << rng.randrange(8)
            return bytes(c)
        if kind == 1:
            return bytes(rng.choice([0, 255, 97]) for _ in range(size))
        return bytes(rng.randrange(256) for _ in range(size))

    def data(self, rng):
        d = ('%d' % len(self.stored)) + rng.choice(['', ' é', '\0', 'a' * 40, '\0\0'])
        return d if rng.random() < .5 else d.encode()

    def add(self, db, rng, size):
        code, data = self.code(rng, size), self.data(rng)
        if rng.random() < .2:
            code = ''.join(rng.choice('abAB') for _ in range(size))
        db.append(code, data)
        self.stored[data if isinstance(data, bytes) else data.encode()] = code if isinstance(code, bytes) else code.encode()

    def judge(self, t, query, got, n, sort, case):
        want = min(n, len(self.stored))
        t.expect(len(got) == want, 'as many results as asked for, or all', case, len(got))
        t.expect(len(set(got)) == len(got) and all(g in self.stored for g in got), 'the data of distinct entries', case, got[:4])
        ds = [distance(query, self.stored[g]) for g in got if g in self.stored]
        left = [distance(query, c) for d, c in self.stored.items() if d not in set(got)]
        t.expect(not ds or not left or max(ds) <= min(left), 'no entry left out is nearer', case, (ds, sorted(left)[:4]))
        if sort:
            t.expect(ds == sorted(ds), 'nearest first', case, ds)
        return sorted(ds)


def check_histories(t):
    for _ in t.times(60, 600):
        rng = t.rng
        size = rng.choice([8, 8, 16, 24, 64, 256])
        with scratch() as path:
            handles = [HammingDb(path, code_size=size)]
            m = Model()
            ops = []
            try:
                for _k in range(rng.randint(1, 14)):
                    case = t.current = dict(size=size, ops=list(ops))
                    db = rng.choice(handles)
                    op = rng.randrange(6)
                    if op == 0:
                        ops.append('open')
                        if rng.random() < .3:
                            handles.pop().close()
                        handles.append(HammingDb(path, code_size=rng.choice([size, None]), writeonly=rng.random() < .3))
                        t.expect(handles[-1].code_size == size, 'the code size is kept', case)
                    elif op < 3:
                        k = rng.choice([1, 1, 2, 5, 20])
                        ops.append('append %d on %d' % (k, handles.index(db)))
                        for _j in range(k):
                            m.add(db, rng, size)
                    else:
                        n = rng.choice([0, 1, 2, 3, len(m.stored), len(m.stored) + 1, max(0, len(m.stored) - 1)])
                        query, sort, multi = m.code(rng, size), rng.random() < .5, rng.random() < .5
                        ops.append('search %d on %d sort=%s multithreaded=%s' % (n, handles.index(db), sort, multi))
                        case['ops'] = list(ops)
                        if db.writeonly:
                            t.raises(RuntimeError, lambda: list(db.search(query, n, multi, sort=sort)), 'a write-only handle refuses', case)
                            continue
                        got = list(db.search(query, n, multi, sort=sort))
                        one = m.judge(t, query, got, n, sort, case)
                        two = m.judge(t, query, list(db.search(query, n, not multi, sort=sort)), n, sort, case)
                        t.expect(one == two, 'threads agree', case)
                        if m.stored and rng.random() < .3:
                            c, r = db.random_search(n, multi, sort=sort)
                            t.expect(c in m.stored.values(), 'a stored code is the query', case)
                            m.judge(t, c, list(r), n, sort, case)
                    case['ops'] = list(ops)
                    for h in handles:
                        t.expect(len(h) == len(m.stored), 'all appends are counted', case, len(h))
            finally:
                for h in handles:
                    h.close()


def check_interleaved(t):
    """results drawn while entries are appended"""
    for _ in t.times(15, 100):
        rng = t.rng
        with scratch() as path:
            with HammingDb(path, code_size=8) as db, HammingDb(path, code_size=8) as other:
                m = Model()
                for _k in range(rng.randint(5, 30)):
                    m.add(rng.choice([db, other]), rng, 8)
                before = dict(m.stored)
                query, n = m.code(rng, 8), rng.randint(2, 5)
                case = t.current = dict(entries=len(before), n=n)
                r = db.search(query, n, sort=True)
                got = [next(r)]
                second = db.search(m.code(rng, 8), n)
                next(second)
                for _k in range(3):
                    m.add(rng.choice([db, other]), rng, 8)
                got.extend(r)
                list(second)
                now, m.stored = m.stored, before
                m.judge(t, query, got, n, True, case)
                m.stored = now
                m.judge(t, query, list(db.search(query, n)), n, False, case)


def check_many(t):
    """hundreds of entries"""
    for _ in t.times(1, 4):
        rng, total = t.rng, t.rng.randint(850, 1000)
        with scratch() as path:
            with HammingDb(path, code_size=8) as db:
                m = Model()
                for k in range(total):
                    code = bytes(rng.randrange(256) for _ in range(8))
                    db.append(code, b'%d' % k)
                    m.stored[b'%d' % k] = code
                case = t.current = dict(entries=total)
                t.expect(len(db) == total, 'every append is counted', case, len(db))
                query = m.code(rng, 8)
                m.judge(t, query, list(db.search(query, total, sort=True)), total, True, case)
            with HammingDb(path, code_size=8) as db:
                t.expect(len(db) == total, 'and still is after reopening', case, len(db))
                m.judge(t, query, list(db.search(query, total - 1)), total - 1, False, case)


def check_rejections(t):
    for _ in t.times(15, 60):
        rng = t.rng
        size = rng.choice([8, 16])
        with scratch() as path:
            case = t.current = dict(size=size)
            t.raises(ValueError, lambda: HammingDb(path, code_size=None), 'a new database needs a code size', case)
            t.raises(ValueError, lambda: HammingDb(path, code_size=size + rng.randint(1, 7)), 'whole words only', case)
            for writeonly in (False, True):
                with HammingDb(path, code_size=size, writeonly=writeonly) as db:
                    count = len(db)
                    for bad in (b'', b'a' * (size - 1), b'a' * (size + 1), b'a' * (2 * size), 'a' * (size - 1), 'é' * size):
                        t.raises(ValueError, lambda: db.append(bad, b'data'), 'a code of another size is rejected', case, )
                        t.expect(len(db) == count, 'and not stored', case)
                        if not writeonly and isinstance(bad, bytes):
                            t.raises(ValueError, lambda: list(db.search(bad, 1)), 'nor searched for', case)
                    db.append('é' * (size // 2), b'data %d' % count)
                    t.expect(len(db) == count + 1, 'text is measured as bytes', case)
                t.raises(ValueError, lambda: HammingDb(path, code_size=size + 8), 'another code size is rejected', case)
                with HammingDb(path, code_size=None) as db:
                    t.expect(db.code_size == size and len(db) == count + 1, 'reopened', case)


def check_growth(t):
    """records follow each other when the table in memory has to grow"""
    from zounds.nputil import Growable
    for _ in t.times(20, 100):
        rng = t.rng
        dt = [('id', 'S32'), ('code', np.uint64, 2)]
        g, log = Growable(np.recarray(rng.randint(0, 3), dtype=dt, order='F')), []
        for k in range(rng.randint(1, 20)):
            a = np.recarray(1, dtype=dt)
            a[0]['id'], a[0]['code'] = b'%032d' % k, [k, 2 ** 64 - 1 - k]
            log.append((b'%032d' % k, k, 2 ** 64 - 1 - k))
            g.append(a)
            case = t.current = dict(appended=k + 1)
            d = g.logical_data
            t.expect([(i, int(c[0]), int(c[1])) for i, c in zip(d['id'], d['code'])] == log, 'records are kept', case)
