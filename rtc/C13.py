import numpy as np
from util import *
from zounds.nputil.npx import hamming_distance, packed_hamming_distance, count_bits, count_packed_bits


def ones(w):
    return bin(int(w)).count('1')


def words(t, shape):
    n = int(np.prod(shape))
    kind = t.rng.choice(['any', 'any', 'edge', 'sparse', 'dense', 'ones'])
    r = t.rng
    if kind == 'any':
        v = [r.getrandbits(64) for _ in range(n)]
    elif kind == 'edge':
        v = [r.choice([0, 1, 2 ** 63, 2 ** 64 - 1, 2 ** 32, 2 ** 32 - 1, 0xf0f0f0f0f0f0f0f0, 0xff00ff00ff00ff00]) for _ in range(n)]
    elif kind == 'sparse':
        v = [1 << r.randrange(64) for _ in range(n)]
    elif kind == 'ones':
        v = [2 ** 64 - 1] * n
    else:
        v = [(2 ** 64 - 1) ^ (1 << r.randrange(64)) for _ in range(n)]
    return np.array(v, dtype=np.uint64).reshape(shape)


def layout(t, x):
    """the same array in some memory layout"""
    k = t.rng.choice(['plain', 'plain', 'strided', 'reversed', 'fortran'])
    if k == 'strided':
        y = np.zeros((2 * x.shape[0],) + x.shape[1:], dtype=x.dtype)
        y[::2] = x
        return y[::2]
    if k == 'reversed':
        return np.ascontiguousarray(x[::-1])[::-1]
    if k == 'fortran':
        return np.asfortranarray(x)
    return x


def check_words(t):
    every = np.array([1 << i for i in range(64)] + [(1 << i) - 1 for i in range(65)] + [(2 ** 64 - 1) ^ (1 << i) for i in range(64)], dtype=np.uint64)
    t.current = dict(words='all single bits, runs and their complements')
    t.equal(list(count_bits(every)), [ones(w) for w in every], 'count', t.current)
    for _ in t.times(300, 3000):
        n = t.rng.choice([0, 1, 2, 3, 17, 100] * 20 + [5000])
        x = layout(t, words(t, (n,)))
        case = t.current = dict(words=[int(v) for v in x])
        r = count_bits(x)
        t.equal([int(v) for v in r], [ones(v) for v in x], 'count', case)
        if n < 200:
            t.hold(r, 'count', case)


def check_packed(t):
    for _ in t.times(300, 3000):
        n, w = t.rng.choice([0, 1, 2, 3, 17]), t.rng.choice([0, 1, 2, 3, 4, 5, 9])
        if t.rng.random() < .03:
            n, w = t.rng.choice([(3, 1100), (2000, 2)])
        x = layout(t, words(t, (n, w)))
        case = t.current = dict(words=[[int(v) for v in r] for r in x], shape=x.shape)
        r = count_packed_bits(x)
        t.equal([int(v) for v in r], [sum(ones(v) for v in row) for row in x], 'packed count', case)
        if n < 200:
            t.hold(r, 'packed count', case)


def check_distances(t):
    for _ in t.times(300, 3000):
        n = t.rng.choice([0, 1, 2, 17] * 20 + [3000])
        b = layout(t, words(t, (n,)))
        a = words(t, (1,))[0]
        case = t.current = dict(a=int(a), b=[int(v) for v in b])
        was = b.copy()
        r = hamming_distance(a, b)
        t.equal([int(v) for v in r], [ones(int(a) ^ int(v)) for v in b], 'distance', case)
        t.equal(b, was, 'operand', case)
        if n < 200:
            t.hold(r, 'distance', case)
        w = t.rng.choice([1, 2, 3, 4, 4, 5, 8, 9] * 20 + ([1100] if n < 20 else []))
        b = layout(t, words(t, (n, w)))
        a = words(t, (w,))
        if len(b) and t.rng.random() < .3:
            # rows in which every bit differs, or none does
            b[t.rng.randrange(len(b))] = t.rng.choice([~a, a])
        if t.rng.random() < .5:
            a = a.reshape((1, w))
        case = t.current = dict(a=[int(v) for v in a.ravel()], b=[[int(v) for v in r] for r in b])
        want = [sum(ones(int(x) ^ int(y)) for x, y in zip(a.ravel(), row)) for row in b]
        was = a.copy(), b.copy()
        r = packed_hamming_distance(a, b)
        t.equal([int(v) for v in r], want, 'packed distance', case)
        t.expect(np.array_equal(a, was[0]) and np.array_equal(b, was[1]), 'packed operand', case)
        if n < 200:
            t.hold(r, 'packed distance', case)
