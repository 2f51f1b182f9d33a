from util import *
import numpy as np
from zounds.loudness import mu_law, inverse_mu_law, log_modulus, inverse_log_modulus, instance_scale, unit_scale
from zounds.nputil import safe_log, safe_unit_norm

PAIRS = [('mu-law', mu_law, inverse_mu_law), ('log-modulus', log_modulus, inverse_log_modulus)]


def values(t, shape, scales=True):
    k = t.rng.choice(['unit', 'wide', 'edge', 'tiny', 'ints'] + ['scales'] * scales)
    if k == 'unit':
        return t.np_rng.uniform(-1, 1, shape)
    if k == 'wide':
        return t.np_rng.uniform(-50, 50, shape)
    if k == 'scales':
        return t.np_rng.uniform(-1, 1, shape) * 10.0 ** t.rng.choice([-12, -9, -6, 0, 3])
    if k == 'tiny':
        return t.np_rng.uniform(-1e-3, 1e-3, shape)
    if k == 'ints':
        return t.np_rng.randint(-3, 4, shape).astype(float)
    return t.np_rng.choice([-1.0, 0.0, 1.0, .5, -.5, 0.0], shape)


def check_companding(t):
    for _ in t.times(400, 4000):
        shape = tuple(t.rng.randint(1, 6) for _ in range(t.rng.randint(1, 3)))
        x = values(t, shape, False)
        name, f, g = t.rng.choice(PAIRS)
        a = () if name == 'log-modulus' or t.rng.random() < .4 else (t.rng.choice([1, 255, .5, 1e-2, 1e4]),)
        case = t.current = dict(function=name, x=x.tolist(), mu=list(a))
        b = x.copy()
        y = f(x, *a)
        t.expect(np.array_equal(x, b), 'input-modified', case)
        t.expect(y.shape == x.shape and np.array_equal(np.sign(y), np.sign(x)), 'sign', case)
        t.expect(np.allclose(f(-x, *a), -y, atol=1e-9), 'odd', case)
        t.hold(y, 'companded', case)
        c = y.copy()
        t.expect(np.allclose(g(y, *a), x, atol=1e-8, rtol=1e-6), 'inverse', case)
        t.expect(np.array_equal(y, c), 'inverse-input-modified', case)
        flat = np.sort(np.unique(x))
        fy = f(flat, *a)
        t.expect(np.all(np.diff(fy)[np.diff(flat) > 1e-9] > 0), 'increasing', case)
        if name == 'mu-law':
            t.expect(np.array_equal(np.abs(y) <= 1 + 1e-12, np.abs(x) <= 1 + 1e-12), 'range', case)
            t.expect(abs(f(np.array([1.0]), *a)[0] - 1) < 1e-12, 'one', case)
        v = float(x.flat[0])
        t.expect(np.isclose(f(v, *a), y.flat[0]) and np.isclose(g(float(y.flat[0]), *a), v, atol=1e-8), 'number', case)


def check_scaling(t):
    for _ in t.times(400, 4000):
        shape = tuple(t.rng.randint(1, 5) for _ in range(t.rng.randint(1, 3)))
        x = values(t, shape)
        if t.rng.random() < .3:
            x[...] = t.rng.choice([0.0, 2.0, -3.0])
        b = x.copy()
        axis = t.rng.randint(-len(shape), len(shape) - 1)
        case = t.current = dict(x=x.tolist(), axis=axis)
        r = instance_scale(x, axis=axis)
        mx, r2 = instance_scale(x, axis=axis, return_maxes=True)
        t.hold(r, 'instance', case)
        t.hold(mx, 'instance-maxes', case)
        t.expect(np.array_equal(r, r2) and np.array_equal(mx, np.abs(x).max(axis=axis, keepdims=True)), 'instance-maxes', case)
        t.expect(np.all(np.abs(r) <= 1) and np.array_equal(np.sign(r), np.sign(x)), 'instance-range', case)
        for a in (None, axis):
            u = unit_scale(x, axis=a)
            t.hold(u, 'unit', case)
            lo, hi = x.min(axis=a, keepdims=True), x.max(axis=a, keepdims=True)
            t.expect(u.shape == x.shape and np.all(np.isfinite(u)) and np.all(u >= 0) and np.all(u <= 1), 'unit-range', dict(case, unit_axis=a))
            t.expect(np.allclose(u * (hi - lo), x - lo), 'unit-scale', dict(case, unit_axis=a))
            t.expect(np.all(u[np.broadcast_to(lo == hi, x.shape)] == 0), 'unit-constant', dict(case, unit_axis=a))
        t.expect(np.array_equal(x, b), 'input-modified', case)


def check_safe(t):
    for _ in t.times(400, 4000):
        shape = tuple(t.rng.randint(1, 5) for _ in range(t.rng.randint(1, 3)))
        x = values(t, shape)
        if t.rng.random() < .4:
            x.reshape(-1, shape[-1])[t.rng.randrange(int(np.prod(shape[:-1])))] = 0
        b = x.copy()
        case = t.current = dict(x=x.tolist())
        u = safe_unit_norm(x)
        t.hold(u, 'unit-norm', case)
        n = np.sqrt((x * x).sum(axis=-1, keepdims=True))
        length = np.sqrt((u * u).sum(axis=-1, keepdims=True))
        t.expect(np.allclose(length[n > 0], 1), 'unit-length', case)
        t.expect(u.shape == x.shape and np.allclose(u * n, x) and np.all(u[np.broadcast_to(n == 0, x.shape)] == 0), 'unit-norm', case)
        if np.any(x < 0):
            t.raises(ValueError, lambda: safe_log(x), 'negative', case)
        y = np.abs(x)
        y.flat[0] = 0
        t.expect(np.all(np.isfinite(safe_log(y))) and np.allclose(safe_log(y), np.log(y + 1e-12)), 'safe-log', case)
        t.expect(np.array_equal(x, b), 'input-modified', case)
