"""Run-time contracts for C16, on the real code."""
import numpy as np
from util import *
import featureflow as ff

from zounds.core import ArrayWithUnits, IdentityDimension
from zounds.timeseries import TimeDimension, Seconds, Milliseconds
from zounds.learn.preprocess import (
    Pipeline, PreprocessResult, Preprocessor, PreprocessingPipeline, UnitNorm, Log, MuLawCompressed, Slicer, Reshape,
    MeanStdNormalization, InstanceScaling, Multiply, Weighted, Op)

KINDS = ('plain', 'units')


def dims(rng, rank):
    return [TimeDimension(Milliseconds(rng.randint(1, 500)))] + [IdentityDimension() for _ in range(rank - 1)]


def data(rng, kind, rank, n=None):
    sh = (n or rng.randint(1, 8),) + tuple(rng.randint(1, 5) for _ in range(rank - 1))
    x = np.random.RandomState(rng.randrange(2 ** 31)).uniform(-1, 1, sh)
    how = rng.random()
    if how < .5:
        x[rng.randrange(sh[0])] = 0
    if how < .2:
        x[:] = 0
    if rank > 1 and rng.random() < .4:
        x[..., rng.randrange(sh[-1])] = rng.choice([0, .25])
    if rank > 1 and rng.random() < .1:
        x[:] = x[:1]
    return ArrayWithUnits(x, dims(rng, rank)) if kind == 'units' else x


def like(x, values):
    return ArrayWithUnits(values, x.dimensions) if isinstance(x, ArrayWithUnits) else values


def a_step(rng, x):
    """a step, and a description of it"""
    kind = rng.choice(['UnitNorm', 'Log', 'MuLawCompressed', 'Reshape', 'MeanStdNormalization', 'InstanceScaling',
                       'Multiply', 'Weighted'])
    if kind == 'Reshape':
        m = int(np.prod(x.shape[1:]))
        new = rng.choice([(m,), (1, m), (m, 1), (-1,)])
        return Reshape(new), 'Reshape(%s)' % (new,)
    if kind == 'InstanceScaling':
        v = rng.choice([1, .5, 32767])
        return InstanceScaling(max_value=v), 'InstanceScaling(%s)' % v
    if kind == 'Multiply':
        v = rng.choice([2, -.5, 100., .001])
        return Multiply(v), 'Multiply(%s)' % v
    if kind == 'Weighted':
        w = rng.choice([.5, -3.0])
        if x.ndim > 1 and rng.random() < .7:
            w = np.random.RandomState(rng.randrange(2 ** 31)).uniform(.5, 2, x.shape[1:])
        return Weighted(w), 'Weighted(%s)' % (np.asarray(w).shape,)
    cls = dict(UnitNorm=UnitNorm, Log=Log, MuLawCompressed=MuLawCompressed, MeanStdNormalization=MeanStdNormalization)[kind]
    return cls(), kind


def trained(step, x):
    return list(step._process(x))[0]


def same_units(a, b):
    if isinstance(b, ArrayWithUnits):
        return isinstance(a, ArrayWithUnits) and list(a.dimensions) == list(b.dimensions)
    return not isinstance(a, ArrayWithUnits)


def check_pipelines(t):
    for _ in t.times(1500, 20000):
        rng = t.rng
        kind, rank = rng.choice(KINDS), rng.choice([1, 2, 2, 3])
        x = data(rng, kind, rank)
        before = np.array(x)
        results, names, y = [], [], x
        for _k in range(rng.randint(0, 4)):
            step, name = a_step(rng, y)
            names.append(name)
            r = trained(step, y)
            results.append(r.for_storage())
            y = results[-1].op(y)
            y = getattr(y, 'output_value', y)
        case = dict(kind=kind, shape=x.shape, steps=names, x=np.array(x).tolist())
        t.current = case
        p = Pipeline(results)
        out = p.transform(x)
        t.expect(np.array_equal(np.array(x), before), 'the data are left as they were', case)
        t.expect(np.shape(out.data) == np.shape(y), 'shape of the transformed data', case, np.shape(out.data))
        t.close(np.array(out.data), np.array(y), 'each step is applied to the output of the one before', case)
        t.expect(np.all(np.isfinite(np.array(out.data))), 'finite', case)
        back = out.inverse_transform()
        t.expect(np.shape(back) == np.shape(x), 'shape restored', case, np.shape(back))
        t.expect(np.allclose(np.array(back), before, rtol=1e-5, atol=1e-7), 'data restored', case, np.array(back).tolist())
        t.expect(same_units(back, x), 'type and units restored', case, type(back).__name__)
        t.close(np.array(out.data), np.array(y), 'the transformed data are left as they were', case)
        t.close(np.array(out.inverse_transform()), np.array(back), 'inverted again', case)


def check_results_alive(t):
    """several results of one pipeline at the same time, inverted in any order"""
    for _ in t.times(200, 2000):
        rng = t.rng
        kind, rank = rng.choice(KINDS), rng.choice([1, 2, 3])
        x = data(rng, kind, rank)
        steps = [rng.choice([UnitNorm, Log, MuLawCompressed, InstanceScaling, lambda: Multiply(3.), lambda: Reshape((-1,))]) for _k in range(rng.randint(1, 3))]
        results, names, y = [], [], x
        for make in steps:
            step = make()
            names.append(type(step).__name__)
            results.append(trained(step, y).for_storage())
            y = results[-1].op(y)
            y = getattr(y, 'output_value', y)
        pipes = [Pipeline(results), Pipeline(results)]
        same = rng.random() < .5
        xs = []
        for _k in range(rng.randint(2, 4)):
            sh = ((x.shape[0] if same else rng.randint(1, 8)),) + x.shape[1:]
            z = np.random.RandomState(rng.randrange(2 ** 31)).uniform(-1, 1, sh) * rng.choice([1, 1, 20, .1])
            xs.append(ArrayWithUnits(z, dims(rng, rank)) if rng.random() < .5 else z)
        case = dict(steps=names, xs=[np.array(z).tolist() for z in xs])
        t.current = case
        outs = [(k, rng.choice(pipes).transform(z)) for k, z in enumerate(xs)]
        firsts = dict((k, np.array(o.data)) for k, o in outs)
        for k, o in rng.sample(outs, len(outs)) + [rng.choice(outs)]:
            back = o.inverse_transform()
            t.expect(np.shape(back) == xs[k].shape and np.allclose(np.array(back), np.array(xs[k]), rtol=1e-5, atol=1e-6 * 20),
                     'each result is inverted to its own data', dict(case, which=k), np.array(back).tolist())
            t.expect(same_units(back, xs[k]), 'each result has its own units', dict(case, which=k), type(back).__name__)
            t.close(np.array(o.data), firsts[k], 'no result is changed by another', dict(case, which=k))


def check_other_data(t):
    """statistics learned on one data set, applied to another"""
    for _ in t.times(600, 8000):
        rng = t.rng
        kind, rank = rng.choice(KINDS), rng.choice([1, 2, 3])
        a = data(rng, kind, rank)
        b = np.random.RandomState(rng.randrange(2 ** 31)).uniform(-1, 1, (rng.randint(1, 6),) + a.shape[1:])
        b = ArrayWithUnits(b, dims(rng, rank)) if kind == 'units' else b
        case = dict(kind=kind, train=np.array(a).tolist(), x=np.array(b).tolist())
        t.current = case
        r = trained(MeanStdNormalization(), a).for_storage()
        more = rng.random() < .5
        rs = [r] + ([trained(UnitNorm(), a).for_storage()] if more else [])
        out = Pipeline(rs).transform(b)
        back = out.inverse_transform()
        mean, std = np.array(a).mean(axis=0), np.array(a).std(axis=0)
        const = std == 0
        want = np.where(const, mean, np.array(b))
        t.expect(np.allclose(np.array(back), want, atol=1e-6), 'restored, constant features to their mean', case, np.array(back).tolist())
        t.expect(same_units(back, b), 'type and units restored', case)
        z = np.array(Pipeline([r]).transform(b).data)
        t.expect(np.all(np.where(const, z, 0) == 0), 'constant features are mapped to zero', case, z.tolist())
        t.expect(np.allclose(np.where(const, 0, z * std + mean), np.where(const, 0, np.array(b)), atol=1e-6), 'centred and scaled', case)


def check_zero_examples(t):
    for _ in t.times(400, 4000):
        rng = t.rng
        kind, rank = rng.choice(KINDS), rng.choice([1, 2, 3])
        x = data(rng, kind, rank)
        i = rng.randrange(len(x))
        x[i] = 0
        # allocate and release memory of the same size, so that uninitialised results show
        for _k in range(4):
            junk = np.full(x.shape, 7.5)
            del junk
        case = dict(kind=kind, x=np.array(x).tolist())
        t.current = case
        for step in (UnitNorm(), InstanceScaling(), Log(), MuLawCompressed()):
            out = Pipeline([trained(step, x).for_storage()]).transform(x)
            t.expect(np.all(np.array(out.data)[i] == 0), type(step).__name__ + ' maps an example of zeros to zero', case, np.array(out.data).tolist())
            t.expect(np.all(np.array(out.inverse_transform())[i] == 0), 'and restores it', case)


def check_slicing(t):
    for _ in t.times(500, 6000):
        rng = t.rng
        kind, rank = rng.choice(KINDS), rng.choice([2, 3])
        x = data(rng, kind, rank)
        n = x.shape[-1]
        a, b = sorted((rng.randint(0, n), rng.randint(0, n)))
        sl = rng.choice([slice(a, b), slice(a, None), slice(None, b), slice(None, None, 2), slice(-2, None), rng.randrange(n)])
        scale = rng.random() < .5
        steps = [trained(Slicer(sl), x).for_storage()]
        if scale:
            steps.insert(0, trained(Multiply(4), x).for_storage())
        exact = not scale and np.array(x)[..., sl]
        case = dict(kind=kind, shape=x.shape, slice=str(sl), scaled=scale)
        t.current = case
        out = Pipeline(steps).transform(x)
        t.close(np.array(out.data), np.array(x)[..., sl] * (4 if scale else 1), 'the slice', case)
        back = out.inverse_transform()
        want = np.zeros(x.shape)
        want[..., sl] = np.array(x)[..., sl]
        t.expect(np.shape(back) == x.shape and np.allclose(np.array(back), want), 'the slice is restored, the rest filled', case)
        if not scale:
            t.expect(np.array_equal(np.array(back)[..., sl], exact), 'the slice is restored exactly', case)
        t.expect(same_units(back, x), 'type and units restored', case)


def check_parts(t):
    for _ in t.times(150, 2000):
        rng = t.rng
        n = rng.randint(0, 5)
        f = [rng.choice([2., 3., 5., -1.]) for _k in range(n)]
        x = np.arange(1., 7.).reshape((3, 2))
        p = Pipeline([trained(Multiply(v), x) for v in f])
        ix = [rng.randrange(-n, n) for _k in range(rng.randint(0, 4))] if n else []
        a, b = rng.choice([None, rng.randint(-6, 6)]), rng.choice([None, rng.randint(-6, 6)])
        case = dict(factors=f, list=ix, slice=(a, b))
        t.current = case
        for sub, want in ((p[a:b], f[a:b]), (p[ix], [f[i] for i in ix])):
            t.equal([q.op.factor for q in sub.processors], want, 'the chosen steps', case)
            r = sub.transform(x)
            t.close(r.data, x * np.prod(want), 'and no others are applied', case)
            t.close(r.inverse_transform(), x, 'or undone', case)
        for i in range(-n, n):
            t.equal(p[i].op.factor, f[i], 'one step', case)



def check_assembly(t):
    """pipelines assembled by a processing graph"""
    for _ in t.times(40, 300):
        rng = t.rng
        n = rng.randint(1, 4)
        nodes = [Preprocessor() for _k in range(n)]
        node = PreprocessingPipeline(needs=tuple(nodes))
        order = list(range(n))
        rng.shuffle(order)
        x = np.ones((2, 3))
        f = [float(k + 2) for k in range(n)]
        case = dict(order=order)
        t.current = case
        for j, k in enumerate(order):
            t.raises(ff.NotEnoughData, node._dequeue, 'no pipeline before all steps are there', case)
            node._enqueue(trained(Multiply(f[k]), x), nodes[k])
        p = node._dequeue()
        t.equal([q.op.factor for q in p.processors], f, 'the steps in the order in which they were given', case)
