"""Spec registry: what a spec module uses, and how one spec is executed."""
import builtins
import collections
import copy
import functools
import os
import re
import traceback
import types

import numpy as _real

from . import core, bi, loader, mnumpy, strings, deps
from .strings import Str, SStr, text, parse_text, NUMERAL, DECIMAL, without
from .core import (Int, Real, Bool, BV, And, Or, Not, Implies, Iff, Eq, assume, prove, cover, fresh_int, fresh_real,
                   choose, R, Unsupported, PathDone, ite, wrap, zint, zreal, zbool, SInt, SReal, SBool, is_sym,
                   assumption, trust, isnum)

mnumpy.setup()
np = mnumpy

SPECS = {}
ENGINE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(ENGINE)


class Spec(object):
    def __init__(self, name, fn, paths, seconds, params):
        self.name, self.fn, self.paths, self.seconds, self.params = name, fn, paths, seconds, params


def spec(name, paths=2000, seconds=60, each=None, tier='quick'):
    """register a spec; `each` lists concrete variants (enumerated exactly: units, ranks, ...)"""
    def deco(fn):
        if tier == 'thorough' and os.environ.get('VERIF_THOROUGH') != '1':
            return fn
        for v in (each or [()]):
            nm = name if v == () else '%s[%s]' % (name, v if isinstance(v, str) else ','.join(map(str, v)) if isinstance(v, tuple) else v)
            SPECS[nm] = Spec(nm, fn if v == () else (lambda f=fn, v=v: f(*v) if isinstance(v, tuple) else f(v)),
                             paths, seconds, v)
        return fn
    return deco


class Raised(object):
    def __init__(self, e):
        self.e = e

    def is_(self, *types):
        return isinstance(self.e, types)


MODELLED = (ValueError, IndexError, ZeroDivisionError, OverflowError)


def engine_fault(e):
    """an exception that comes from the engine's own limits rather than from the code"""
    tb = traceback.extract_tb(e.__traceback__)
    if tb and tb[-1].filename.startswith(ENGINE):
        return tb[-1].filename.endswith('nl.py') or not isinstance(e, MODELLED) and not getattr(e, 'modelled', False)
    return not getattr(e, 'modelled', False) and not_modelled(e)


NUMBERS = ('SInt', 'SReal', 'SBool', 'ndarray')
NAMES = {}


def engine_names():
    if not NAMES:
        for m in (bi, core, mnumpy, strings, deps):
            for k, v in list(vars(m).items()):
                if isinstance(v, type) and v.__module__.startswith('engine'):
                    NAMES[v.__name__] = v
                    for f in vars(v).values():
                        f = getattr(f, '__func__', f)
                        if isinstance(f, types.FunctionType):
                            NAMES[f.__qualname__] = f
                elif isinstance(v, types.FunctionType) and v.__module__.startswith('engine'):
                    NAMES[v.__qualname__] = v
    return NAMES


def not_modelled(e):
    """the code asked a model for something that it lacks and the real thing may have"""
    if isinstance(e, AttributeError) and getattr(e, 'name', None):
        o = e.obj
        if isinstance(o, types.ModuleType):
            return o is mnumpy or o in [v for v in loader.EXTERNAL.values()]
        if type(o) in (SInt, SReal, SBool):
            return e.name in REAL['scalar']
        if isinstance(o, mnumpy.ndarray):
            return e.name in REAL['ndarray']
        t = o if isinstance(o, type) else type(o)
        return t.__module__.startswith('engine')
    if isinstance(e, TypeError):
        m = re.match(r'([\w.<>]+)\(\) (got|missing|takes|keywords)', str(e))
        if m and m.group(1) in engine_names():
            return True
        return any(n in engine_names() and n not in NUMBERS for n in re.findall(r"'(\w+)'", str(e)))
    return False


STATEFUL = set()       # (names of) classes whose operations are specified to change them
MEMO = {'_bands', '_starts', '_stops'}     # None, or what the accessor of that name computes (an invariant of the class)


def stateful(*names):
    STATEFUL.update(names)


def _owned(o):
    t = type(o)
    return not isinstance(o, type) and any((c.__module__ or '').startswith('zounds') for c in t.__mro__) and not any(
        c.__name__ in STATEFUL or c.__name__ == 'Node' for c in t.__mro__)


def _reach(roots):
    """the objects of the code under contract that can be reached"""
    seen, found, todo = set(), [], [(r, 0) for r in roots]
    while todo:
        o, d = todo.pop()
        if id(o) in seen or d > 6:
            continue
        seen.add(id(o))
        if type(o) in (list, tuple, set) and builtins.len(o) < 50:
            todo.extend((x, d + 1) for x in builtins.list(o))
        elif type(o) is dict and builtins.len(o) < 50:
            todo.extend((x, d + 1) for x in builtins.list(o.values()))
        elif isinstance(o, types.MethodType):
            todo.append((o.__self__, d))
        elif isinstance(o, types.FunctionType):
            if d < 3:
                todo.extend((c.cell_contents, d + 1) for c in o.__closure__ or () if _filled(c))
        elif _owned(o):
            found.append(o)
            todo.extend((x, d + 1) for x in builtins.list(getattr(o, '__dict__', {}).values()))
    return found


def _filled(c):
    try:
        c.cell_contents
        return True
    except ValueError:
        return False


def _state(o):
    """the attributes of o, and what its containers hold"""
    r = {}
    for k, v in vars(o).items():
        held = None
        if type(v) is dict:
            held = [(id(x), id(y)) for x, y in v.items()]
        elif type(v) in (list, set):
            held = [id(x) for x in v]
        r[k] = (v, held)
    return r


def _frame(before):
    """the frame condition: what is not specified to change has not changed"""
    for o, old in before:
        new = _state(o)
        for k in set(new) | set(old):
            if k not in old:
                raise Unsupported('frame: %s gets a new attribute %s, so one call does not stand for any sequence of calls' % (type(o).__name__, k))
            if k in MEMO and old[k][0] is None:
                continue
            if k not in new or new[k][0] is not old[k][0] or new[k][1] != old[k][1]:
                raise Unsupported('frame: %s.%s is changed, so one call does not stand for any sequence of calls' % (type(o).__name__, k))
    if before:
        o = core.R.ob(core.R.spec + ': frame: the objects it is given keep their state')
        o.paths += 1
        o.proved += 1
        o.backends['frame'] = o.backends.get('frame', 0) + 1


CODE = (types.FunctionType, types.BuiltinFunctionType, types.ModuleType, type, property, staticmethod, classmethod,
        types.MemberDescriptorType, types.GetSetDescriptorType, types.MappingProxyType)
SHARED = (dict, list, set, collections.deque)


def _namespaces():
    """the global state of the code under contract: its modules and classes, and the containers they and their functions hold"""
    spaces, held = [], {}

    def look(v, d=0):
        if isinstance(v, SHARED):
            held.setdefault(id(v), v)
        elif isinstance(v, functools._lru_cache_wrapper):
            held.setdefault(id(v), v)
        elif isinstance(v, (staticmethod, classmethod)):
            look(v.__func__, d)
        elif isinstance(v, property):
            look(v.fget, d)
        elif isinstance(v, types.FunctionType) and d < 3:
            for x in (v.__defaults__ or ()) + tuple((v.__kwdefaults__ or {}).values()) + tuple(
                    c.cell_contents for c in v.__closure__ or () if _filled(c)):
                look(x, d + 1)
            if v.__dict__:
                look(v.__dict__)
    for name, m in list(loader.MODULES.items()):
        if not name.startswith('zounds'):
            continue
        spaces.append(m)
        for v in list(vars(m).values()):
            if isinstance(v, type) and (v.__module__ or '').startswith('zounds'):
                spaces.append(v)
                for x in list(vars(v).values()):
                    look(x)
            elif not isinstance(v, types.FunctionType) or (v.__module__ or '').startswith('zounds'):
                look(v)
    return spaces, held


def _content(v):
    if isinstance(v, functools._lru_cache_wrapper):
        return v.cache_info().currsize
    if isinstance(v, dict):
        return [(id(x), id(y)) for x, y in v.items()]
    return [id(x) for x in v]


def _plain(ns):
    return {k: v for k, v in vars(ns).items() if not k.startswith('__') and not isinstance(v, CODE + (functools._lru_cache_wrapper,))}


class Globals(object):
    """module and class variables are as they were after every path, or the specification is not decided"""

    def __init__(self):
        self.known, self.spaces, self.held = set(), [], []

    def learn(self):
        if len(loader.MODULES) == len(self.known):
            return
        self.known = set(loader.MODULES)
        spaces, held = _namespaces()
        self.spaces = [(ns, _plain(ns)) for ns in spaces]
        self.held = [(v, copy.copy(v), _content(v)) for v in held.values()]

    def check(self):
        wrong = None
        for v, old, content in self.held:
            if _content(v) == content:
                continue
            wrong = 'a shared %s is changed' % type(v).__name__
            if isinstance(v, functools._lru_cache_wrapper):
                v.cache_clear()
                continue
            v.clear()
            (v.extend if isinstance(v, (list, collections.deque)) else v.update)(old)
        for ns, old in self.spaces:
            new = _plain(ns)
            for k in set(new) | set(old):
                if k in old and k in new and old[k] is new[k]:
                    continue
                if k not in old and isinstance(ns, types.ModuleType):
                    continue        # a name bound by an import
                wrong = 'the variable %s of %s is changed' % (k, ns.__name__)
                if k in old:
                    setattr(ns, k, old[k])
                else:
                    delattr(ns, k)
        return wrong


def run(f, *a, **k):
    """call code under contract; an exception becomes a Raised value"""
    before = [(o, _state(o)) for o in _reach([f, a, k])]
    try:
        r = f(*a, **k)
        if not isinstance(r, types.GeneratorType):
            _frame(before)
        return r
    except Exception as e:
        if engine_fault(e):
            raise Unsupported('engine: %s: %s%s' % (type(e).__name__, e, _at(e)))
        return Raised(e)


def _at(e):
    tb = traceback.extract_tb(e.__traceback__)
    code = [f for f in tb if not f.filename.startswith(ROOT + os.sep)]
    s = ''
    if tb:
        s += ' at %s:%d' % (os.path.basename(tb[-1].filename), tb[-1].lineno)
    if code:
        s += ' (from %s:%d)' % (code[-1].filename, code[-1].lineno)
    return s


def ok(f, *a, **k):
    """call code under contract that must return normally under the stated preconditions"""
    r = run(f, *a, **k)
    if isinstance(r, Raised):
        prove_detail(False, 'returns normally', '%s: %s%s' % (type(r.e).__name__, str(r.e)[:200], _at(r.e)))
    else:
        prove(True, 'returns normally')
    return r


def prove_detail(cond, name, detail):
    o = core.R.ob(core.R.spec + ': ' + name)
    n = len(o.refuted)
    try:
        prove(cond, name)
    finally:
        if len(o.refuted) > n:
            v, d = o.refuted[-1]
            o.refuted[-1] = (v, str(detail) + ' | ' + d)


def rejects(f, types, *a, **k):
    name = k.pop('_name', 'rejected')
    r = run(f, *a, **k)
    prove_detail(isinstance(r, Raised) and isinstance(r.e, types), name,
                 'raised %r' % (r.e,) if isinstance(r, Raised) else 'returned %s' % type(r).__name__)


def fork(cond):
    """the path condition decides cond on each path"""
    return builtins.bool(cond)


def same(a, b):
    """syntactically the same value"""
    if is_sym(a) or is_sym(b):
        import z3
        return z3.simplify(core.znum(a)).eq(z3.simplify(core.znum(b)))
    return a == b


REAL = {'scalar': set(dir(_real.float64)) | set(dir(_real.int64)), 'ndarray': set(dir(_real.ndarray))}
PATCHED = []


def by_patch(owner, name, value):
    """for the rest of this path, owner.name is value (an assumed contract)"""
    PATCHED.append((owner, name, vars(owner)[name]))
    setattr(owner, name, value)


def by_contract(owner, name, contract, where):
    """callers are checked against the contract of owner.name (discharged by the spec named in `where`) instead of its
    body: contract(original, *args) returns the promised result, or Ellipsis when the call is outside the contract, in
    which case the body is executed"""
    orig = owner.__dict__[name]

    def stub(*a, **k):
        r = contract(*a, **k)
        if r is Ellipsis:
            return orig(*a, **k)
        core.assumption('%s.%s: callers in this spec use its contract, discharged by "%s"' % (owner.__name__, name, where))
        return r
    PATCHED.append((owner, name, orig))
    setattr(owner, name, stub)


def hashed(x):
    """the numbers hash(x) is computed from, in order"""
    c = core.ctx()
    c.hashed = []
    try:
        r = builtins.hash(x)
        return c.hashed + [r] if not c.hashed else c.hashed
    finally:
        c.hashed = None


def state_is(obj, *attrs):
    """the specification puts obj into an arbitrary state through exactly these attributes"""
    got = set(vars(obj))
    missing = [a for a in attrs if a not in got]
    if missing:
        raise Unsupported('the representation of %s has changed: no attribute %s' % (type(obj).__name__, ', '.join(missing)))


def execute(sp, timeout_scale=1.0):
    """run one spec in this process; returns a plain dict"""
    done = []

    def body():
        try:
            sp.fn()
            if not done and core.feasible() != core.z3.unsat:
                done.append(True)
        except PathDone:
            raise
        except Exception as e:
            if engine_fault(e) or traceback.extract_tb(e.__traceback__)[-1].filename.startswith(os.path.join(ROOT, 'specs')):
                raise Unsupported('engine: %s: %s%s' % (type(e).__name__, e, _at(e)))
            prove_detail(False, 'no unexpected exception', '%s: %s%s' % (type(e).__name__, str(e)[:200], _at(e)))
        finally:
            while PATCHED:
                setattr(*PATCHED.pop())
            wrong = shared.check()
            shared.learn()
            if wrong:
                raise Unsupported('frame: %s, so one call does not stand for any sequence of calls' % wrong)
    shared = Globals()
    shared.learn()
    core.explore(body, sp.name, sp.paths, sp.seconds * timeout_scale)
    if not done and not R.undecided and not any(o.refuted for o in R.obligations.values()):
        R.undecided.append((sp.name, 'no feasible path reaches the end of the specification'))
    obs = {}
    for n, o in R.obligations.items():
        obs[n] = dict(paths=o.paths, proved=o.proved, backends=o.backends, refuted=o.refuted[:5], nrefuted=len(o.refuted),
                      unknown=o.unknown[:5], nunknown=len(o.unknown), time=round(o.time, 3))
    return dict(spec=sp.name, obligations=obs, functions=sorted(R.functions), trusted=sorted(R.trusted),
                assumptions=sorted(R.assumptions), undecided=R.undecided, covers=R.covers, queries=R.queries,
                paths=R.paths, solver_time=round(R.solver_time, 3), loops=sorted(R.loops_cut))


def load(name):
    try:
        return loader.load(name)
    except Exception as e:
        if core.C is None:
            raise
        raise Unsupported('loading %s: %s: %s' % (name, type(e).__name__, e))


def len_(s):
    """length of a possibly symbolic sequence"""
    if isinstance(s, bi.SSeq):
        return s.length
    if isinstance(s, mnumpy.ndarray):
        return s.shape[0]
    f = type(s).__dict__.get('__len__')
    return builtins.len(s) if f is None or not type(f) is types.FunctionType else f(s)


def item(s, i):
    """element i (known to be in range) of a possibly symbolic sequence"""
    if isinstance(s, bi.SSeq):
        return s.get(i)
    if isinstance(s, mnumpy.ndarray):
        return s._get((i,)) if s.ndim == 1 else s[i]
    if is_sym(i):
        for k in range(builtins.len(s) - 1):
            if i == k:
                return s[k]
        return s[-1]
    return s[i]


def _apps(z, v, out):
    import z3
    if z3.is_app(z):
        if z.decl().kind() == z3.Z3_OP_UNINTERPRETED and any(z.arg(k).eq(v) for k in range(z.num_args())):
            if not any(z.eq(o) for o in out):
                out.append(z)
        for k in range(z.num_args()):
            _apps(z.arg(k), v, out)
    return out


def forall_assume(n, fn, pairs=False):
    """assume fn(k) for all 0 <= k < n, or fn(j, k) for all 0 <= j < k < n"""
    import z3
    c = core.ctx()
    vs = [z3.Int(c.fresh('q')) for _ in range(2 if pairs else 1)]
    lo, hi = vs[0], vs[-1]
    rng = z3.And(lo >= 0, hi < zint(n), *([lo < hi] if pairs else []))
    body = core.under(rng, lambda: fn(*[SInt(v) for v in vs]))
    apps = [_apps(body, v, []) for v in vs]
    if not all(apps):
        raise Unsupported('no trigger for a quantified assumption')
    pats = [z3.MultiPattern(*[a[0] for a in apps])] if pairs else [a for a in apps[0]]
    c.add(z3.ForAll(vs, z3.Implies(rng, body), patterns=pats))


def positions(i, back=False, depth=2):
    """candidate positions for element i before (or, with back, after) the sortings and selections made on this path"""
    out = [i]
    level = [i]
    for _ in range(depth):
        level = [SInt(m[1 if back else 0](zint(t))) for t in level for m in core.ctx().maps]
        out += level
    return out


def some(cs):
    """one of the conditions holds: the first one that is entailed, else their disjunction"""
    cs = list(cs)
    for c in cs:
        if c is True or is_sym(c) and mnumpy.entails(zbool(c)):
            return c
    return Or(*cs)


def borrow(name):
    """the definitions of another spec module, without its specs"""
    import importlib
    import sys
    kept, loaded = dict(SPECS), 'specs.' + name in sys.modules
    m = importlib.import_module('specs.' + name)
    if not loaded:
        SPECS.clear()
        SPECS.update(kept)
    return m
