"""Loads the real zounds sources from /repo with a mechanical instrumentation.

The instrumentation (all of it):
  * a call f(...) where f is a plain name is compiled as __bi__(f)(...): builtins
    that must see symbolic values (len, int, min, range, sorted, ...) are mapped,
    by identity, to engine versions; anything else is called unchanged;
  * a comprehension with one generator is compiled as
    __comp__(kind, iterable, element-function, filter-function), which is the same
    comprehension unless the iterable is a symbolic sequence;
  * a generator function that only maps (and filters) one iterable,
    [with CM as v:] for x in IT: [assignments;] [if C:] yield E, is compiled as that generator expression;
  * a for loop iterates over __loop__(iterable, ...), which is the iterable itself
    unless it is symbolic, in which case the loop is cut with its contract;
  * a while loop likewise asks __wloop__;
  * a for loop that only assigns local names and adds elements to lists (and nested such loops) may, over a symbolic
    sequence, be run once for an arbitrary element (__collect__): what it adds is then the concatenation of what each
    element adds;
  * an empty list literal in a module whose lists grow symbolically is an engine list (__list__);
  * each function starts with __enter__('qualified name') (records what ran);
  * `except:` is compiled as `except Exception:`;
  * `float`/`int` as a base class is replaced by an engine base class.
Dropped: docstrings' effects none; decorators, classes, closures, generators and
exceptions are CPython's own.
"""
import ast
import builtins
import copy
import os
import sys
import types

from . import core
from .core import Unsupported

REPO = os.environ.get('ZOUNDS_REPO', '/repo')
VENV = '/opt/venv/lib/python3.12/site-packages'

MODULES = {}
EXTERNAL = {}          # name -> module object or factory
SOURCE_LINES = {}


class OpaqueType(type):
    def __getattr__(cls, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return OpaqueType(k, (Opaque,), {'__module__': cls.__module__})


class Opaque(object, metaclass=OpaqueType):
    """something the engine does not interpret"""

    def __init__(self, *a, **k):
        pass

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('opaque dependency attribute %s' % k)


class OpaqueModule(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        t = OpaqueType(k, (Opaque,), {'__module__': self.__name__})
        setattr(self, k, t)
        return t


class LazyPackage(types.ModuleType):
    """A package whose __init__ names are resolved on demand."""

    def __init__(self, name, path):
        super(LazyPackage, self).__init__(name)
        self.__dict__['__path__'] = [path]
        self.__dict__['_names'] = None
        self.__dict__['_dir'] = path

    def _index(self):
        if self.__dict__['_names'] is None:
            names = {}
            stars = []
            init = os.path.join(self._dir, '__init__.py')
            if os.path.exists(init):
                tree = ast.parse(open(init).read())
                body = []
                for node in tree.body:
                    body += node.body if isinstance(node, ast.Try) else [node]
                for node in body:
                    if isinstance(node, ast.ImportFrom):
                        mod = resolve(self.__name__, True, node.module, node.level)
                        for a in node.names:
                            if a.name == '*':
                                stars.append(mod)
                            else:
                                names[a.asname or a.name] = (mod, a.name)
            self.__dict__['_names'] = names
            self.__dict__['_stars'] = stars
        return self.__dict__['_names']

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        names = self._index()
        if k in names:
            mod, n = names[k]
            m = load(mod)
            v = getattr(m, n)
            self.__dict__[k] = v
            return v
        sub = self.__name__ + '.' + k
        if find(sub):
            v = load(sub)
            self.__dict__[k] = v
            return v
        for s in self.__dict__['_stars']:
            m = load(s)
            if hasattr(m, k):
                return getattr(m, k)
        raise AttributeError('package %s has no attribute %s' % (self.__name__, k))


def resolve(pkg, is_pkg, module, level):
    if level == 0:
        return module
    parts = pkg.split('.')
    if not is_pkg:
        parts = parts[:-1]
    if level > 1:
        parts = parts[:-(level - 1)]
    return '.'.join(parts + ([module] if module else []))


ROOTS = {'zounds': REPO, 'featureflow': VENV}


def find(name):
    root = ROOTS.get(name.split('.')[0])
    if root is None:
        return None
    base = os.path.join(root, *name.split('.'))
    if os.path.isdir(base):
        return ('pkg', base)
    if os.path.exists(base + '.py'):
        return ('mod', base + '.py')
    return None


def load(name):
    if name in MODULES:
        return MODULES[name]
    f = find(name)
    if f is None:
        return external(name)
    kind, path = f
    if kind == 'pkg':
        m = LazyPackage(name, path)
        MODULES[name] = m
        return m
    m = types.ModuleType(name)
    m.__file__ = path
    m.__package__ = name.rsplit('.', 1)[0]
    MODULES[name] = m
    src = open(path).read()
    code = compile_source(src, path, name)
    m.__dict__['__builtins__'] = make_builtins(name)
    m.__dict__.update(HOOKS)
    try:
        exec(code, m.__dict__)
    except BaseException:
        del MODULES[name]
        raise
    return m


def external(name):
    if name in EXTERNAL:
        return EXTERNAL[name]
    top = name.split('.')[0]
    if top in EXTERNAL:
        m = EXTERNAL[top]
        for p in name.split('.')[1:]:
            m = getattr(m, p)
        return m
    if top in STDLIB:
        import importlib
        return importlib.import_module(name)
    m = OpaqueModule(name)
    EXTERNAL[name] = m
    return m


STDLIB = {'re', 'os', 'io', 'json', 'collections', 'itertools', 'functools', 'base64', 'struct',
          'marshal', 'types', 'inspect', 'contextlib', 'uuid', 'binascii', 'sys', 'random', 'math', 'argparse',
          'traceback', 'datetime', 'warnings', 'abc', 'operator', 'string', 'copy', 'numbers', 'typing',
          'dataclasses', 'enum', 'fractions', 'decimal', 'textwrap', 'weakref', 'threading', 'time', 'logging',
          '__future__', 'glob', 'queue'}


def make_builtins(modname):
    d = dict(builtins.__dict__)

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        pkg = globals['__name__'] if globals else modname
        is_pkg = False
        full = resolve(pkg, is_pkg, name, level) if level else name
        if not fromlist:
            load(full)
            return load(full.split('.')[0])
        m = load(full)
        return _FromList(m, full, fromlist) if isinstance(m, LazyPackage) else m
    d['__import__'] = imp
    return d


class _FromList(object):
    def __init__(self, m, full, fromlist):
        self._m = m
        self.__name__ = full
        if '*' in fromlist:
            idx = m._index()
            self.__all__ = list(idx)

    def __getattr__(self, k):
        return getattr(self._m, k)


# ------------------------------------------------------------- instrumentation

NOREWRITE = {'super', 'locals', 'globals', 'vars', 'dir', 'eval', 'exec', '__bi__', '__comp__', '__loop__',
             '__enter__', '__wloop__', '__base__'}


class Instrument(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.loops = [0]
        self.uid = 0

    def qual(self):
        return '.'.join([self.mod] + self.stack)

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        self.generic_visit(node)
        node.bases = [self._base(b) for b in node.bases]
        self.stack.pop()
        return node

    def _base(self, b):
        if isinstance(b, ast.Name) and b.id in ('float', 'int'):
            return ast.Call(ast.Name('__base__', ast.Load()), [b], [])
        return b

    def _generator(self, node):
        """def f(..): PREFIX; for x in IT: [ASSIGNMENTS]; yield E   (optionally: if C: yield E)
        is compiled as the generator expression with the same elements"""
        body = list(node.body)
        if body and isinstance(body[-1], ast.With) and len(body[-1].items) == 1 and len(body[-1].body) == 1:
            # with CM as v: for ..: yield E -- entered before the first element, left after the last
            it = body[-1].items[0]
            enter = ast.Call(ast.Attribute(it.context_expr, '__enter__', ast.Load()), [], [])
            bound = ast.Expr(enter) if it.optional_vars is None else ast.Assign([it.optional_vars], enter)
            body = body[:-1] + [ast.copy_location(bound, body[-1]), body[-1].body[0]]
        if not body or not isinstance(body[-1], ast.For) or body[-1].orelse or node.decorator_list:
            return
        prefix, loop = body[:-1], body[-1]
        if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Return, ast.For, ast.While)) for b in prefix for n in ast.walk(b)):
            return
        cond, last = None, loop.body[-1]
        if isinstance(last, ast.If) and not last.orelse and len(last.body) == 1:
            cond, last = last.test, last.body[0]
        if not (isinstance(last, ast.Expr) and isinstance(last.value, ast.Yield) and last.value.value is not None):
            return
        st = loop.body[:-1]
        if not all(isinstance(b, ast.Assign) and not any(isinstance(n, (ast.Yield, ast.Attribute, ast.Subscript)) and
                   not isinstance(getattr(n, 'ctx', ast.Load()), ast.Load) for n in ast.walk(b)) for b in st):
            return
        if st and cond is not None or any(isinstance(n, ast.Yield) for e in [last.value.value] + ([cond] if cond else []) for n in ast.walk(e)):
            return
        inner = set(self._assigned(st + [ast.Assign([loop.target], ast.Constant(0))]))
        outer = set(self._assigned(prefix)) | {a.arg for a in node.args.args}
        if inner & outer:
            return
        self.uid += 1
        g, v = '__g%d' % self.uid, '__x%d' % self.uid

        def fn(nm, stmts):
            return ast.FunctionDef(nm, ast.arguments([], [ast.arg(v)], None, [], [], None, []),
                                   [ast.Assign([loop.target], ast.Name(v, ast.Load()))] + stmts, [], type_params=[])
        fs = [fn(g, st + [ast.Return(last.value.value)])]
        if cond is not None:
            fs.append(fn(g + 'c', [ast.Return(cond)]))
        node.body = prefix + fs + [ast.Return(ast.Call(ast.Name('__comp__', ast.Load()), [
            ast.Constant('gen'), loop.iter, ast.Name(g, ast.Load()),
            ast.Name(g + 'c', ast.Load()) if cond is not None else ast.Constant(None)], []))]
        node.body = [ast.copy_location(b, loop) for b in node.body]

    def visit_FunctionDef(self, node):
        if node.name.startswith('__g') and node.name[3:].rstrip('c').isdigit():
            self.generic_visit(node)
            return node
        self._generator(node)
        self.stack.append(node.name)
        self.loops.append(0)
        self.generic_visit(node)
        self.loops.pop()
        enter = ast.Expr(ast.Call(ast.Name('__enter__', ast.Load()), [ast.Constant(self.qual())], []))
        pos = 1 if (node.body and isinstance(node.body[0], ast.Expr) and isinstance(node.body[0].value, ast.Constant)
                    and isinstance(node.body[0].value.value, str)) else 0
        node.body.insert(pos, enter)
        self.stack.pop()
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id not in NOREWRITE:
            node.func = ast.Call(ast.Name('__bi__', ast.Load()), [node.func], [])
        return node

    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        if node.type is None:
            node.type = ast.Name('Exception', ast.Load())
        return node

    def _comp(self, node, kind, elt):
        self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].is_async:
            return node
        g = node.generators[0]
        self.uid += 1
        v = '__x%d' % self.uid

        def lam(body):
            inner = ast.ListComp(body, [ast.comprehension(g.target, ast.List([ast.Name(v, ast.Load())], ast.Load()), [], 0)])
            return ast.Lambda(
                ast.arguments([], [ast.arg(v)], None, [], [], None, []),
                ast.Subscript(inner, ast.Constant(0), ast.Load()))
        if g.ifs:
            cond = g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(ast.And(), g.ifs)
            fl = lam(cond)
        else:
            fl = ast.Constant(None)
        return ast.Call(ast.Name('__comp__', ast.Load()),
                        [ast.Constant(kind), g.iter, lam(elt(node)), fl], [])

    def visit_ListComp(self, node):
        return self._comp(node, 'list', lambda n: n.elt)

    def visit_SetComp(self, node):
        return self._comp(node, 'set', lambda n: n.elt)

    def visit_GeneratorExp(self, node):
        return self._comp(node, 'gen', lambda n: n.elt)

    def visit_DictComp(self, node):
        return self._comp(node, 'dict', lambda n: ast.Tuple([n.key, n.value], ast.Load()))

    def _assigned(self, body):
        names = set()

        class V(ast.NodeVisitor):
            def visit_Name(s, n):
                if isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)

            def visit_FunctionDef(s, n):
                names.add(n.name)

            def visit_Lambda(s, n):
                pass

            def visit_ListComp(s, n):
                pass
            visit_GeneratorExp = visit_SetComp = visit_DictComp = visit_ListComp
        for b in body:
            V().visit(b)
        return sorted(n for n in names if not n.startswith('__'))

    def _havoc(self, L, method, names):
        call = ast.Call(ast.Attribute(ast.Name(L, ast.Load()), method, ast.Load()),
                        [ast.Call(ast.Name('locals', ast.Load()), [], []), ast.Constant(tuple(names))], [])
        if names:
            st = ast.Assign([ast.Tuple([ast.Name(n, ast.Store()) for n in names], ast.Store())], call)
        else:
            st = ast.Expr(call)
        return ast.If(ast.Attribute(ast.Name(L, ast.Load()), 'cut', ast.Load()), [st], [])

    def _collects(self, node):
        """a loop that only assigns local names and adds elements to lists"""
        if node.orelse or not all(isinstance(n, (ast.Name, ast.Tuple, ast.Store, ast.List)) for n in ast.walk(node.target)):
            return False

        def ok(b):
            if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for n in ast.walk(b)):
                return False
            if isinstance(b, ast.For):
                return self._collects(b)
            if isinstance(b, ast.Assign):
                return all(isinstance(n, (ast.Name, ast.Tuple, ast.Store)) for t in b.targets for n in ast.walk(t))
            return isinstance(b, ast.Expr) and (isinstance(b.value, ast.Constant) or self._adds(b.value))
        return all(ok(b) for b in node.body) and any(self._adds(getattr(n, 'value', None)) for b in node.body for n in ast.walk(b))

    def _adds(self, c):
        return isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ('append', 'extend') \
            and len(c.args) == 1 and not c.keywords and not isinstance(c.args[0], ast.Starred)

    def _collector(self, node, C):
        """def body(x): TARGET = x; BODY   with L.append(E) asking the collector"""
        loop = copy.deepcopy(node)

        class Push(ast.NodeTransformer):
            def visit_Expr(s, b):
                if self._adds(b.value):
                    f = b.value.func
                    b.value = ast.Call(ast.Attribute(ast.Name(C, ast.Load()), 'add', ast.Load()),
                                       [f.value, ast.Constant(f.attr), b.value.args[0]], [])
                return b

            def visit_For(s, b):
                return b
        body = [Push().visit(b) for b in loop.body]
        fn = ast.FunctionDef(C + 'b', ast.arguments([], [ast.arg(C + 'x')], None, [], [], None, []),
                             [ast.Assign([loop.target], ast.Name(C + 'x', ast.Load()))] + body, [], type_params=[])
        ast.copy_location(fn, node)
        ast.fix_missing_locations(fn)
        saved = self.loops[-1]
        for b in fn.body:
            self.generic_visit(b) if not isinstance(b, ast.For) else None
        fn.body = [x for b in fn.body for x in (self.visit(b) if isinstance(b, ast.For) else [b])]
        self.loops[-1] = saved
        return fn

    def _filters(self, node):
        """for T in I: if C: continue ... L.append(E)   as the list comprehension it computes, and L"""
        if node.orelse:
            return None
        conds, body = [], [b for b in node.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
        while True:
            if len(body) > 1 and isinstance(body[0], ast.If) and not body[0].orelse and len(body[0].body) == 1 \
                    and isinstance(body[0].body[0], ast.Continue):
                conds.append(ast.UnaryOp(ast.Not(), body[0].test))
                body = body[1:]
            elif len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse:
                conds.append(body[0].test)
                body = body[0].body
            else:
                break
        if not conds or len(body) != 1 or not isinstance(body[0], ast.Expr) or not self._adds(body[0].value) \
                or body[0].value.func.attr != 'append' \
                or any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for n in ast.walk(node)):
            return None
        c = copy.deepcopy(body[0].value)
        return c.func.value, ast.ListComp(c.args[0], [ast.comprehension(copy.deepcopy(node.target), None, copy.deepcopy(conds), 0)])

    def visit_For(self, node):
        k = self.loops[-1]
        flt = self._filters(node) if len(self.loops) >= 2 else None
        if flt is not None:
            self.uid += 1
            C, it = '__C%d' % self.uid, '__I%d' % self.uid
            flt[1].generators[0].iter = ast.Name(it, ast.Load())
            keep = ast.Expr(ast.Call(ast.Attribute(flt[0], 'extend', ast.Load()), [flt[1]], []))
            ast.copy_location(keep, node)
            ast.fix_missing_locations(keep)
            keep = self.visit(keep)
            itn = self.visit(node.iter)
            node.iter = ast.Name(it, ast.Load())
            return [ast.Assign([ast.Name(it, ast.Store())], itn),
                    ast.Assign([ast.Name(C, ast.Store())], ast.Call(ast.Name('__collect__', ast.Load()), [
                        ast.Name(it, ast.Load()), ast.Constant(self.mod), ast.Constant(self.qual()), ast.Constant(k)], [])),
                    ast.If(ast.Compare(ast.Name(C, ast.Load()), [ast.IsNot()], [ast.Constant(None)]), [keep], self._for(node))]
        if len(self.loops) < 2 or not self._collects(node):
            return self._for(node)
        self.uid += 1
        C, it = '__C%d' % self.uid, '__I%d' % self.uid
        self.loops[-1] += 1
        fn = self._collector(node, C)
        self.loops[-1] -= 1
        itn = self.visit(node.iter)
        node.iter = ast.Name(it, ast.Load())
        return [ast.Assign([ast.Name(it, ast.Store())], itn),
                ast.Assign([ast.Name(C, ast.Store())], ast.Call(ast.Name('__collect__', ast.Load()), [
                    ast.Name(it, ast.Load()), ast.Constant(self.mod), ast.Constant(self.qual()), ast.Constant(k)], [])),
                ast.If(ast.Compare(ast.Name(C, ast.Load()), [ast.IsNot()], [ast.Constant(None)]),
                       [fn, ast.Expr(ast.Call(ast.Attribute(ast.Name(C, ast.Load()), 'run', ast.Load()), [ast.Name(fn.name, ast.Load())], []))],
                       self._for(node))]

    def visit_List(self, node):
        self.generic_visit(node)
        if node.elts or not isinstance(node.ctx, ast.Load) or len(self.loops) < 2:
            return node
        return ast.Call(ast.Name('__list__', ast.Load()), [ast.Constant(self.mod)], [])

    def _for(self, node):
        k = self.loops[-1]
        self.loops[-1] += 1
        names = self._assigned(node.body)
        self.generic_visit(node)
        self.uid += 1
        L = '__L%d' % self.uid
        pre = ast.Assign([ast.Name(L, ast.Store())],
                         ast.Call(ast.Name('__loop__', ast.Load()),
                                  [node.iter, ast.Constant(self.qual()), ast.Constant(k)], []))
        node.iter = ast.Name(L, ast.Load())
        node.body.insert(0, self._havoc(L, 'havoc', names))
        return [pre, node, self._havoc(L, 'exit', names)]

    def visit_While(self, node):
        k = self.loops[-1]
        self.loops[-1] += 1
        names = self._assigned(node.body)
        self.generic_visit(node)
        self.uid += 1
        L = '__L%d' % self.uid
        pre = ast.Assign([ast.Name(L, ast.Store())],
                         ast.Call(ast.Name('__wloop__', ast.Load()),
                                  [ast.Constant(self.qual()), ast.Constant(k)], []))
        test = node.test
        # while L.more(locals()): havoc; if not test: L.stop(); break
        node.test = ast.Call(ast.Attribute(ast.Name(L, ast.Load()), 'more', ast.Load()),
                             [ast.Call(ast.Name('locals', ast.Load()), [], [])], [])
        guard = ast.If(ast.UnaryOp(ast.Not(), test), [ast.Break()], [])
        node.body = [self._havoc(L, 'havoc', names), guard] + node.body
        if node.orelse:
            return node  # rare; left alone
        return [pre, node]


def compile_source(src, path, modname):
    tree = ast.parse(src, path)
    tree = Instrument(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, path, 'exec')


HOOKS = {}


def reset():
    MODULES.clear()
