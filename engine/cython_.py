"""Mechanical translation of the Cython subset used in /repo to instrumented Python, on every run from the current source.

Kept: every statement and expression, C scalar types (each assignment to a typed scalar is converted to its type, with
wrap-around), word arithmetic on 64-bit words.  Dropped: cimports, decorators, buffer declarations (the type only), nogil.
Trusted: __builtin_popcount*, which return the number of ones of their argument."""
import ast
import os
import re
import types

import z3

from . import core, bi, loader, mnumpy
from .core import SBV, SInt, SBool, Unsupported, is_sym, trust, ctx

CTYPES = {'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False), 'char': (8, True),
          'unsigned char': (8, False), 'short': (16, True), 'unsigned short': (16, False), 'long long': (64, True),
          'unsigned long long': (64, False), 'size_t': (64, False), 'Py_ssize_t': (64, True)}
for _n in (8, 16, 32, 64):
    CTYPES['np.int%d_t' % _n] = (_n, True)
    CTYPES['np.uint%d_t' % _n] = (_n, False)
    CTYPES['uint%d_t' % _n] = (_n, False)
    CTYPES['int%d_t' % _n] = (_n, True)
CTYPES['np.int_t'] = (64, True)


def convert(bits, signed, v):
    """C conversion to an integer type"""
    if type(v) is SBV:
        w = v.z.size()
        if bits == 64 and w == 64 and not signed:
            return v
        z = z3.Extract(bits - 1, 0, v.z) if bits < w else v.z
        r = z3.BV2Int(z)
        return SInt(z3.If(r >= 2 ** (bits - 1), r - 2 ** bits, r) if signed else r)
    if not bi.isint(v):
        raise Unsupported('C conversion of %r' % type(v))
    lo, hi = (-2 ** (bits - 1), 2 ** (bits - 1)) if signed else (0, 2 ** bits)
    if not is_sym(v):
        v = int(v)
        return v if lo <= v < hi else (v - lo) % 2 ** bits + lo
    z = core.zint(v)
    if mnumpy.entails(z3.And(z >= lo, z < hi)):
        return v
    return (v - lo) % 2 ** bits + lo


POP = z3.Function('popcount', z3.BitVecSort(64), z3.IntSort())


def ones(z):
    """the number of ones, by definition"""
    w = z.size()
    bits = [z3.ZeroExt(w - 1, z3.Extract(i, i, z)) for i in range(w)]
    s = bits[0]
    for b in bits[1:]:
        s = s + b
    return s


def popcount(v):
    """the number of ones of a word, as an integer"""
    if not is_sym(v):
        return bin(v).count('1')
    if type(v) is not SBV or v.z.size() != 64:
        raise Unsupported('popcount of a value that is not a 64-bit word')
    r = POP(v.z)
    ctx().add(z3.And(r >= 0, r <= 64))
    return SInt(r)


W2I = z3.Function('word2int', z3.BitVecSort(64), z3.IntSort())
_pairs = {}


def _parts(e):
    """(applications of word-valued functions, the others) in e"""
    seen, out, todo = set(), [], [e]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_bv(t) and z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            out.append(t)
        else:
            todo.extend(t.children())
    return out


def widen(z):
    return z3.ZeroExt(64 - z.size(), z) if z.size() < 64 else z


def word_aid(zs):
    """decide obligations over machine words: equalities between words are decided on their bits alone, and the rest with
    the conversion of a word to a number taken as an arbitrary function"""
    seen, ws, todo = set(), [], list(zs)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_BV2INT and t.arg(0).size() <= 64:
            ws.append(t)
        todo.extend(t.children())
    if not ws:
        return None
    facts = []
    for i, a in enumerate(ws):
        for b in ws[:i]:
            x, y = widen(a.arg(0)), widen(b.arg(0))
            px, py = _parts(x), _parts(y)
            dx, dy = {p.decl().name(): p for p in px}, {p.decl().name(): p for p in py}
            if len(dx) != len(px) or len(dy) != len(py) or set(dx) != set(dy):
                continue
            consts = [(k, z3.BitVec('w.' + k, dx[k].size())) for k in sorted(dx)]
            gx = z3.substitute(x, *[(dx[k], v) for k, v in consts])
            gy = z3.substitute(y, *[(dy[k], v) for k, v in consts])
            key = (gx.sexpr(), gy.sexpr())
            if key not in _pairs:
                s = z3.SolverFor('QF_BV')
                s.set('timeout', 40000)
                s.add(gx != gy)
                _pairs[key] = s.check() == z3.unsat
            if _pairs[key]:
                guard = [u == v for k, _ in consts for u, v in zip(dx[k].children(), dy[k].children())]
                facts.append(z3.Implies(z3.And(*guard) if guard else z3.BoolVal(True), W2I(x) == W2I(y)))
    sub = [(t, W2I(widen(t.arg(0)))) for t in ws]
    s = z3.Solver()
    s.set('timeout', 10000)
    s.add(*[z3.substitute(z, *sub) for z in zs], *[z3.And(w >= 0, w < 2 ** t.arg(0).size()) for t, w in sub], *facts)
    return 'unsat' if s.check() == z3.unsat else None


core.WORDS = word_aid


def builtin_popcount(bits):
    def f(v):
        trust('__builtin_popcount: the number of ones of its argument')
        if bits < 64 and is_sym(v):
            v = SBV(z3.ZeroExt(64 - bits, z3.Extract(bits - 1, 0, v.z)))
        return popcount(v)
    return f


EXTERN = {'__builtin_popcountl': builtin_popcount(64), '__builtin_popcountll': builtin_popcount(64), '__builtin_popcount': builtin_popcount(32)}
BUF = r'np\.ndarray\s*\[\s*(\w+)\s*,\s*ndim\s*=\s*(\d+)\s*(?:,[^\]]*)?\]'


def translate(src):
    types_, out, externs = dict(CTYPES), [], []
    src = re.sub(r'(?:[^\n]*\\\n)+[^\n]*\n', lambda m: re.sub(r'\\\n\s*', ' ', m.group(0)) + '\n' * (m.group(0).count('\n') - 1), src)
    scalars, arrays, fn = {}, {}, None
    def put(x):
        out[-1] += ('; ' + x.strip()) if out[-1] else x
    for line in src.split('\n'):
        s = line.split('#')[0].rstrip()
        t = s.strip()
        ind = s[:len(s) - len(s.lstrip())]
        out.append('')
        if not t or re.match(r'(cimport|from\s+\S+\s+cimport|@cython\.|from __future__)', t):
            continue
        m = re.match(r'ctypedef\s+(.+?)\s+(\w+)$', t)
        if m:
            if m.group(1) in types_:
                types_[m.group(2)] = types_[m.group(1)]
            continue
        m = re.match(r'cdef\s+extern\s+.*?(\w+)\s*\(', t)
        if m:
            externs.append(m.group(1))
            continue
        m = re.match(r'(?:def|cpdef|cdef)\s+(?:inline\s+)?(?:[\w.]+\s+)?(\w+)\s*\((.*)\)\s*(?:nogil|noexcept|\s)*:$', t)
        if m:
            fn = m.group(1)
            scalars[fn], arrays[fn] = {}, {}
            ps = []
            for p in re.split(r',(?![^\[]*\])', m.group(2)):
                p = p.strip()
                if not p:
                    continue
                b = re.match(BUF + r'\s*(\w+)$', p)
                c = re.match(r'((?:\w+\s+)*[\w.]+)\s+(\w+)$', p)
                if b:
                    arrays[fn][b.group(3)] = types_.get(b.group(1))
                    ps.append(b.group(3))
                elif c:
                    if c.group(1) in types_:
                        scalars[fn][c.group(2)] = types_[c.group(1)]
                    ps.append(c.group(2))
                else:
                    ps.append(p)
            put('%sdef %s(%s):' % (ind, fn, ', '.join(ps)))
            continue
        m = re.match(r'cdef\s+' + BUF + r'\s*(\w+)\s*(=.*)?$', t)
        if m:
            arrays[fn][m.group(3)] = types_.get(m.group(1))
            if m.group(4):
                put('%s%s %s' % (ind, m.group(3), m.group(4)))
            continue
        m = re.match(r'cdef\s+((?:unsigned\s+)?(?:long\s+long|[\w.]+))\s+(\w+\s*(?:=.*)?(?:,.*)?)$', t)
        if m:
            if m.group(1) not in types_:
                raise Unsupported('C type %s' % m.group(1))
            for d in m.group(2).split(','):
                nm, _, e = d.partition('=')
                scalars[fn][nm.strip()] = types_[m.group(1)]
                if e:
                    put('%s%s = %s' % (ind, nm.strip(), e.strip()))
            continue
        if t.startswith('cdef') or t.startswith('with nogil'):
            raise Unsupported('Cython: ' + t)
        put(s.rstrip(';'))
    return '\n'.join(out) + '\n', scalars, arrays, externs


class Types(ast.NodeTransformer):
    """assignments to typed scalars convert to the type"""

    def __init__(self, scalars, arrays):
        self.s, self.a = scalars, arrays

    def conv(self, name, e):
        b, sg = self.s[name]
        return ast.Call(ast.Name('__c__', ast.Load()), [ast.Constant(b), ast.Constant(sg), e], [])

    def visit_Assign(self, node):
        if len(node.targets) == 1 and isinstance(node.targets[0], ast.Name) and node.targets[0].id in self.s:
            node.value = self.conv(node.targets[0].id, node.value)
        t = node.targets[0]
        if len(node.targets) == 1 and isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and self.a.get(t.value.id):
            b, sg = self.a[t.value.id]
            node.value = ast.Call(ast.Name('__c__', ast.Load()), [ast.Constant(b), ast.Constant(sg), node.value], [])
        return node

    def visit_AugAssign(self, node):
        if isinstance(node.target, ast.Name) and node.target.id in self.s:
            n = node.target.id
            return ast.Assign([node.target], self.conv(n, ast.BinOp(ast.Name(n, ast.Load()), node.op, node.value)))
        return node


def load(path='zounds/nputil/countbits.pyx', name='countbits'):
    path = os.path.join(loader.REPO, path)
    py, scalars, arrays, externs = translate(open(path).read())
    tree = ast.parse(py, path)
    for f in tree.body:
        if isinstance(f, ast.FunctionDef):
            Types(scalars[f.name], arrays[f.name]).visit(f)
    tree = loader.Instrument(name).visit(tree)
    ast.fix_missing_locations(tree)
    m = types.ModuleType(name)
    m.__dict__['__builtins__'] = loader.make_builtins(name)
    m.__dict__.update(loader.HOOKS)
    m.__dict__['__c__'] = convert
    for e in externs:
        if e in EXTERN:
            m.__dict__[e] = EXTERN[e]
    exec(compile(tree, path, 'exec'), m.__dict__)
    return m
