"""Symbolic strings of printable ASCII characters, numerals, regular expressions over them, and formatted text."""
import builtins
from fractions import Fraction
import re as _re
import types

import z3

from . import core, loader, bi
from .core import SInt, SReal, SBool, Unsupported, ctx, fork, trust, wrap

PRINT = z3.Range(' ', '~')
DIGIT = z3.Range('0', '9')
ival = z3.Function('int_of_numeral', z3.StringSort(), z3.IntSort())
fval = z3.Function('float_of_numeral', z3.StringSort(), z3.RealSort())


def lit(s):
    return z3.Re(z3.StringVal(s))


def _digits():
    return z3.Concat(z3.Plus(DIGIT), z3.Star(z3.Concat(lit('_'), z3.Plus(DIGIT))))


def union(xs):
    xs = list(xs)
    return xs[0] if len(xs) == 1 else z3.Union(*xs)


SIGN = z3.Option(union([lit('+'), lit('-')]))
SP = z3.Star(lit(' '))
INT = z3.Concat(SP, SIGN, _digits(), SP)
PLAIN = z3.Plus(DIGIT)
NUMERAL = z3.Plus(DIGIT)
DECIMAL = z3.Concat(z3.Plus(DIGIT), z3.Option(z3.Concat(lit('.'), z3.Plus(DIGIT))))
FLOAT = z3.Concat(SP, SIGN, union([z3.Concat(_digits(), z3.Option(z3.Concat(lit('.'), z3.Option(_digits())))),
                                   z3.Concat(lit('.'), _digits())]),
                  z3.Option(z3.Concat(union([lit('e'), lit('E')]), SIGN, _digits())), SP)


def _word(w):
    return z3.Concat(*[union([lit(c), lit(c.upper())]) for c in w])


SPECIAL = z3.Concat(SP, SIGN, union([_word('inf'), _word('infinity'), _word('nan')]), SP)


def zstr(x):
    if type(x) is SStr:
        return x.z
    if isinstance(x, str):
        return z3.StringVal(x)
    raise Unsupported('%s used as a string' % type(x).__name__)


class SStr(object):
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    @property
    def __class__(self):
        return str

    def __eq__(self, o):
        return wrap(self.z == zstr(o)) if isinstance(o, str) else False

    def __ne__(self, o):
        return wrap(self.z != zstr(o)) if isinstance(o, str) else True

    def __hash__(self):
        raise Unsupported('hash of a symbolic string')

    def __bool__(self):
        return fork(self.z != z3.StringVal(''))

    def __add__(self, o):
        return SStr(z3.Concat(self.z, zstr(o))) if isinstance(o, str) else NotImplemented

    def __radd__(self, o):
        return SStr(z3.Concat(zstr(o), self.z)) if isinstance(o, str) else NotImplemented

    def __len__(self):
        return wrap(z3.Length(self.z))

    def __contains__(self, o):
        return fork(z3.Contains(self.z, zstr(o)))

    def __getitem__(self, i):
        raise Unsupported('indexing a symbolic string')

    def __iter__(self):
        raise Unsupported('iterating over a symbolic string')

    def startswith(self, p, *a):
        if a or isinstance(p, tuple):
            raise Unsupported('startswith')
        return wrap(z3.PrefixOf(zstr(p), self.z))

    def endswith(self, p, *a):
        if a or isinstance(p, tuple):
            raise Unsupported('endswith')
        return wrap(z3.SuffixOf(zstr(p), self.z))

    def partition(self, sep):
        if fork(z3.Contains(self.z, zstr(sep))):
            h, t = _fresh('head'), _fresh('tail')
            c = ctx()
            c.add(self.z == z3.Concat(h.z, zstr(sep), t.z))
            if len(sep) != 1:
                raise Unsupported('partition by a longer separator')
            c.add(z3.InRe(h.z, z3.Star(_but([sep]))))
            return h, sep, t
        return self, '', ''

    def split(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit != 1:
            raise Unsupported('split of a symbolic string into any number of parts')
        h, s, t = self.partition(sep)
        return [h, t] if s else [h]

    def isdigit(self):
        return wrap(z3.InRe(self.z, PLAIN))
    isnumeric = isdecimal = isdigit

    def __sym_int__(self):
        if fork(z3.InRe(self.z, INT)):
            ctx().add(z3.Implies(z3.InRe(self.z, PLAIN), ival(self.z) >= 0))
            return SInt(ival(self.z))
        raise ValueError('invalid literal for int()')

    def __sym_float__(self):
        if fork(z3.InRe(self.z, FLOAT)):
            return SReal(fval(self.z))
        if fork(z3.InRe(self.z, SPECIAL)):
            raise Unsupported('the float infinity or nan read from text')
        raise ValueError('could not convert string to float')

    def __sym_str__(self):
        return self

    def __str__(self):
        return token(self)

    def __repr__(self):
        return token(self)

    def __format__(self, spec):
        return token(self, spec)

    def __getattr__(self, k):
        if k.startswith('__') or not hasattr(str, k):
            raise AttributeError(k)
        raise Unsupported('str.%s of a symbolic string' % k)


def _fresh(name):
    c = ctx()
    c.strings = True
    z = z3.String(c.fresh(name))
    c.add(z3.InRe(z, z3.Star(PRINT)))
    return SStr(z)


def Str(name, rx=None):
    """an arbitrary string of printable ASCII characters (optionally of a given form)"""
    c = ctx()
    c.strings = True
    z = z3.String(name)
    c.inputs[name] = ival(z) if rx is NUMERAL else fval(z) if rx is DECIMAL else z
    c.add(z3.InRe(z, rx if rx is not None else z3.Star(PRINT)))
    core.assumption('symbolic strings hold printable ASCII characters')
    return SStr(z)


def _but(chars):
    """any printable character except these"""
    bad = sorted(set(ord(c) for c in chars if ' ' <= c <= '~'))
    parts, lo = [], 32
    for b in bad + [127]:
        if b > lo:
            parts.append(z3.Range(chr(lo), chr(b - 1)))
        lo = b + 1
    if not parts:
        raise Unsupported('empty character class')
    return union(parts)




def without(chars):
    return z3.Star(_but(chars))


# ------------------------------------------------------------- formatted text

def token(x, spec=''):
    if core.C is None:
        return '<sym>'
    c = core.C
    if not hasattr(c, 'tokens'):
        c.tokens = []
    c.tokens.append((x, spec))
    return '\ue000%d\ue001' % (len(c.tokens) - 1)


def text(s):
    """the pieces of formatted text: literal strings and the values formatted into it"""
    if type(s) is SStr:
        return [s]
    out = []
    for i, p in enumerate(_re.split('\ue000(\\d+)\ue001', s)):
        if i % 2:
            x, spec = core.C.tokens[int(p)]
            if spec:
                raise Unsupported('a formatted number with format %r' % spec)
            out.append(x)
        elif p:
            out.append(p)
    return out


# --------------------------------------------------------- regular expressions

CATS = {}


def charset(op, av):
    """(z3 regex, set of printable characters) of a single-character pattern, or None"""
    n = str(op)
    every = set(chr(k) for k in range(32, 127))
    if n == 'LITERAL':
        s = {chr(av)}
    elif n == 'NOT_LITERAL':
        s = every - {chr(av)}
    elif n == 'ANY':
        s = every
    elif n == 'IN':
        s, neg = set(), False
        for o, a in av:
            o = str(o)
            if o == 'NEGATE':
                neg = True
            elif o == 'LITERAL':
                s.add(chr(a))
            elif o == 'RANGE':
                s |= set(chr(k) for k in range(a[0], a[1] + 1))
            elif o == 'CATEGORY':
                s |= category(str(a))
            else:
                raise Unsupported('regular expression %s' % o)
        s = every - s if neg else s & every
    else:
        return None
    return s & every


def category(n):
    every = set(chr(k) for k in range(32, 127))
    base = {'DIGIT': set('0123456789'), 'SPACE': {' '}, 'WORD': set(c for c in every if c.isalnum() or c == '_')}
    for k, v in base.items():
        if n == 'CATEGORY_' + k:
            return v
        if n == 'CATEGORY_NOT_' + k:
            return every - v
    raise Unsupported('regular expression category %s' % n)


def zset(s):
    if not s:
        raise Unsupported('empty character class')
    if len(s) == 1:
        return lit(next(iter(s)))
    every = set(chr(k) for k in range(32, 127))
    return _but(every - s)


def zseq(items):
    """(z3 regex, characters it may contain, fixed length or None)"""
    rs, chars, fixed = [], set(), 0
    for op, av in items:
        r, ch, n = zone(op, av)
        rs.append(r)
        chars |= ch
        fixed = None if fixed is None or n is None else fixed + n
    if not rs:
        return lit(''), set(), 0
    return (rs[0] if len(rs) == 1 else z3.Concat(*rs)), chars, fixed


def zone(op, av):
    n = str(op)
    s = charset(op, av)
    if s is not None:
        return zset(s), s, 1
    if n in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
        lo, hi, sub = av
        if any(str(o) == 'SUBPATTERN' and a[0] is not None for o, a in sub):
            raise Unsupported('a repeated group')
        r, ch, k = zseq(sub)
        hi = None if str(hi) == 'MAXREPEAT' else int(hi)
        if hi is None:
            z = z3.Star(r) if lo == 0 else z3.Plus(r) if lo == 1 else z3.Concat(*([r] * lo + [z3.Star(r)]))
        else:
            z = z3.Loop(r, lo, hi) if hi else lit('')
        return z, ch, (k * lo if k is not None and hi == lo else None)
    if n == 'SUBPATTERN':
        g, add, rem, sub = av
        if add or rem:
            raise Unsupported('regular expression flags')
        return zseq(sub)
    if n == 'BRANCH':
        parts = [zseq(p) for p in av[1]]
        ks = set(p[2] for p in parts)
        return union(p[0] for p in parts), set().union(*[p[1] for p in parts]), ks.pop() if len(ks) == 1 else None
    raise Unsupported('regular expression %s' % n)


class SPattern(object):
    def __init__(self, pattern, flags=0):
        self.pattern, self.flags = pattern, flags
        self.real = _re.compile(pattern, flags)

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        f = getattr(self.real, k)
        if not callable(f):
            return f

        def g(*a, **kw):
            if any(type(x) is SStr for x in a):
                raise Unsupported('re.%s on a symbolic string' % k)
            return f(*a, **kw)
        return g

    def _segments(self, full, search):
        if self.flags:
            raise Unsupported('regular expression flags')
        items = list(_re._parser.parse(self.pattern))
        groups = self.real.groupindex
        names = {v: k for k, v in groups.items()}
        begin = end = False
        segs = []          # [group number or None, items]
        for j, (op, av) in enumerate(items):
            n = str(op)
            if n == 'AT':
                a = str(av)
                if a in ('AT_BEGINNING', 'AT_BEGINNING_STRING') and j == 0:
                    begin = True
                    continue
                if a in ('AT_END', 'AT_END_STRING') and j == len(items) - 1:
                    end = True
                    continue
                raise Unsupported('regular expression anchor')
            if n == 'SUBPATTERN' and av[0] is not None:
                if av[1] or av[2]:
                    raise Unsupported('regular expression flags')
                if any('SUBPATTERN' in str(x) for x in av[3]):
                    raise Unsupported('nested groups')
                segs.append((av[0], list(av[3])))
            elif segs and segs[-1][0] is None and segs[-1] is not None and n != 'LITERAL':
                segs.append((None, [(op, av)]))
            else:
                segs.append((None, [(op, av)]))
        if search and not begin:
            raise Unsupported('searching a symbolic string')
        zs = [(g,) + zseq(it) + (it,) for g, it in segs]
        if not (end or full):
            zs.append((None, z3.Star(PRINT), set('x'), None, []))
            tail_free = True
        else:
            tail_free = False
        # the decomposition is unique: a variable part is followed by a character it cannot contain, or is the last
        for k, (g, z, ch, fixed, it) in enumerate(zs):
            if fixed is not None:
                continue
            if k == len(zs) - 1:
                continue
            ng, nz, nch, nfixed, nit = zs[k + 1]
            first = charset(*nit[0]) if nit else None
            if first is None or first & ch or tail_free and k == len(zs) - 2:
                raise Unsupported('a regular expression whose groups are not determined by their delimiters')
        return zs, names

    def _match(self, s, full=False, search=False):
        if type(s) is not SStr:
            f = self.real.fullmatch if full else self.real.search if search else self.real.match
            return f(s)
        trust('re: Python regular expressions as formal ones')
        zs, names = self._segments(full, search)
        groups = self._align(s, zs)
        if groups is not None:
            return SMatch(s, groups, names)
        whole = zs[0][1] if len(zs) == 1 else z3.Concat(*[x[1] for x in zs])
        if not fork(z3.InRe(s.z, whole)):
            return None
        c = ctx()
        parts, groups = [], {}
        for g, z, ch, fixed, it in zs:
            if g is None and len(it) == 1 and str(it[0][0]) == 'LITERAL':
                parts.append(z3.StringVal(chr(it[0][1])))
                continue
            p = _fresh('part')
            c.add(z3.InRe(p.z, z))
            parts.append(p.z)
            if g is not None:
                groups[g] = p
        c.add(s.z == (parts[0] if len(parts) == 1 else z3.Concat(*parts)))
        return SMatch(s, groups, names)

    def _align(self, s, zs):
        """the groups, when the pieces s is concatenated from line up with the parts of the pattern (the decomposition
        is unique, so these are the groups)"""
        pieces = []

        def flat(z):
            if z3.is_string_value(z):
                pieces.extend(z3.StringVal(ch) for ch in z.as_string())
            elif z3.is_app(z) and z.decl().kind() == z3.Z3_OP_SEQ_CONCAT:
                for k in range(z.num_args()):
                    flat(z.arg(k))
            else:
                pieces.append(z)
        flat(s.z)
        if len(pieces) > 60:
            return None
        cache = {}

        def run(i, j):
            ps = pieces[i:j]
            return z3.StringVal('') if not ps else z3.simplify(ps[0] if len(ps) == 1 else z3.Concat(*ps))

        def fits(i, j, k):
            if (i, j, k) not in cache:
                q = z3.simplify(z3.InRe(run(i, j), zs[k][1]))
                cache[i, j, k] = True if z3.is_true(q) else False if z3.is_false(q) else \
                    core._check(z3.Not(q)) == z3.unsat
            return cache[i, j, k]

        def go(i, k):
            if k == len(zs):
                return [] if i == len(pieces) else None
            it = zs[k][4]
            if zs[k][3] == 1 and len(it) == 1 and str(it[0][0]) == 'LITERAL':
                ends = [i + 1] if i < len(pieces) and z3.is_string_value(pieces[i]) and pieces[i].as_string() == chr(it[0][1]) else []
            elif k + 1 < len(zs) and zs[k + 1][4] and str(zs[k + 1][4][0][0]) == 'LITERAL':
                c = chr(zs[k + 1][4][0][1])
                ends = [j for j in range(i, len(pieces)) if z3.is_string_value(pieces[j]) and pieces[j].as_string() == c]
            else:
                ends = [len(pieces)] if k + 1 == len(zs) else list(range(i, len(pieces) + 1))
            for j in ends:
                if fits(i, j, k):
                    r = go(j, k + 1)
                    if r is not None:
                        return [(zs[k][0], run(i, j))] + r
            return None
        r = go(0, 0)
        return None if r is None else {g: _concrete(z) for g, z in r if g is not None}

    def match(self, s):
        return self._match(s)

    def fullmatch(self, s):
        return self._match(s, full=True)

    def search(self, s):
        return self._match(s, search=True)


class SMatch(object):
    def __init__(self, s, groups, names):
        self.s, self._g, self._n = s, groups, names

    def _get(self, k):
        if k == 0:
            return self.s
        if isinstance(k, str):
            for n, name in self._n.items():
                if name == k:
                    return self._g[n]
            raise IndexError('no such group')
        if k not in self._g:
            raise IndexError('no such group')
        return self._g[k]

    def group(self, *ks):
        if len(ks) <= 1:
            return self._get(ks[0] if ks else 0)
        return tuple(self._get(k) for k in ks)

    __getitem__ = _get

    def groups(self, default=None):
        return tuple(self._g[k] for k in sorted(self._g))

    def groupdict(self, default=None):
        return {name: self._g[n] for n, name in self._n.items()}

    def __bool__(self):
        return True


def _concrete(z):
    return z.as_string() if z3.is_string_value(z) else SStr(z)


def parse_text(pattern, s):
    """the groups of formatted text; numbers formatted into it come back as values"""
    if type(s) is SStr:
        raise Unsupported('symbolic text')
    m = _re.match(pattern, s)
    if not m:
        return None
    out = []
    for g in m.groups():
        p = text(g)
        if len(p) == 1 and not isinstance(p[0], str):
            out.append(p[0])
            continue
        try:
            out.append(Fraction(g))
        except ValueError:
            out.append(g)
    return out


def module():
    m = types.ModuleType('re')
    for k in dir(_re):
        if not k.startswith('__'):
            setattr(m, k, getattr(_re, k))

    def compile(pattern, flags=0):
        return pattern if type(pattern) is SPattern else SPattern(pattern, flags)
    m.compile = compile
    m.match = lambda p, s, flags=0: compile(p, flags).match(s)
    m.fullmatch = lambda p, s, flags=0: compile(p, flags).fullmatch(s)
    m.search = lambda p, s, flags=0: compile(p, flags).search(s)

    def wrapf(k):
        f = getattr(_re, k)

        def g(p, *a, **kw):
            if any(type(x) is SStr for x in a):
                raise Unsupported('re.%s on a symbolic string' % k)
            return f(p.real if type(p) is SPattern else p, *a, **kw)
        return g
    for k in ('sub', 'split', 'findall', 'finditer', 'subn'):
        setattr(m, k, wrapf(k))
    return m


loader.EXTERNAL['re'] = module()


def fork_str(cond):
    return fork(cond)
