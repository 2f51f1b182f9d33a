"""Nonlinear helper: exact sign lemmas for quotients.

For a quotient q = a/b on the path (b > 0 known to the solver) and an arithmetic atom  P <> 0  whose polynomial P is
cof*b - k*a  (k a positive constant, cof a polynomial), the lemma
        b > 0  ->  (cof*b - k*a <> 0)  <->  (cof - k*q <> 0)
is instantiated for <> in {<, <=, =}.  For integer quotients (a = b*q + r, 0 <= r < b) the analogous facts about
cof <= k*q are instantiated when k = 1.  These are valid formulas of the theory of reals; they only save the solver
from finding products itself.
"""
from fractions import Fraction
import z3

_cache = {}


def poly(e, depth=0):
    """dict: monomial (sorted tuple of atom ids) -> coefficient; atoms recorded in ATOMS"""
    k = e.get_id()
    r = _cache.get(k)
    if r is not None and z3.eq(r[0], e):
        return r[1]
    p = _poly(e, depth)
    if len(_cache) > 20000:
        _cache.clear()
    _cache[k] = (e, p)
    return p


ATOMS = {}
FIX = {}          # atom id -> constant, from equalities on the path


class TooBig(Exception):
    pass


def _poly(e, depth):
    if z3.is_int_value(e):
        v = e.as_long()
        return {(): Fraction(v)} if v else {}
    if z3.is_rational_value(e):
        v = Fraction(e.numerator_as_long(), e.denominator_as_long())
        return {(): v} if v else {}
    d = e.decl().kind() if z3.is_app(e) else None
    if d == z3.Z3_OP_TO_REAL:
        return poly(e.arg(0), depth + 1)
    if d == z3.Z3_OP_ADD:
        r = {}
        for c in e.children():
            for m, v in poly(c, depth + 1).items():
                r[m] = r.get(m, 0) + v
                if r[m] == 0:
                    del r[m]
        return r
    if d == z3.Z3_OP_SUB:
        cs = e.children()
        r = dict(poly(cs[0], depth + 1))
        for c in cs[1:]:
            for m, v in poly(c, depth + 1).items():
                r[m] = r.get(m, 0) - v
                if r[m] == 0:
                    del r[m]
        return r
    if d == z3.Z3_OP_UMINUS:
        return {m: -v for m, v in poly(e.arg(0), depth + 1).items()}
    if d == z3.Z3_OP_MUL:
        r = {(): Fraction(1)}
        for c in e.children():
            r = pmul(r, poly(c, depth + 1))
        return r
    if d == z3.Z3_OP_POWER and z3.is_int_value(e.arg(1)) and 0 <= e.arg(1).as_long() <= 4:
        r = {(): Fraction(1)}
        for _ in range(e.arg(1).as_long()):
            r = pmul(r, poly(e.arg(0), depth + 1))
        return r
    if e.get_id() in FIX:
        v = FIX[e.get_id()]
        return {(): v} if v else {}
    ATOMS[e.get_id()] = e
    return {(e.get_id(),): Fraction(1)}


def pmul(a, b):
    if len(a) * len(b) > 400:
        raise TooBig()
    r = {}
    for m1, v1 in a.items():
        for m2, v2 in b.items():
            m = tuple(sorted(m1 + m2))
            r[m] = r.get(m, 0) + v1 * v2
            if r[m] == 0:
                del r[m]
    return r


def padd(a, b, k=1):
    r = dict(a)
    for m, v in b.items():
        r[m] = r.get(m, 0) + k * v
        if r[m] == 0:
            del r[m]
    return r


def toz(p):
    """polynomial -> z3 real term"""
    ts = []
    for m, v in p.items():
        t = z3.RealVal(str(v))
        fs = [ATOMS[i] if ATOMS[i].sort() == z3.RealSort() else z3.ToReal(ATOMS[i]) for i in m]
        if fs:
            x = fs[0]
            for f in fs[1:]:
                x = x * f
            t = x if v == 1 else t * x
        ts.append(t)
    return z3.Sum(ts) if len(ts) > 1 else ts[0] if ts else z3.RealVal(0)


def atoms_of(e, seen, out):
    """arithmetic comparison atoms inside a formula"""
    todo = [e]
    while todo:
        e = todo.pop()
        i = e.get_id()
        if i in seen or not z3.is_app(e):
            continue
        seen.add(i)
        k = e.decl().kind()
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or \
                (k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and e.num_args() == 2 and e.arg(0).sort().kind() in (z3.Z3_INT_SORT, z3.Z3_REAL_SORT)):
            out.append(e)
            todo.extend(e.children())     # for If terms inside
            continue
        todo.extend(e.children())
    return out


def lemmas(formulas, divs):
    """divs: list of (kind, a, b, q[, r]) with z3 terms"""
    if not divs:
        return []
    fix_equalities(formulas)
    out, seen, keys = [], set(), set()
    atoms = []
    for f in formulas:
        atoms_of(f, seen, atoms)
    recs = []
    for d in divs:
        try:
            b = poly(d[2])
            if b and any(b):
                recs.append((d[0], poly(d[1]), b, d[3], d))
        except TooBig:
            pass
    for at in atoms:
        try:
            P = padd(poly(at.arg(0)), poly(at.arg(1)), -1)
        except TooBig:
            continue
        for kind, A, Bp, q, d in recs:
            for lem in match(P, at, kind, A, Bp, q, d, keys):
                out.append(lem)
    # quotients by the same divisor keep the order of their numerators
    for i in range(len(recs)):
        for j in range(i):
            k1, A1, B1, q1, d1 = recs[i]
            k2, A2, B2, q2, d2 = recs[j]
            if B1 == B2 and k1 == 'r' and k2 == 'r':
                b = toz(B1)
                D = padd(A1, A2, -1)
                # difference of numerators a multiple of the divisor?
                r = ratio(D, B1)
                if r is not None:
                    out.append(z3.Implies(b != 0, q1 - q2 == z3.RealVal(str(r))))
                else:
                    out.append(z3.Implies(b > 0, z3.And((toz(D) < 0) == (q1 < q2), (toz(D) <= 0) == (q1 <= q2))))
    return out


def numeral(e):
    if z3.is_int_value(e):
        return Fraction(e.as_long())
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return None


def fix_equalities(formulas):
    new = {}
    for f in formulas:
        if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_EQ:
            for x, y in ((f.arg(0), f.arg(1)), (f.arg(1), f.arg(0))):
                v = numeral(y) if y.sort().kind() in (z3.Z3_INT_SORT, z3.Z3_REAL_SORT) else None
                if v is not None and z3.is_const(x) and numeral(x) is None:
                    new[x.get_id()] = v
                    KEEP.append(x)
    if new != FIX:
        FIX.clear()
        FIX.update(new)
        _cache.clear()


KEEP = []


def ratio(p, b):
    """constant c with p = c*b, or None"""
    if not p:
        return Fraction(0)
    m = next(iter(b))
    if m not in p:
        return None
    c = p[m] / b[m]
    return c if not padd(p, b, -c) else None


def match(P, at, kind, A, Bp, q, d, keys):
    # divisor must be c*monomial (single term); sums are handled through their first monomial
    if len(Bp) == 1:
        (mb, cb), = Bp.items()
        if not mb:
            return
        # split P and A into multiples of the divisor's monomial and the rest
        cofP, restP = split(P, mb)
        cofA, restA = split(A, mb)
        if not cofP:
            return
        ks = []
        for m, v in restA.items():
            if m in restP:
                ks.append(-restP[m] / v)
                break
        else:
            if not restA:      # numerator itself a multiple of the divisor
                return
        for k in ks:
            # P = cofP*mb + restP ; k*A = k*cofA*mb + k*restA
            left = padd(restP, restA, k)          # what is not explained; must be 0 for an exact lemma
            if left:
                continue
            cof = padd(cofP, cofA, k)             # P = cof*mb - k*A  (as restP = -k*restA)
            # in units of the divisor: mb = b/cb
            cofb = {m: v / cb for m, v in cof.items()}
            yield from emit(P, at, cofb, k, kind, Bp, q, d, keys)
    else:
        # divisor is a sum: try exact division of P + k*A by it
        m0 = max(Bp, key=lambda m: (len(m), m))
        ks = set()
        for m, v in A.items():
            if m in P:
                ks.add(-P[m] / v)
        for k in list(ks)[:3]:
            cof = exact_div(padd(P, A, k), Bp)
            if cof is not None and cof:
                yield from emit(P, at, cof, k, kind, Bp, q, d, keys)


def exact_div(p, b):
    lead = max(b, key=lambda m: (len(m), m))
    q = {}
    n = 0
    p = dict(p)
    while p:
        n += 1
        if n > 30:
            return None
        cand = None
        for m in sorted(p, key=lambda m: (-len(m), m)):
            r = mdiv(m, lead)
            if r is not None:
                cand = (m, r)
                break
        if cand is None:
            return None
        m, r = cand
        c = p[m] / b[lead]
        q[r] = q.get(r, 0) + c
        p = padd(p, pmul({r: c}, b), -1)
    return q


def mdiv(m, l):
    m = list(m)
    for x in l:
        if x not in m:
            return None
        m.remove(x)
    return tuple(m)


def split(p, mb):
    cof, rest = {}, {}
    for m, v in p.items():
        r = mdiv(m, mb)
        if r is None:
            rest[m] = v
        else:
            cof[r] = v
    return cof, rest


def emit(P, at, cof, k, kind, Bp, q, d, keys):
    key = (tuple(sorted(P.items())), d[3].get_id())
    if key in keys:
        return
    keys.add(key)
    b = toz(Bp)
    p0, p1 = at.arg(0), at.arg(1)
    c = toz(cof)
    kz = z3.RealVal(str(k))
    if kind == 'r':
        rhs = c - kz * q
        yield z3.Implies(b > 0, z3.And((p0 < p1) == (rhs < 0), (p0 <= p1) == (rhs <= 0)))
        yield z3.Implies(b < 0, z3.And((p0 > p1) == (rhs < 0), (p0 >= p1) == (rhs <= 0)))
    else:
        # integer quotient: k*a = k*b*q + k*r
        r = z3.ToReal(d[4]) if d[4].sort() == z3.IntSort() else d[4]
        qr = z3.ToReal(q)
        pr = p0 - p1
        if pr.sort() == z3.IntSort():
            pr = z3.ToReal(pr)
        D = c - kz * qr        # P = b*D - k*r
        if k > 0:
            yield z3.Implies(b > 0, z3.And(z3.Implies(D <= 0, p0 <= p1), z3.Implies(D >= kz, p0 > p1),
                                           z3.Implies(D <= -kz, pr <= -kz * b), z3.Implies(z3.And(D == 0), pr == -kz * r)))
        else:
            kk = z3.RealVal(str(-k))
            yield z3.Implies(b > 0, z3.And(z3.Implies(D >= 0, p0 >= p1), z3.Implies(D <= -kk, p0 < p1),
                                           z3.Implies(D >= kk, pr >= kk * b), z3.Implies(z3.And(D == 0), pr == kk * r)))
