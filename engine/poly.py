"""Real-valued symbolic terms: polynomials over solver variables with exact rational coefficients.

A term is kept in a canonical form modulo the rewriting rules of the variables it uses
(r^2 -> x for r = sqrt(x), s^2 -> 1 - c^2 for sine and cosine of one angle, v * (1/v) -> 1, half angles), so that
many algebraic identities hold by construction; everything else is left to the SMT solver, which gets the
definitions of all variables a query mentions (DEFS)."""
import math
from fractions import Fraction
import z3

PI = Fraction(math.pi)          # pi is the double M_PI throughout
TWO_PI = 2 * PI


class Unsupported(Exception):
    pass


class Var:
    __slots__ = ('id', 'name', 'z', 'lo', 'hi', 'kind', 'info', 'defs', 'flo', 'fhi')


VARS = []
SQ = {}         # vid -> Poly or number: value of v*v
PAIR = {}       # (v, w) v<w -> Poly or number: value of v*w
_memo = {}      # function applications


def new_var(name, lo=None, hi=None, kind='input', info=None):
    v = Var()
    v.id = len(VARS)
    v.name = '%s!%d' % (name, v.id)
    v.z = z3.Real(v.name)
    v.lo = None if lo is None else Fraction(lo)
    v.hi = None if hi is None else Fraction(hi)
    v.flo = -math.inf if lo is None else float(lo)
    v.fhi = math.inf if hi is None else float(hi)
    v.kind = kind
    v.info = info
    v.defs = []        # list of (z3 bool, frozenset of var ids)
    VARS.append(v)
    return v


def norm(c):
    return c.numerator if type(c) is Fraction and c.denominator == 1 else c


class Poly:
    __slots__ = ('d', '_k', '_z', '_vs', '_iv', 'nn')

    def __init__(self, d):
        self.d = d
        self._k = None
        self._z = None
        self._vs = None
        self._iv = None
        self.nn = False        # known to be >= 0

    def key(self):
        k = self._k
        if k is None:
            k = self._k = frozenset(self.d.items())
        return k

    def vars(self):
        v = self._vs
        if v is None:
            s = set()
            for m in self.d:
                for x, _ in m:
                    s.add(x)
            v = self._vs = frozenset(s)
        return v

    def z(self):
        z = self._z
        if z is None:
            terms = [zmono(m, c) for m, c in self.d.items()]
            z = self._z = terms[0] if len(terms) == 1 else z3.Sum(terms)
        return z

    def degree(self):
        return max((sum(e for _, e in m) for m in self.d), default=0)

    def __repr__(self):
        out = []
        for m, c in sorted(self.d.items(), key=lambda t: t[0]):
            out.append('*'.join(['%g' % float(c)] + [VARS[v].name + ('^%d' % e if e > 1 else '') for v, e in m]))
        return ' + '.join(out)

    def interval(self):
        iv = self._iv
        if iv is None:
            lo = hi = 0.0
            nneg = True
            for m, c in self.d.items():
                c = float(c)
                a, b = c, c
                for v, e in m:
                    x, y = VARS[v].flo, VARS[v].fhi
                    if e % 2 == 0:
                        l, h = (min(abs(x), abs(y)) if (x > 0) == (y > 0) and x * y > 0 else 0.0), max(abs(x), abs(y))
                        l, h = fpow(l, e), fpow(h, e)
                    else:
                        l, h = fpow(x, e), fpow(y, e)
                    ps = [fmul(a, l), fmul(a, h), fmul(b, l), fmul(b, h)]
                    a, b = min(ps), max(ps)
                lo += a
                hi += b
                nneg = nneg and a >= 0
            if math.isnan(lo):
                lo = -math.inf
            if math.isnan(hi):
                hi = math.inf
            s = 1e-12 * (1 + (abs(lo) if abs(lo) < 1e300 else 0) + (abs(hi) if abs(hi) < 1e300 else 0))
            lo -= s
            if nneg or self.nn:
                lo = max(lo, 0.0)
            iv = self._iv = (lo, hi + s)
        return iv


def fmul(a, b):
    return 0.0 if a == 0 or b == 0 else a * b


def fpow(x, e):
    try:
        return x ** e
    except OverflowError:
        return math.inf if x > 0 or e % 2 == 0 else -math.inf


_zm = {}
_zc = {}


def zconst(c):
    z = _zc.get(c)
    if z is None:
        z = _zc[c] = z3.RealVal(str(c))
    return z


MONO = {}   # z3 id of a nonlinear monomial -> (term, monomial)


def zmono(m, c):
    if not m:
        return zconst(c)
    z = _zm.get(m)
    if z is None:
        fs = []
        for v, e in m:
            fs.extend([VARS[v].z] * e)
        z = fs[0]
        for f in fs[1:]:
            z = z * f
        _zm[m] = z
        if len(fs) > 1:
            MONO[z.get_id()] = (z, m)
    return z if c == 1 else zconst(c) * z


def const(c):
    """Constant result of an operation: a double."""
    return float(c)


def of_var(v):
    return Poly({((v.id, 1),): 1})


def lift(x):
    """float/Fraction/int or Poly -> Poly (possibly constant)."""
    if type(x) is Poly:
        return x
    if type(x) is float:
        x = norm(Fraction(x))
    return Poly({(): x} if x else {})


def finish(d):
    if not d:
        return 0.0
    if len(d) == 1 and () in d:
        return float(d[()])
    return Poly(d)


def add(a, b):
    if type(a) is not Poly and type(b) is not Poly:
        return float(a) + float(b)
    a, b = lift(a), lift(b)
    if len(a.d) < len(b.d):
        a, b = b, a
    d = dict(a.d)
    for m, c in b.d.items():
        x = d.get(m)
        if x is None:
            d[m] = c
        else:
            x = norm(x + c)
            if x:
                d[m] = x
            else:
                del d[m]
    r = finish(d)
    if type(r) is Poly and nonneg(a) and nonneg(b):
        r.nn = True
    return r


def nonneg(a):
    return a.nn or len(a.d) == 1 and (() in a.d and a.d[()] >= 0) or len(a.d) < 4 and a.interval()[0] >= 0


def scale(a, k):
    if type(k) is float:
        k = norm(Fraction(k))
    if type(a) is not Poly:
        return float(Fraction(a) * k)
    if not k:
        return 0.0
    if k == 1:
        return a
    r = Poly({m: norm(c * k) for m, c in a.d.items()})
    r.nn = a.nn and k > 0
    return r


def neg(a):
    if type(a) is not Poly:
        return -a
    return Poly({m: -c for m, c in a.d.items()})


def sub(a, b):
    return add(a, neg(b))


_mm = {}


def mono_mul(m1, m2):
    """Product of two monomials as a dict, in canonical form."""
    if not m1:
        return {m2: 1}
    if not m2:
        return {m1: 1}
    if m2 < m1:
        m1, m2 = m2, m1
    k = (m1, m2)
    r = _mm.get(k)
    if r is None:
        e = dict(m1)
        for v, n in m2:
            e[v] = e.get(v, 0) + n
        r = _mm[k] = reduce_mono(e)
    return r


def reduce_mono(e):
    factor = None
    for v in list(e):
        n = e.get(v, 0)
        if n >= 2 and v in SQ:
            q, rem = divmod(n, 2)
            if rem:
                e[v] = 1
            else:
                del e[v]
            x = SQ[v]
            for _ in range(q):
                factor = x if factor is None else mul(factor, x)
    if len(e) > 1 and PAIR:
        again = True
        while again:
            again = False
            vs = sorted(v for v in e if v in _inpair)
            for i, v in enumerate(vs):
                for w in vs[i + 1:]:
                    x = PAIR.get((v, w))
                    if x is not None:
                        for u in (v, w):
                            if e[u] == 1:
                                del e[u]
                            else:
                                e[u] -= 1
                        factor = x if factor is None else mul(factor, x)
                        again = True
                        break
                if again:
                    break
    m = tuple(sorted(e.items()))
    if factor is None:
        return {m: 1}
    p = mul(Poly({m: 1}) if m else 1, factor)
    if type(p) is Poly:
        return p.d
    p = norm(Fraction(p))
    return {(): p} if p else {}


_inpair = set()


def set_pair(v, w, x):
    if w < v:
        v, w = w, v
    PAIR[(v, w)] = x
    _inpair.add(v)
    _inpair.add(w)
    _mm.clear()


def set_sq(v, x):
    SQ[v] = x
    _mm.clear()


MAXTERMS = 400


def mul(a, b):
    ta, tb = type(a) is Poly, type(b) is Poly
    if not ta and not tb:
        return a * b if type(a) is float and type(b) is float else float(Fraction(a) * Fraction(b))
    if not ta:
        return scale(b, a)
    if not tb:
        return scale(a, b)
    if NAMED:
        a, b = by_name(a), by_name(b)
    nn = a is b or a.nn and b.nn or a.d == b.d
    if len(a.d) * len(b.d) > MAXTERMS:
        if len(a.d) > 12:
            a = name_poly(a)
        if len(b.d) > 12:
            b = name_poly(b)
    d = {}
    for m1, c1 in a.d.items():
        for m2, c2 in b.d.items():
            c = c1 * c2
            for m, k in mono_mul(m1, m2).items():
                x = d.get(m)
                d[m] = c * k if x is None else x + c * k
    r = finish({m: norm(c) for m, c in d.items() if c})
    if nn and type(r) is Poly:
        r.nn = True
    if type(r) is Poly and len(a.d) > 1 and a.d == b.d:
        q, k = normalized(r)
        ROOT.setdefault(q.key(), (a, k))
    return r


ROOT = {}       # key of a normalized square -> (its root, factor)
NAMED = {}      # key of a polynomial -> the variable that stands for it in products and conditions


def normalized(p):
    """(q, k): p = k * q, q with leading coefficient 1."""
    k = Fraction(p.d[min(p.d)])
    return scale(p, norm(1 / k)), k


def announce(p):
    """From now on p is known by a name of its own."""
    q, k = normalized(p)
    if q.key() not in NAMED:
        if k < 0:
            NAMED[q.key()] = scale(name_poly(neg(q)), -1)
        else:
            q.nn = p.nn
            NAMED[q.key()] = name_poly(q)
        _mm.clear()
    return scale(NAMED[q.key()], norm(k))


def by_name(p):
    if NAMED and len(p.d) > 1:
        q, k = normalized(p)
        v = NAMED.get(q.key())
        if v is not None:
            return scale(v, norm(k))
    return p


def name_poly(p):
    """A fresh variable equal to p (keeps products small)."""
    k = ('name', p.key())
    v = _memo.get(k)
    if v is None:
        lo, hi = p.interval()
        v = new_var('t', 0 if p.nn else None if lo == -math.inf else lo, None if hi == math.inf else hi, 'def', p)
        v.defs.append((v.z == p.z(), p.vars() | {v.id}))
        _memo[k] = v
    return of_var(v)


def inverse(p):
    """1/p for p != 0 (the caller has decided that)."""
    # pull out the leading coefficient
    m0 = min(p.d)
    k = p.d[m0]
    p = scale(p, norm(1 / Fraction(k)))
    root = ROOT.get(p.key())
    if root is not None:
        i = inverse(root[0])
        return scale(mul(i, i), norm(root[1] / Fraction(k)))
    key = ('inv', p.key())
    v = _memo.get(key)
    if v is None:
        lo, hi = p.interval()
        il = ih = None
        if lo > 0 or hi < 0:
            il, ih = 1 / hi, 1 / lo
            il -= abs(il) * 1e-9
            ih += abs(ih) * 1e-9
        v = new_var('inv', il, ih, 'inv', p)
        v.defs.append((v.z * p.z() == 1, p.vars() | {v.id}))
        _memo[key] = v
        if len(p.d) == 1:
            (m, _), = p.d.items()
            if len(m) == 1 and m[0][1] == 1:
                set_pair(m[0][0], v.id, 1)
        else:
            # the leading monomial times 1/p can be rewritten: m0/p = 1 - rest/p (only for single variables)
            pass
    return scale(of_var(v), norm(1 / Fraction(k)))


def proportional(a, b):
    """k with a == k*b, or None."""
    if len(a.d) != len(b.d):
        return None
    k = None
    for m, c in a.d.items():
        y = b.d.get(m)
        if y is None:
            return None
        q = Fraction(c) / Fraction(y)
        if k is None:
            k = q
        elif q != k:
            return None
    return k


def div(a, b):
    """a / b, b != 0 symbolic or constant."""
    if type(b) is not Poly:
        return scale(a, norm(1 / Fraction(b)))
    if type(a) is Poly:
        k = proportional(a, b)
        if k is not None:
            return float(k)
    # cancel a single-variable divisor exactly
    if type(a) is Poly and len(b.d) == 1:
        (mb, cb), = b.d.items()
        out = {}
        for m, c in a.d.items():
            e = dict(m)
            for v, n in mb:
                if e.get(v, 0) < n:
                    break
                e[v] -= n
            else:
                out[tuple(sorted((v, n) for v, n in e.items() if n))] = norm(Fraction(c) / cb)
                continue
            break
        else:
            return finish(out)
        if len(mb) > 1 or mb[0][1] > 1:
            # divide factor by factor
            r = scale(a, norm(1 / Fraction(cb)))
            for v, n in mb:
                iv = inverse(Poly({((v, 1),): 1}))
                for _ in range(n):
                    r = mul(r, iv)
            return r
    elif len(b.d) == 1:
        (mb, cb), = b.d.items()
        r = scale(a, norm(1 / Fraction(cb))) if type(a) is Poly else float(Fraction(a) / cb)
        for v, n in mb:
            iv = inverse(Poly({((v, 1),): 1}))
            for _ in range(n):
                r = mul(r, iv)
        return r
    return mul(a, inverse(b))


def sqrt(p):
    """sqrt of a symbolic p >= 0 (the caller has decided that)."""
    # perfect square of a monomial with a known non-negative root
    key = ('sqrt', p.key())
    r = _memo.get(key)
    if r is None:
        if len(p.d) == 1:
            (m, c), = p.d.items()
            rt = Fraction(c)
            n, d = math.isqrt(rt.numerator) if rt > 0 else 0, math.isqrt(rt.denominator)
            if rt > 0 and n * n == rt.numerator and d * d == rt.denominator and all(e % 2 == 0 for _, e in m):
                q = tuple((v, e // 2) for v, e in m)
                if all(VARS[v].flo >= 0 for v, e in q):
                    r = Poly({q: norm(Fraction(n, d))})
        if r is None:
            lo, hi = p.interval()
            v = new_var('sqrt', max(0.0, math.sqrt(max(lo, 0.0)) * (1 - 1e-9)) if lo > 0 else 0,
                        math.sqrt(hi) * (1 + 1e-9) + 1e-9 if hi < math.inf else None, 'sqrt', p)
            v.defs.append((v.z * v.z == p.z(), p.vars() | {v.id}))
            v.defs.append((v.z >= 0, frozenset([v.id])))
            set_sq(v.id, p)
            r = of_var(v)
        _memo[key] = r
    return r


# ---------------------------------------------------------------- angles
TRIG = {}       # vid of an angle variable -> (cos Poly, sin Poly)
HALF = {}       # vid -> Var for half of it
ANGLE_LINK = {}  # vid of c or s -> vid of the angle


def trig_of(v):
    t = TRIG.get(v)
    if t is None:
        V = VARS[v]
        c = new_var('cos_' + V.name.split('!')[0], -1, 1, 'cos', v)
        s = new_var('sin_' + V.name.split('!')[0], -1, 1, 'sin', v)
        unit = (c.z * c.z + s.z * s.z == 1, frozenset([c.id, s.id]))
        c.defs.append(unit)
        s.defs.append(unit)
        link = link_lemmas(V, c, s)
        if link:
            for f in link:
                e = (f, frozenset([v, c.id, s.id]))
                V.defs.append(e)
                if not full_circle(V):
                    c.defs.append(e)
                    s.defs.append(e)
        set_sq(s.id, Poly({(): 1, ((c.id, 2),): -1}))
        t = TRIG[v] = (of_var(c), of_var(s))
        ANGLE_LINK[c.id] = v
        ANGLE_LINK[s.id] = v
    return t


def full_circle(V):
    return V.kind in ('angle',) or V.lo is None or V.hi is None or V.hi - V.lo >= TWO_PI - Fraction(1, 10**9)


def link_lemmas(V, c, s):
    if V.lo is None or V.hi is None or V.lo < -PI - Fraction(1, 10**9) or V.hi > PI + Fraction(1, 10**9):
        return []
    t, pi = V.z, zconst(PI)
    return [z3.Implies(z3.And(t > 0, t < pi), s.z > 0), z3.Implies(z3.And(t < 0, t > -pi), s.z < 0),
            z3.Implies(t == 0, c.z == 1),
            z3.Implies(z3.And(2 * t < pi, 2 * t > -pi), c.z > 0), z3.Implies(z3.Or(2 * t > pi, 2 * t < -pi), c.z < 0),
            z3.Implies(z3.Or(t == pi, t == -pi), c.z == -1),
            z3.Implies(z3.Or(2 * t == pi, 2 * t == -pi), c.z == 0),
            2 * (1 - c.z) <= t * t, pi * pi * (1 - c.z) >= 2 * t * t,
            z3.Implies(t >= 0, s.z <= t), z3.Implies(t <= 0, s.z >= t),
            z3.Implies(z3.And(t >= 0, 2 * t <= pi), pi * s.z >= 2 * t),
            z3.Implies(z3.And(t <= 0, 2 * t >= -pi), pi * s.z <= 2 * t)]


def half_of(v):
    h = HALF.get(v)
    if h is None:
        V = VARS[v]
        h = new_var('half_' + V.name.split('!')[0], None if V.lo is None else V.lo / 2, None if V.hi is None else V.hi / 2, 'half', v)
        h.defs.append((2 * h.z == V.z, frozenset([h.id, v])))
        c, s = trig_of(v)
        ch, sh = trig_of(h.id)
        (chv,), (shv,) = ch.vars(), sh.vars()
        set_sq(chv, scale(add(1.0, c), Fraction(1, 2)))
        set_sq(shv, scale(sub(1.0, c), Fraction(1, 2)))
        set_pair(chv, shv, scale(s, Fraction(1, 2)))
        both = frozenset([chv, shv]) | c.vars() | s.vars()
        C, S, CH, SH = c.z(), s.z(), VARS[chv].z, VARS[shv].z
        for f in (2 * CH * CH == 1 + C, 2 * SH * SH == 1 - C, 2 * CH * SH == S):
            VARS[chv].defs.append((f, both))
            VARS[shv].defs.append((f, both))
        if V.lo is not None and V.hi is not None and V.lo >= -PI - 1 and V.hi <= PI + 1:
            if V.lo >= -PI - Fraction(1, 10**9) and V.hi <= PI + Fraction(1, 10**9):
                VARS[chv].lo, VARS[chv].flo = Fraction(0), 0.0
        HALF[v] = h
    return h


def snap(x):
    for k in (0.0, 1.0, -1.0, 0.5, -0.5):
        if abs(x - k) < 2e-15:
            return k
    return x


def trig_linear(p):
    """(cos p, sin p) for a symbolic p."""
    key = ('trig', p.key())
    r = _memo.get(key)
    if r is not None:
        return r
    k0 = Fraction(0)
    parts = []
    linear = all(len(m) == 0 or (len(m) == 1 and m[0][1] == 1) for m in p.d)
    if linear:
        for m, c in p.d.items():
            if not m:
                k0 = Fraction(c)
                continue
            v = m[0][0]
            c = Fraction(c)
            if c.denominator == 1 and abs(c) <= 4:
                parts.append((v, int(c)))
            elif c.denominator == 2 and abs(c) <= 4:
                parts.append((half_of(v).id, int(c * 2)))
            else:
                linear = False
    if not linear:
        lo, hi = p.interval()
        v = new_var('ang', None if lo == -math.inf else lo, None if hi == math.inf else hi, 'alias', p)
        v.defs.append((v.z == p.z(), p.vars() | {v.id}))
        parts, k0 = [(v.id, 1)], Fraction(0)
    k = float(k0 - TWO_PI * round(k0 / TWO_PI))
    c, s = snap(math.cos(k)), snap(math.sin(k))
    for v, n in parts:
        c1, s1 = trig_of(v)
        if n < 0:
            s1, n = neg(s1), -n
        for _ in range(n):
            c, s = sub(mul(c, c1), mul(s, s1)), add(mul(s, c1), mul(c, s1))
    _memo[key] = (c, s)
    return c, s


H = Fraction(1, 2)


def close_const(a, b):
    """a - b is constant and negligible."""
    d = sub(a, b)
    return type(d) is not Poly and abs(d) < 1e-12


def negligible(a, b):
    """a and b differ by negligible coefficients only (bounded variables)."""
    d = sub(a, b)
    if type(d) is not Poly:
        return abs(d) < 1e-12
    return all(abs(c) < 1e-13 for c in d.d.values())


def find_angle(y, x):
    """A linear combination L of angle variables with x = r cos L, y = r sin L (up to rounding, constant r > 0), or None."""
    vs = (x.vars() if type(x) is Poly else frozenset()) | (y.vars() if type(y) is Poly else frozenset())
    angs = set()
    for v in vs:
        a = ANGLE_LINK.get(v)
        if a is None:
            return None
        angs.add(a)
    if not angs or len(angs) > 3:
        return None
    halves = set()
    for a in list(angs):
        V = VARS[a]
        if V.kind == 'half':
            angs.discard(a)
            angs.add(V.info)
            halves.add(V.info)
    angs = sorted(angs)
    cands = [0.0]
    combos = [()]
    for a in angs:
        combos = [c + (k,) for c in combos for k in ((H, -H, 1, -1, 3 * H, -3 * H, 0) if a in halves else (1, -1, 2, -2, 0))]
    from itertools import product
    for co in combos:
        L = 0.0
        for a, k in zip(angs, co):
            L = add(L, scale(of_var(VARS[a]), k))
        if type(L) is not Poly:
            continue
        c, s = trig_linear(L)
        if negligible(c, x) and negligible(s, y):
            return L
        # constant offset: x = cos(L + k) -> coefficients of cos L give cos k, sin k
        # cos(L+k) = cos k c - sin k s
        kc, ks = offset_of(x, c, s)
        if kc is not None and kc * kc + ks * ks > 1e-9:
            k = math.atan2(-ks, kc)
            if negligible(add(scale(s, kc), scale(c, -ks)), y):
                return add(L, k)
    del cands, product
    return None


def offset_of(x, c, s):
    """x == kc*c + ks*s for constants, or (None, None); c and s in canonical form without common monomials."""
    if type(x) is not Poly or type(c) is not Poly or type(s) is not Poly:
        return None, None
    mc = next((m for m in c.d if m not in s.d), None)
    ms = next((m for m in s.d if m not in c.d), None)
    if mc is None or ms is None:
        return None, None
    kc = Fraction(x.d.get(mc, 0)) / Fraction(c.d[mc])
    ks = Fraction(x.d.get(ms, 0)) / Fraction(s.d[ms])
    if negligible(add(scale(c, kc), scale(s, ks)), x):
        return float(kc), float(ks)
    return None, None


def atan2_alias(y, x):
    """An angle variable phi in [-pi, pi] with (x, y) = r (cos phi, sin phi), r > 0 (the caller decided (x,y) != 0)."""
    key = ('atan2', lift(y).key(), lift(x).key())
    v = _memo.get(key)
    if v is None:
        q = add(mul(x, x), mul(y, y))
        v = new_var('atan2', -PI, PI, 'angle')
        c, s = trig_of(v.id)
        r = sqrt(q) if type(q) is Poly else math.sqrt(q)
        X, Y, R = lift(x), lift(y), lift(r)
        for e, t in ((X, c), (Y, s)):
            f = (e.z() if e.d else zconst(0)) == (R.z() * t.z())
            d = (f, e.vars() | R.vars() | t.vars())
            for u in (c, s):
                (uid,) = u.vars()
                VARS[uid].defs.append(d)
        _memo[key] = v
    return of_var(v)


# ---------------------------------------------------------------- exp
EXPS = {}       # vid of e -> Poly exponent


def exp(p):
    key = ('exp', p.key())
    r = _memo.get(key)
    if r is None:
        lo, hi = p.interval()
        v = new_var('exp', math.exp(max(lo, -700)) * (1 - 1e-9) if lo > -700 else 0,
                    math.exp(hi) * (1 + 1e-9) if hi < 700 else None, 'exp', p)
        z = p.z()
        vs = p.vars() | {v.id}
        v.defs += [(v.z > 0, frozenset([v.id])), (v.z >= 1 + z, vs), (z3.Implies(z <= 0, v.z <= 1), vs),
                   (z3.Implies(z < 0, v.z < 1), vs), (z3.Implies(z < 1, v.z * (1 - z) <= 1), vs)]
        EXPS[v.id] = p
        r = _memo[key] = of_var(v)
    return r


def evaluate(p, vals):
    """Value of p under {vid: Fraction}; None if a variable has none."""
    t = 0
    for m, c in p.d.items():
        for v, e in m:
            x = vals.get(v)
            if x is None:
                return None
            c = c * (x if e == 1 else x ** e)
        t += c
    return t
