"""Solver queries over path constraints: slicing, caching, models, statistics."""
import math
import time
from fractions import Fraction
import z3
from . import poly
from .poly import Poly, VARS


class Stats:
    def __init__(self):
        self.queries = self.sat = self.unsat = self.unknown = self.cached = 0
        self.time = 0.0
        self.max_time = 0.0

    def as_dict(self):
        return dict(queries=self.queries, sat=self.sat, unsat=self.unsat, unknown=self.unknown,
                    cached=self.cached, solver_s=round(self.time, 3), max_query_s=round(self.max_time, 3))


STATS = Stats()

_zv = {}
_alive = []


def zvars(e):
    """Ids of the variables of a z3 term: ints for real variables of poly.VARS, names for others."""
    i = e.get_id()
    r = _zv.get(i)
    if r is None:
        out = set()
        seen = set()
        stack = [e]
        while stack:
            x = stack.pop()
            k = x.get_id()
            if k in seen:
                continue
            seen.add(k)
            if z3.is_const(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(varid(x))
            else:
                q = _zv.get(k)
                if q is not None:
                    out |= q
                else:
                    stack.extend(x.children())
        r = _zv[i] = frozenset(out)
        _alive.append(e)
    return r


def varid(x):
    n = x.decl().name()
    if z3.is_real(x):
        return int(n.rsplit('!', 1)[1])
    return n


NEG, ZERO, POS = 1, 2, 4


class SB:
    """A symbolic boolean: a sign condition on a polynomial (p, mask) or a z3 term."""
    __slots__ = ('p', 'mask', '_z', '_vs')

    def __init__(self, p=None, mask=0, z=None):
        self.p = p
        self.mask = mask
        self._z = z
        self._vs = None

    def z(self):
        if self._z is None:
            self._z = sign_z(self.p, self.mask)
        return self._z

    def vars(self):
        if self._vs is None:
            self._vs = self.p.vars() if self.p is not None else zvars(self._z)
        return self._vs

    def neg(self):
        if self.p is not None:
            return SB(self.p, 7 & ~self.mask)
        if z3.is_not(self._z):
            return SB(z=self._z.arg(0))
        return SB(z=z3.Not(self._z))


_sz = {}


def sign_z(p, mask):
    k = (p.key(), mask)
    z = _sz.get(k)
    if z is None:
        x = p.z()
        z = {1: lambda: x < 0, 2: lambda: x == 0, 3: lambda: x <= 0, 4: lambda: x > 0, 5: lambda: x != 0,
             6: lambda: x >= 0}[mask]()
        _sz[k] = z
    return z


_np = {}


def exp_order(p):
    """c exp(a) - c exp(b) has the sign of a - b, if c > 0."""
    if len(p.d) != 2:
        return None
    (m1, c1), (m2, c2) = p.d.items()
    if c1 != -c2 or len(m1) != 1 or len(m2) != 1 or m1[0][1] != 1 or m2[0][1] != 1:
        return None
    a, b = poly.EXPS.get(m1[0][0]), poly.EXPS.get(m2[0][0])
    if a is None or b is None:
        return None
    return poly.sub(a, b) if c1 > 0 else poly.sub(b, a)


def sign_cond(p, mask):
    """Condition sign(p) in mask; p a Poly or a number. Returns bool or SB."""
    if type(p) is not Poly:
        s = NEG if p < 0 else POS if p > 0 else ZERO
        return bool(s & mask)
    q = exp_order(p)
    if q is not None:
        return sign_cond(q, mask)
    p = poly.by_name(p)
    k = p.key()
    r = _np.get(k)
    if r is None:
        m0 = min(p.d)
        if m0 == () and len(p.d) > 1:
            m0 = min(m for m in p.d if m)
        c = Fraction(p.d[m0])
        flip = c < 0
        q = poly.scale(p, poly.norm(1 / abs(c)))
        if flip:
            q = poly.neg(q)
        lo, hi = q.interval()
        im = 7
        if lo > 0:
            im = POS
        elif hi < 0:
            im = NEG
        elif lo == 0:
            im = POS | ZERO
        if p.nn:
            im &= (NEG if flip else POS) | ZERO
        r = _np[k] = (q, flip, im)
    q, flip, im = r
    if flip:
        mask = (mask & 2) | ((mask & 1) << 2) | ((mask & 4) >> 2)
    if im & mask == im:
        return True
    if im & mask == 0:
        return False
    if mask == 7:
        return True
    if mask == 0:
        return False
    return SB(q, mask)


def closure(cons, extra, opaque=False):
    """The constraints connected to extra by shared variables, with the definitions of all variables involved."""
    vs = set()
    for _, v in extra:
        vs |= v
    out = []
    rest = list(cons)
    done = set()
    defs = []
    seen_def = set()
    exps = []
    while True:
        new = vs - done
        if not new:
            break
        for v in new:
            done.add(v)
            if type(v) is int:
                V = VARS[v]
                if opaque and V.kind == 'def':
                    continue
                if V.kind == 'exp':
                    for w in exps:
                        defs.append(exp_mono(w, v))
                        vs |= poly.EXPS[w].vars() | poly.EXPS[v].vars()
                    exps.append(v)
                for d in V.defs:
                    i = d[0].get_id()
                    if i not in seen_def:
                        seen_def.add(i)
                        defs.append(d[0])
                        vs |= d[1]
        keep = []
        for c in rest:
            if c[1] & vs:
                out.append(c)
                vs |= c[1]
            else:
                keep.append(c)
        rest = keep
    bounds = []
    for v in done:
        if type(v) is int:
            V = VARS[v]
            bounds.extend(var_bounds(V))
    return out, defs, bounds, done


_vb = {}


def var_bounds(V):
    k = (V.id, V.lo, V.hi)
    r = _vb.get(k)
    if r is None:
        r = []
        if V.lo is not None:
            r.append(V.z > poly.zconst(V.lo) if V.kind == 'angle_open' else V.z >= poly.zconst(V.lo))
        if V.hi is not None:
            r.append(V.z <= poly.zconst(V.hi))
        _vb[k] = r
    return r


_em = {}


def exp_mono(a, b):
    k = (min(a, b), max(a, b))
    r = _em.get(k)
    if r is None:
        p, q = poly.EXPS[k[0]].z(), poly.EXPS[k[1]].z()
        x, y = VARS[k[0]].z, VARS[k[1]].z
        r = _em[k] = z3.And((p < q) == (x < y), (p == q) == (x == y),
                            z3.Implies(z3.And(p >= q, p <= 0), x - y <= p - q), z3.Implies(z3.And(q >= p, q <= 0), y - x <= q - p))
    return r


_cache = {}


class Result:
    __slots__ = ('status', 'vals', 'other')


def frac(v):
    """z3 value -> Fraction or None (irrational), approximation."""
    if z3.is_rational_value(v):
        f = Fraction(v.numerator_as_long(), v.denominator_as_long())
        return f, f
    if z3.is_algebraic_value(v):
        a = v.approx(25)
        return None, Fraction(a.numerator_as_long(), a.denominator_as_long())
    return None, None


_lin = {}
_lv = {}


def linear(f):
    """The formula with every nonlinear monomial replaced by a variable of its own; and those variables' bounds."""
    r = _lin.get(f.get_id())
    if r is not None:
        return r
    found = {}
    seen = set()
    stack = [f]
    while stack:
        x = stack.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        if k in poly.MONO:
            found[k] = poly.MONO[k]
            continue
        stack.extend(x.children())
    pairs, bounds = [], []
    for k, (t, m) in found.items():
        v = _lv.get(k)
        if v is None:
            x = z3.Real('mono!%d' % k)
            lo, hi = Poly({m: 1}).interval()
            b = []
            if math.isfinite(lo):
                b.append(x >= poly.zconst(lo))
            if math.isfinite(hi):
                b.append(x <= poly.zconst(hi))
            v = _lv[k] = (x, b)
        pairs.append((t, v[0]))
        bounds.extend(v[1])
    r = _lin[f.get_id()] = (z3.substitute(f, pairs) if pairs else f, bounds)
    _alive.append(f)
    return r


def linear_unsat(fs, timeout):
    s = z3.SolverFor('QF_LRA')
    s.set('timeout', max(30, int(timeout * 1000)))
    any_mono = False
    for f in fs:
        g, b = linear(f)
        s.add(g)
        s.add(b)
        any_mono = any_mono or bool(g.get_id() != f.get_id())
    if not any_mono:
        return False
    try:
        return s.check() == z3.unsat
    except z3.Z3Exception:
        return False


def query(cons, extra, timeout=3.0, final=False, full=False):
    """Satisfiability of cons and extra (lists of (z3 bool, var ids)). vals: {var id: Fraction or None},
    other: {name: z3 value}, approx values in vals_approx."""
    if full:
        sl, defs, bounds, vs = closure(cons, list(cons) + extra)
    else:
        sl, defs, bounds, vs = closure(cons, extra)
    fs = [c[0] for c in extra] + [c[0] for c in sl] + defs + bounds
    key = (frozenset(f.get_id() for f in fs))
    r = _cache.get(key)
    if r is not None and (r[0] != 'unknown' or r[2] >= timeout):
        STATS.cached += 1
        return r
    t0 = time.time()
    st = 'unknown'
    if not full and any(type(v) is int and VARS[v].kind == 'def' for v in vs):
        # a relaxation: named intermediate results are arbitrary
        s2, d2, b2, v2 = closure(cons, extra, True)
        near = [c[0] for c in extra] + [c[0] for c in s2] + d2 + b2
        if len(near) < len(fs):
            st, model = solve(near, min(0.5, timeout), False)
            if st != 'unsat':
                st = 'unknown'
    if st == 'unknown' and not full and not classify(fs)[1] and linear_unsat(fs, min(0.5, timeout)):
        # a relaxation: products are arbitrary
        st = 'unsat'
    if st == 'unknown':
        st, model = solve(fs, timeout, final)
    dt = time.time() - t0
    STATS.queries += 1
    STATS.time += dt
    STATS.max_time = max(STATS.max_time, dt)
    setattr(STATS, st, getattr(STATS, st) + 1)
    vals = None
    if st == 'sat':
        vals = {}
        for v in vs:
            if type(v) is int:
                vals[v] = frac(model.eval(VARS[v].z, model_completion=True))
            else:
                vals[v] = None
        vals['model'] = model
    r = (st, vals, timeout)
    _cache[key] = r
    _alive.append(fs)
    return r


def classify(fs):
    real = other = False
    seen = set()
    stack = list(fs)
    while stack:
        x = stack.pop()
        k = x.get_id()
        if k in seen:
            continue
        seen.add(k)
        s = x.sort_kind()
        if s == z3.Z3_REAL_SORT:
            real = True
        elif s != z3.Z3_BOOL_SORT:
            other = True
        if real and other:
            break
        stack.extend(x.children())
    return real, other


def solve(fs, timeout, final):
    real, other = classify(fs)
    tries = []
    if other:
        tries = [(lambda: z3.Solver(), 1.0)]
    else:
        tries = [(lambda: z3.SolverFor('QF_NRA'), 0.5), (lambda: z3.Solver(), 0.25), (lambda: z3.Tactic('qfnra-nlsat').solver(), 0.25)]
    if timeout < 0.2:
        tries = [(tries[0][0], 1.0)]
    for mk, share in tries:
        s = mk()
        s.set('timeout', max(30, int(timeout * 1000 * share)))
        s.add(fs)
        try:
            r = s.check()
        except z3.Z3Exception:
            continue
        if r == z3.unsat:
            return 'unsat', None
        if r == z3.sat:
            try:
                return 'sat', s.model()
            except z3.Z3Exception:
                continue
    if final and not other:
        r = cvc5_check(fs, timeout)
        if r == 'unsat':
            return 'unsat', None
    return 'unknown', None


def cvc5_check(fs, timeout):
    try:
        import cvc5
        s = z3.Solver()
        s.add(fs)
        text = '(set-logic QF_NRA)\n' + s.to_smt2()
        slv = cvc5.Solver()
        slv.setOption('tlimit-per', str(int(timeout * 1000)))
        slv.setOption('nl-cov', 'true')
        p = cvc5.InputParser(slv)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, text, 'q')
        sm = p.getSymbolManager()
        out = ''
        while True:
            c = p.nextCommand()
            if c.isNull():
                break
            o = c.invoke(slv, sm)
            if o:
                out += str(o)
        return out.strip().split('\n')[-1] if out else 'unknown'
    except Exception:
        return 'unknown'
