"""Floating-point operations: IEEE on concrete values, exact reals or bit-precise FP terms on symbolic ones."""
import math
from fractions import Fraction
import z3
from . import poly
from .poly import Poly, Unsupported
from .solver import SB, NEG, ZERO, POS, sign_cond
from .symex import U, RealBits, Violation, f32, sx, i2f, i2f32

S64, S32 = z3.Float64(), z3.Float32()
RNE, RTZ = z3.RNE(), z3.RTZ()


def fpv(x, n=64):
    if type(x) is float:
        return z3.FPVal(x, S64 if n == 64 else S32)
    return x


def fpsimp(e):
    e = z3.simplify(e)
    if z3.is_fp_value(e):
        return fpval(e)
    return e


def fpval(e):
    """z3 FP numeral -> float."""
    if e.isNaN():
        return math.nan
    b = z3.simplify(z3.fpToIEEEBV(e)).as_long()
    return i2f(b) if e.sort() == S64 else i2f32(b)


def special(x):
    return type(x) is float and (x != x or x in (math.inf, -math.inf))


def sgn(ex, st, p):
    """Sign of a number or polynomial on this path: -1, 0, 1 (forks)."""
    if type(p) is not Poly:
        return -1 if p < 0 else 1 if p > 0 else 0
    if ex.decide(st, sign_cond(p, POS)):
        return 1
    if ex.decide(st, sign_cond(p, ZERO)):
        return 0
    return -1


def cdiv(x, y):
    """IEEE division of doubles."""
    if y == 0:
        if x != x or x == 0:
            return math.nan
        return math.copysign(math.inf, x) * math.copysign(1.0, y)
    try:
        return x / y
    except OverflowError:
        return math.inf


def fadd(ex, st, x, y):
    if type(x) is float and type(y) is float:
        return x + y
    if x is U or y is U:
        return U
    if ex.fp:
        return fpsimp(z3.fpAdd(RNE, fpv(x), fpv(y)))
    if special(x):
        return x
    if special(y):
        return y
    return poly.add(x, y)


def fsub(ex, st, x, y):
    if type(x) is float and type(y) is float:
        return x - y
    if x is U or y is U:
        return U
    if ex.fp:
        return fpsimp(z3.fpSub(RNE, fpv(x), fpv(y)))
    if special(x):
        return x
    if special(y):
        return -y
    return poly.sub(x, y)


def fmul(ex, st, x, y):
    if type(x) is float and type(y) is float:
        return x * y
    if x is U or y is U:
        return U
    if ex.fp:
        return fpsimp(z3.fpMul(RNE, fpv(x), fpv(y)))
    for a, b in ((x, y), (y, x)):
        if special(a):
            if a != a:
                return a
            s = sgn(ex, st, b)
            return math.nan if s == 0 else a * s
    return poly.mul(x, y)


def fdiv(ex, st, x, y):
    if type(x) is float and type(y) is float:
        return cdiv(x, y)
    if x is U or y is U:
        return U
    if ex.fp:
        return fpsimp(z3.fpDiv(RNE, fpv(x), fpv(y)))
    if special(x):
        if x != x:
            return x
        s = sgn(ex, st, y)
        return x if s >= 0 else -x
    if special(y):
        return math.nan if y != y else 0.0
    if type(y) is Poly:
        if ex.decide(st, sign_cond(y, ZERO)):
            s = sgn(ex, st, x)
            return math.nan if s == 0 else math.inf * s
    elif y == 0:
        s = sgn(ex, st, x)
        return math.nan if s == 0 else math.inf * s * math.copysign(1.0, y)
    return poly.div(x, y)


def frem(ex, st, x, y):
    return fmod(ex, st, x, y)


def fmod(ex, st, x, y):
    if x is U or y is U:
        return U
    if type(x) is float and type(y) is float:
        try:
            return math.fmod(x, y)
        except ValueError:
            return math.nan
    if ex.fp or special(x) or special(y):
        raise Unsupported('fmod')
    q = trunc_int(ex, st, fdiv(ex, st, x, y))
    return poly.sub(x, poly.scale(lift(y), q))


def lift(x):
    return x if type(x) is Poly else x


OPS = {'fadd': fadd, 'fsub': fsub, 'fmul': fmul, 'fdiv': fdiv, 'frem': frem}


def make_bin(ex, op, t, d, x, y):
    g = OPS[op]
    if t[0] == 'vec':
        def f(st, fr):
            r = fr.regs
            a, b = r[x], r[y]
            r[d] = U if a is U or b is U else [g(ex, st, p, q) for p, q in zip(a, b)]
        return f
    if t[1] == 32:
        def f(st, fr):
            r = fr.regs
            if ex.fp and not (type(r[x]) is float and type(r[y]) is float):
                a, b = r[x], r[y]
                if a is U or b is U:
                    r[d] = U
                    return
                h = {'fadd': z3.fpAdd, 'fsub': z3.fpSub, 'fmul': z3.fpMul, 'fdiv': z3.fpDiv}[op]
                r[d] = fpsimp(h(RNE, fpv(a, 32), fpv(b, 32)))
                return
            v = g(ex, st, r[x], r[y])
            r[d] = f32(v) if type(v) is float else v
        return f
    if op == 'fadd':
        def f(st, fr):
            r = fr.regs
            a, b = r[x], r[y]
            r[d] = a + b if type(a) is float and type(b) is float else fadd(ex, st, a, b)
        return f
    if op == 'fsub':
        def f(st, fr):
            r = fr.regs
            a, b = r[x], r[y]
            r[d] = a - b if type(a) is float and type(b) is float else fsub(ex, st, a, b)
        return f
    if op == 'fmul':
        def f(st, fr):
            r = fr.regs
            a, b = r[x], r[y]
            r[d] = a * b if type(a) is float and type(b) is float else fmul(ex, st, a, b)
        return f

    def f(st, fr):
        r = fr.regs
        r[d] = g(ex, st, r[x], r[y])
    return f


def fneg(x):
    if type(x) is float:
        return -x
    if x is U:
        return U
    if type(x) is Poly:
        return poly.neg(x)
    if type(x) is list:
        return [fneg(y) for y in x]
    return z3.fpNeg(x)


def fabs(ex, st, x):
    if type(x) is float:
        return abs(x)
    if x is U:
        return U
    if type(x) is Poly:
        return x if ex.decide(st, sign_cond(x, ZERO | POS)) else poly.neg(x)
    if type(x) is list:
        return [fabs(ex, st, y) for y in x]
    return z3.fpAbs(x)


MASK = {'eq': ZERO, 'ne': NEG | POS, 'lt': NEG, 'le': NEG | ZERO, 'gt': POS, 'ge': ZERO | POS}


def fcmp(ex, pred, x, y):
    if type(x) is list:
        return [fcmp(ex, pred, a, b) for a, b in zip(x, y)]
    if pred == 'true':
        return 1
    if pred == 'false':
        return 0
    if x is U or y is U:
        return U
    k = pred[1:]
    if type(x) is float and type(y) is float:
        if x != x or y != y:
            return 1 if pred[0] == 'u' else 0
        if pred == 'ord':
            return 1
        if pred == 'uno':
            return 0
        return int({'eq': x == y, 'ne': x != y, 'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[k])
    if ex.fp:
        n = 32 if (z3.is_fp(x) and x.sort() == S32) or (type(x) is float and y.sort() == S32) else 64
        a, b = fpv(x, n), fpv(y, n)
        nan = z3.Or(z3.fpIsNaN(a), z3.fpIsNaN(b))
        if pred == 'ord':
            r = z3.Not(nan)
        elif pred == 'uno':
            r = nan
        else:
            r = {'eq': z3.fpEQ, 'lt': z3.fpLT, 'le': z3.fpLEQ, 'gt': z3.fpGT, 'ge': z3.fpGEQ,
                 'ne': lambda p, q: z3.Not(z3.fpEQ(p, q))}[k](a, b)
            if pred[0] == 'u' and k != 'ne':
                r = z3.Or(nan, r)
            elif pred == 'one':
                r = z3.And(z3.Not(nan), r)
        r = z3.simplify(r)
        return 1 if z3.is_true(r) else 0 if z3.is_false(r) else SB(z=r)
    for a in (x, y):
        if special(a) and a != a:
            return 1 if pred[0] == 'u' else 0
    if pred == 'ord':
        return 1
    if pred == 'uno':
        return 0
    if special(x) or special(y):
        a = x if special(x) else 0.0
        b = y if special(y) else 0.0
        return int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[k])
    c = sign_cond(poly.sub(x, y), MASK[k])
    return int(c) if type(c) is bool else c


# ---------------------------------------------------------------- conversions
def floor_int(ex, st, x):
    return ex.floor(st, x) if type(x) is Poly else math.floor(x)


def trunc_int(ex, st, x):
    if type(x) is not Poly:
        return math.trunc(x)
    lo, hi = x.interval()
    if lo >= 0 or (hi > 0 and ex.decide(st, sign_cond(x, ZERO | POS))):
        return ex.floor(st, clip(x, 0))
    return -ex.floor(st, poly.neg(x))


def clip(x, lo):
    return x


def cast(ex, st, op, t, t2, v):
    if op in ('fptosi', 'fptoui'):
        n = t2[1]
        lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if op == 'fptosi' else (0, (1 << n) - 1)
        if type(v) is float:
            if v != v or math.isinf(v) or not lo <= math.trunc(v) <= hi:
                raise Violation('float_cast', 'conversion of %r to a %d-bit integer is undefined' % (v, n))
            return math.trunc(v) & ((1 << n) - 1)
        if type(v) is Poly:
            k = trunc_int(ex, st, v)
            if not lo <= k <= hi:
                raise Violation('float_cast', 'conversion of %r to a %d-bit integer is undefined' % (k, n))
            return k & ((1 << n) - 1)
        # bit-precise
        s = v.sort()
        l, h = z3.FPVal(float(lo), s), z3.FPVal(float(hi + 1), s)
        lok = z3.fpGEQ(v, l) if lo and n >= 54 else z3.fpGT(v, z3.FPVal(float(lo - 1), s))
        ok = SB(z=z3.simplify(z3.And(lok, z3.fpLT(v, h))))
        if not ex.decide(st, ok):
            raise Violation('float_cast', 'conversion of a double to a %d-bit integer is undefined' % n)
        r = (z3.fpToSBV if op == 'fptosi' else z3.fpToUBV)(RTZ, v, z3.BitVecSort(n))
        r = z3.simplify(r)
        return r.as_long() if z3.is_bv_value(r) else r
    if op in ('sitofp', 'uitofp'):
        n = t[1]
        if type(v) is SB:
            v = int(ex.decide(st, v))
            if op == 'sitofp' and n == 1:
                v = -v & 1
        if type(v) is int:
            x = float(sx(v, n) if op == 'sitofp' else v)
            return f32(x) if t2[1] == 32 else x
        if isinstance(v, RealBits):
            raise Unsupported('integer bits of a symbolic double')
        if ex.fp:
            return (z3.fpSignedToFP if op == 'sitofp' else z3.fpUnsignedToFP)(RNE, v, S64 if t2[1] == 64 else S32)
        k = ex.concretize(st, v, n)
        return float(sx(k, n) if op == 'sitofp' else k)
    if op == 'fptrunc':
        if type(v) is float:
            return f32(v) if t2[1] == 32 else v
        if z3.is_fp(v) if type(v) is not Poly else False:
            return fpsimp(z3.fpFPToFP(RNE, v, S32))
        return v
    if op == 'fpext':
        if type(v) is float or type(v) is Poly:
            return v
        return fpsimp(z3.fpFPToFP(RNE, v, S64))
    raise Unsupported(op)


# ---------------------------------------------------------------- functions of doubles
def sqrt(ex, st, x):
    if type(x) is float:
        return math.sqrt(x) if x >= 0 else (math.nan if x < 0 or x != x else x)
    if x is U:
        return U
    if ex.fp:
        return fpsimp(z3.fpSqrt(RNE, x))
    if ex.decide(st, sign_cond(x, NEG)):
        return math.nan
    if ex.decide(st, sign_cond(x, ZERO)):
        return 0.0
    return poly.sqrt(x)


def fma(ex, st, a, b, c):
    if ex.fp and not (type(a) is float and type(b) is float and type(c) is float):
        return fpsimp(z3.fpFMA(RNE, fpv(a), fpv(b), fpv(c)))
    return fadd(ex, st, fmul(ex, st, a, b), c)


def fmax(ex, st, a, b):
    if a is U or b is U:
        return U
    if type(a) is float and a != a:
        return b
    if type(b) is float and b != b:
        return a
    c = fcmp(ex, 'olt', a, b)
    return b if ex.decide(st, c) else a


def fmin(ex, st, a, b):
    if a is U or b is U:
        return U
    if type(a) is float and a != a:
        return b
    if type(b) is float and b != b:
        return a
    c = fcmp(ex, 'olt', b, a)
    return b if ex.decide(st, c) else a


def sin_cos(ex, st, x):
    if type(x) is float:
        if x != x or math.isinf(x):
            return math.nan, math.nan
        return math.cos(x), math.sin(x)
    if x is U:
        return U, U
    if ex.fp:
        raise Unsupported('trigonometry in fp mode')
    return poly.trig_linear(x)


def atan2(ex, st, y, x):
    if x is U or y is U:
        return U
    if type(x) is float and type(y) is float:
        return math.atan2(y, x)
    if ex.fp or special(x) or special(y):
        raise Unsupported('atan2')
    L = poly.find_angle(y, x)
    if L is not None:
        return wrap(ex, st, L)
    # sign tests that settle the common degenerate cases
    if type(y) is not Poly and y == 0:
        return 0.0 if sgn(ex, st, x) >= 0 else math.pi
    if type(x) is not Poly and x == 0:
        s = sgn(ex, st, y)
        return s * math.pi / 2
    q = poly.add(poly.mul(x, x), poly.mul(y, y))
    if type(q) is Poly and ex.decide(st, sign_cond(q, ZERO)):
        return 0.0
    return poly.atan2_alias(y, x)


def wrap(ex, st, L):
    """L + 2 pi k in [-pi, pi] (both ends allowed)."""
    lo, hi = L.interval()
    eps = 1e-9
    k0 = math.floor((lo + math.pi + eps) / (2 * math.pi))
    k1 = math.ceil((hi - math.pi - eps) / (2 * math.pi))
    a, b = min(k0, k1), max(k0, k1)
    # result is L - 2 pi k with k in [a, b]; find k by bisection on L <= (2k+1) pi
    while a < b:
        mid = (a + b) // 2
        if ex.decide(st, sign_cond(poly.sub(L, float(poly.PI * (2 * mid + 1))), NEG | ZERO)):
            b = mid
        else:
            a = mid + 1
    return poly.sub(L, float(poly.TWO_PI * a)) if a else L


def hypot(ex, st, a, b):
    if a is U or b is U:
        return U
    if type(a) is float and type(b) is float:
        return math.hypot(a, b)
    if ex.fp:
        raise Unsupported('hypot in fp mode')
    for x in (a, b):
        if special(x):
            return math.inf if not x != x else math.nan
    q = poly.add(poly.mul(a, a), poly.mul(b, b))
    if type(q) is float:
        return math.sqrt(q)
    if ex.decide(st, sign_cond(q, ZERO)):
        return 0.0
    return poly.sqrt(q)


def floor(ex, st, x):
    if type(x) is float:
        return float(math.floor(x)) if math.isfinite(x) else x
    if x is U:
        return U
    if ex.fp:
        return fpsimp(z3.fpRoundToIntegral(z3.RTN(), x))
    return float(ex.floor(st, x))


def ceil(ex, st, x):
    if type(x) is float:
        return float(math.ceil(x)) if math.isfinite(x) else x
    if x is U:
        return U
    if ex.fp:
        return fpsimp(z3.fpRoundToIntegral(z3.RTP(), x))
    return float(-ex.floor(st, poly.neg(x)))


def trunc(ex, st, x):
    if type(x) is float:
        return float(math.trunc(x)) if math.isfinite(x) else x
    if x is U:
        return U
    if ex.fp:
        return fpsimp(z3.fpRoundToIntegral(z3.RTZ(), x))
    return float(trunc_int(ex, st, x))


def rround(ex, st, x):
    """Half away from zero."""
    if type(x) is float:
        if not math.isfinite(x):
            return x
        f = math.floor(abs(x))
        if abs(x) - f >= 0.5:
            f += 1
        return math.copysign(float(f), x)
    if x is U:
        return U
    if ex.fp:
        return fpsimp(z3.fpRoundToIntegral(z3.RNA(), x))
    if ex.decide(st, sign_cond(x, ZERO | POS)):
        return float(ex.floor(st, poly.add(x, 0.5)))
    return -float(ex.floor(st, poly.add(poly.neg(x), 0.5)))


def rint(ex, st, x):
    """Half to even (ties are not distinguished for symbolic reals: both neighbours are explored at a tie)."""
    if type(x) is float:
        return float(round(x)) if math.isfinite(x) else x
    if x is U:
        return U
    if ex.fp:
        return fpsimp(z3.fpRoundToIntegral(z3.RNE(), x))
    return float(ex.floor(st, poly.add(x, 0.5)))


def remainder(ex, st, x, y):
    if type(x) is float and type(y) is float:
        try:
            return math.remainder(x, y)
        except ValueError:
            return math.nan
    q = fdiv(ex, st, x, y)
    n = rint(ex, st, q)
    return fsub(ex, st, x, fmul(ex, st, n, y))


def exp(ex, st, x):
    if type(x) is float:
        try:
            return math.exp(x) if x != math.inf else math.inf
        except OverflowError:
            return math.inf
    if x is U:
        return U
    if ex.fp:
        raise Unsupported('exp in fp mode')
    return poly.exp(x)


def powf(ex, st, x, y):
    if type(x) is float and type(y) is float:
        try:
            return math.pow(x, y)
        except OverflowError:
            return math.inf
        except ValueError:
            return math.nan
    if type(y) is float and y == int(y) and 0 <= y <= 8 and not ex.fp:
        r = 1.0
        for _ in range(int(y)):
            r = fmul(ex, st, r, x)
        return r
    if type(y) is float and y == 0.5:
        return sqrt(ex, st, x)
    raise Unsupported('pow')


def log(ex, st, x):
    if type(x) is float:
        return math.log(x) if x > 0 else (-math.inf if x == 0 else math.nan)
    raise Unsupported('log of a symbolic value')


def copysign(ex, st, a, b):
    if type(a) is float and type(b) is float:
        return math.copysign(a, b)
    if ex.fp:
        a, b = fpv(a), fpv(b)
        return fpsimp(z3.If(z3.fpIsNegative(a) == z3.fpIsNegative(b), a, z3.fpNeg(a)))
    m = fabs(ex, st, a)
    if type(b) is float:
        return fneg(m) if math.copysign(1.0, b) < 0 else m
    return fneg(m) if ex.decide(st, sign_cond(b, NEG)) else m


def is_fpclass(ex, st, x, mask):
    """llvm.is.fpclass: snan 1 qnan 2 -inf 4 -normal 8 -sub 16 -0 32 +0 64 +sub 128 +normal 256 +inf 512."""
    if x is U:
        return U
    if type(x) is float:
        if x != x:
            b = 3
        elif math.isinf(x):
            b = 512 if x > 0 else 4
        elif x == 0:
            b = 64 if math.copysign(1.0, x) > 0 else 32
        elif abs(x) < 2.2250738585072014e-308:
            b = 128 if x > 0 else 16
        else:
            b = 256 if x > 0 else 8
        return int(bool(b & mask))
    if type(x) is Poly:
        m = (NEG if mask & 8 else 0) | (ZERO if mask & 64 else 0) | (POS if mask & 256 else 0)
        c = sign_cond(x, m) if m not in (0, 7) else m == 7
        return int(c) if type(c) is bool else c
    z = []
    neg = z3.fpIsNegative(x)
    for bit, f, n in ((3, z3.fpIsNaN, None), (4, z3.fpIsInf, True), (8, z3.fpIsNormal, True), (16, z3.fpIsSubnormal, True),
                      (32, z3.fpIsZero, True), (64, z3.fpIsZero, False), (128, z3.fpIsSubnormal, False),
                      (256, z3.fpIsNormal, False), (512, z3.fpIsInf, False)):
        if mask & bit:
            z.append(f(x) if n is None else z3.And(f(x), neg if n else z3.Not(neg)))
    r = z3.simplify(z3.Or(*z)) if z else z3.BoolVal(False)
    return 1 if z3.is_true(r) else 0 if z3.is_false(r) else SB(z=r)
