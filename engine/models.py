"""Models of functions that are not in the IR: the vs_* interface, libc, the C++ runtime."""
import math
import os
import time
import z3
from . import fops, poly, solver
from .poly import Poly, Unsupported, new_var, of_var
from .solver import SB, NEG, ZERO, POS, sign_cond, zvars
from .symex import (U, M64, OFF, PathEnd, Violation, CxxThrow, RealBits, sx, f32)

MODELS = {}


def model(*names):
    def reg(f):
        for n in names:
            MODELS[n] = f
        return f
    return reg


class Inconclusive(Exception):
    pass


# ---------------------------------------------------------------- inputs
ANY_RANGE = 1e6


def fullname(ex, st, a):
    base = ex.cstr(st, a)
    k = st.names.get(base, 0)
    return base, '%s#%d' % (base, k)


def took(st, base, full, kind, v):
    st.names[base] = st.names.get(base, 0) + 1
    st.inputs.append((full, kind, v))
    return v


_shared = {}


def shared(key, mk):
    """Input variables are shared by all paths of a process (same name: same variable)."""
    v = _shared.get(key)
    if v is None:
        v = _shared[key] = mk()
    return v


@model('vs_real')
def vs_real(ex, st, a):
    base, full = fullname(ex, st, a[0])
    lo, hi = a[1], a[2]
    if ex.inputs is not None:
        return took(st, base, full, 'real', float(ex.inputs.get(full, lo) if not ex.sampler else ex.sampler('real', full, lo, hi)))
    if lo == hi:
        return took(st, base, full, 'real', lo)
    if ex.fp:
        v = shared(('fp', full), lambda: z3.FP(full, z3.Float64()))
        took(st, base, full, 'fp', v)
        c = z3.And(z3.fpGEQ(v, z3.FPVal(lo, z3.Float64())), z3.fpLEQ(v, z3.FPVal(hi, z3.Float64())))
        st.cons.append((c, zvars(c)))
        return v
    v = shared(('real', full, lo, hi), lambda: of_var(new_var(full, lo, hi)))
    return took(st, base, full, 'real', v)


@model('vs_angle')
def vs_angle(ex, st, a):
    base, full = fullname(ex, st, a[0])
    if ex.inputs is not None:
        return took(st, base, full, 'angle', float(ex.inputs.get(full, 0.0) if not ex.sampler else ex.sampler('angle', full, 0, 0)))
    if ex.fp:
        return vs_real(ex, st, [a[0], -math.pi, math.pi])

    def mk():
        v = new_var(full, -poly.PI, poly.PI, 'angle')
        v.defs.append((v.z > poly.zconst(-poly.PI), frozenset([v.id])))
        return of_var(v)
    return took(st, base, full, 'angle', shared(('angle', full), mk))


def any_value(ex, st, a, f32bit):
    base, full = fullname(ex, st, a[0])
    if ex.inputs is not None:
        x = float(ex.inputs.get(full, 0.0) if not ex.sampler else ex.sampler('any', full, 0, 0))
        return took(st, base, full, 'any', f32(x) if f32bit else x)
    if ex.fp:
        v = shared(('fpany', full, f32bit), lambda: z3.FP(full, z3.Float32() if f32bit else z3.Float64()))
        return took(st, base, full, 'fp', v)
    for nm, val in (('nan', math.nan), ('pinf', math.inf), ('ninf', -math.inf)):
        if ex.decide(st, choice(full + '@' + nm)):
            return took(st, base, full, 'const', val)
    v = shared(('any', full), lambda: of_var(new_var(full, -ANY_RANGE, ANY_RANGE)))
    return took(st, base, full, 'real', v)


def choice(name):
    return shared(('choice', name), lambda: SB(z=z3.Bool(name)))


@model('vs_any')
def vs_any(ex, st, a):
    return any_value(ex, st, a, False)


@model('vs_anyf')
def vs_anyf(ex, st, a):
    return any_value(ex, st, a, True)


@model('vs_int')
def vs_int(ex, st, a):
    base, full = fullname(ex, st, a[0])
    lo, hi = sx(a[1], 32), sx(a[2], 32)
    if ex.inputs is not None:
        return took(st, base, full, 'int', int(ex.inputs.get(full, lo) if not ex.sampler else ex.sampler('int', full, lo, hi)) & 0xffffffff)
    for k in range(lo, hi):
        if ex.decide(st, choice('%s@%d' % (full, k))):
            took(st, base, full, 'const', k)
            return k & 0xffffffff
    took(st, base, full, 'const', hi)
    return hi & 0xffffffff


@model('vs_bool')
def vs_bool(ex, st, a):
    base, full = fullname(ex, st, a[0])
    if ex.inputs is not None:
        return took(st, base, full, 'int', int(ex.inputs.get(full, 0) if not ex.sampler else ex.sampler('int', full, 0, 1)))
    v = int(ex.decide(st, choice(full)))
    took(st, base, full, 'const', v)
    return v


@model('vs_symint')
def vs_symint(ex, st, a):
    base, full = fullname(ex, st, a[0])
    lo, hi = sx(a[1], 32), sx(a[2], 32)
    if ex.inputs is not None:
        return took(st, base, full, 'int', int(ex.inputs.get(full, lo) if not ex.sampler else ex.sampler('int', full, lo, hi)) & 0xffffffff)
    v = shared(('bv32', full), lambda: z3.BitVec(full, 32))
    took(st, base, full, 'bv', v)
    c = z3.And(v >= lo, v <= hi)
    st.cons.append((c, zvars(c)))
    return v


@model('vs_symlong')
def vs_symlong(ex, st, a):
    base, full = fullname(ex, st, a[0])
    if ex.inputs is not None:
        return took(st, base, full, 'int', int(ex.inputs.get(full, 0) if not ex.sampler else ex.sampler('long', full, 0, 0)) & M64)
    v = shared(('bv64', full), lambda: z3.BitVec(full, 64))
    return took(st, base, full, 'bv', v)


@model('vs_name')
def vs_name(ex, st, a):
    x = a[0]
    return poly.announce(x) if type(x) is Poly and len(x.d) > 3 else x


@model('vs_case')
def vs_case(ex, st, a):
    return ex.case


@model('vs_native')
def vs_native(ex, st, a):
    return 0


# ---------------------------------------------------------------- assumptions and checks
@model('vs_assume')
def vs_assume(ex, st, a):
    c = a[0]
    if type(c) is int:
        if not c:
            raise PathEnd('assume')
        return
    if c is U:
        raise Unsupported('assumption on an uninitialised value')
    if c.p is not None:
        k = st.signs.get(c.p.key(), 7)
        if k & c.mask == 0:
            raise PathEnd('assume')
        if k & ~c.mask & 7 == 0:
            return
    g = ex.guess(st, c)
    if g is not True and not st.prefix:
        r = ex.test(st, c)
        if r[0] == 'unsat':
            raise PathEnd('assume')
        ex.merge_vals(st, r[1])
    ex.learn(st, c, True, False)


def check_id(ex, st, p):
    s = ex.cstr(st, p)
    ex.reached[s] = ex.reached.get(s, 0) + 1
    return s


DEBUG = os.environ.get('VS_DEBUG')


def refute(ex, st, cid, cond, detail='', soft=()):
    """cond: SB that must be false on every input of this path."""
    if type(cond) is bool or type(cond) is int:
        if cond:
            raise Violation(cid, detail)
        ex.assert_trivial += 1
        return
    if cond.p is not None:
        k = st.signs.get(cond.p.key(), 7)
        if k & cond.mask == 0:
            ex.assert_trivial += 1
            return
    if st.prefix:
        ex.learn(st, cond, False, True)
        return
    ex.assert_queries += 1
    t0 = time.time()
    r = solver.query(st.cons, [(cond.z(), cond.vars())], ex.final_timeout, final=True)
    if DEBUG:
        print('REFUTE', round(time.time() - t0, 2), cid, r[0], ex.case, len(st.cons), str(cond.p)[:300], flush=True)
    if r[0] == 'unsat':
        ex.learn(st, cond, False, True)
        return
    if r[0] == 'sat':
        raise Violation(cid, detail, [(cond.z(), cond.vars())],
                        [(s.z(), s.vars()) for s in soft if type(s) is SB])
    raise Inconclusive('%s: solver gave no answer (%s)' % (cid, detail))


@model('vs_check')
def vs_check(ex, st, a):
    cid = check_id(ex, st, a[1])
    c = a[0]
    if c is U:
        raise Violation(cid, 'depends on an uninitialised value')
    if type(c) is int:
        refute(ex, st, cid, not c)
    else:
        refute(ex, st, cid, c.neg())


def is_num(x):
    return type(x) is float or type(x) is Poly


@model('vs_check_close')
def vs_check_close(ex, st, a):
    x, y, tol = a[0], a[1], a[2]
    cid = check_id(ex, st, a[3])
    if x is U or y is U:
        raise Violation(cid, 'uninitialised value')
    if type(x) is float and type(y) is float:
        ok = x == y or abs(x - y) <= tol
        return refute(ex, st, cid, not ok, '%r vs %r' % (x, y))
    if ex.fp:
        d = z3.fpAbs(z3.fpSub(z3.RNE(), fops.fpv(x), fops.fpv(y)))
        return refute(ex, st, cid, SB(z=z3.Not(z3.fpLEQ(d, fops.fpv(tol)))))
    if fops.special(x) or fops.special(y):
        raise Violation(cid, '%r vs %r' % (x, y))
    d = poly.sub(x, y)
    desc = '%r vs %r' % (x, y)
    for s, m in ((1, POS), (-1, NEG)):
        soft = [sign_cond(poly.sub(d, s * k), m) for k in (1.0, 1e-2, 1e-4) if k > tol] + [sign_cond(poly.sub(d, s * k * tol), m) for k in (1e3, 10)]
        refute(ex, st, cid, sign_cond(poly.sub(d, s * tol), m), desc if len(desc) < 300 else desc[:300], soft)


@model('vs_check_angle')
def vs_check_angle(ex, st, a):
    x, y, tol = a[0], a[1], a[2]
    cid = check_id(ex, st, a[3])
    if x is U or y is U:
        raise Violation(cid, 'uninitialised value')
    if type(x) is float and type(y) is float:
        ok = math.isfinite(x) and math.isfinite(y) and abs(math.remainder(x - y, 2 * math.pi)) <= tol
        return refute(ex, st, cid, not ok, '%r vs %r' % (x, y))
    if fops.special(x) or fops.special(y):
        raise Violation(cid, '%r vs %r' % (x, y))
    d = poly.sub(x, y)
    desc = '%r vs %r (mod 2 pi)' % (x, y)
    if type(d) is float:
        return refute(ex, st, cid, abs(math.remainder(d, 2 * math.pi)) > tol, desc)
    c, s = poly.trig_linear(d)
    st2 = math.sin(tol)
    soft = [sign_cond(poly.sub(c, k), NEG) for k in (0.0, 0.9, 0.999)]
    refute(ex, st, cid, sign_cond(poly.sub(s, st2), POS), desc, soft)
    refute(ex, st, cid, sign_cond(poly.add(s, st2), NEG), desc, soft)
    refute(ex, st, cid, sign_cond(c, NEG), desc)


@model('vs_check_same')
def vs_check_same(ex, st, a):
    x, y = a[0], a[1]
    cid = check_id(ex, st, a[2])
    if x is U or y is U:
        raise Violation(cid, 'uninitialised value')
    if type(x) is float and type(y) is float:
        ok = (x != x and y != y) or (x == y and math.copysign(1, x) == math.copysign(1, y))
        return refute(ex, st, cid, not ok, '%r vs %r' % (x, y))
    if ex.fp:
        p, q = fops.fpv(x), fops.fpv(y)
        return refute(ex, st, cid, SB(z=z3.simplify(z3.Not(p == q))))
    if fops.special(x) or fops.special(y):
        raise Violation(cid, '%r vs %r' % (x, y))
    d = poly.sub(x, y)
    refute(ex, st, cid, sign_cond(d, NEG | POS), '%r vs %r' % (x, y))


@model('vs_reach')
def vs_reach(ex, st, a):
    check_id(ex, st, a[0])


@model('vs_out')
def vs_out(ex, st, a):
    st.outs.append((ex.cstr(st, a[0]), a[1]))


@model('vs_thread')
def vs_thread(ex, st, a):
    k = sx(a[0], 32)
    st.thread = None if k < 0 else k


@model('vs_scheduled')
def vs_scheduled(ex, st, a):
    return 0


@model('vs_quiet')
def vs_quiet(ex, st, a):
    old = -1 if st.thread is None else st.thread
    st.thread = None
    return old & 0xffffffff


@model('vs_mark')
def vs_mark(ex, st, a):
    if ex.logging:
        st.log = (st.log, (st.thread, 'M', ex.cstr(st, a[0]), 0, '', None))




# ---------------------------------------------------------------- memory
@model('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t')
def op_new(ex, st, a):
    n = a[0] if type(a[0]) is int else ex.concretize(st, a[0], 64)
    if n > 1 << 31:
        throw(ex, st, '_ZTISt9bad_alloc')
    return ex.alloc(st, max(n, 1), 'heap')


@model('_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t')
def op_new_nt(ex, st, a):
    return ex.alloc(st, max(a[0], 1), 'heap')


@model('calloc')
def calloc(ex, st, a):
    return ex.alloc(st, max(a[0] * a[1], 1), 'heap', 0)


@model('aligned_alloc')
def aligned_alloc(ex, st, a):
    return ex.alloc(st, max(a[1], 1), 'heap')


@model('posix_memalign')
def posix_memalign(ex, st, a):
    ex.store(st, a[0], 8, ex.alloc(st, max(a[2], 1), 'heap'))
    return 0


@model('realloc')
def realloc(ex, st, a):
    n = ex.alloc(st, max(a[1], 1), 'heap')
    if a[0]:
        o, _ = ex.find(st, a[0], 1, 'realloc')
        ex.memcpy(st, n, a[0], min(o.size, a[1]))
        st.objs.pop(a[0] >> 32)
    return n


@model('_ZdlPv', '_ZdaPv', 'free', '_ZdlPvm', '_ZdaPvm', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t',
       '_ZdaPvSt11align_val_t', '_ZdlPvRKSt9nothrow_t', '_ZdaPvRKSt9nothrow_t')
def op_delete(ex, st, a):
    p = a[0] if type(a[0]) is int else ex.waddr(st, a[0])
    if p == 0:
        return
    o = st.objs.get(p >> 32)
    if o is None or o.kind != 'heap' or p & OFF:
        raise Violation('memory', 'free of memory that is not allocated')
    if ex.logging and st.thread is not None:
        ex.log_access(st, 'W', p, o.size)
    del st.objs[p >> 32]


@model('memcpy', 'memmove')
def c_memcpy(ex, st, a):
    ex.memcpy(st, a[0], a[1], ex.concretize(st, a[2], 64))
    return a[0]


@model('memset')
def c_memset(ex, st, a):
    ex.memset(st, a[0], a[1], ex.concretize(st, a[2], 64))
    return a[0]


@model('memcmp', 'bcmp', 'strncmp')
def c_memcmp(ex, st, a):
    n = ex.concretize(st, a[2], 64)
    for i in range(n):
        x, y = ex.load(st, a[0] + i, 1), ex.load(st, a[1] + i, 1)
        if x is U or y is U:
            raise Violation('uninit', 'comparison of uninitialised memory')
        x, y = ex.concretize(st, x, 8), ex.concretize(st, y, 8)
        if x != y:
            return (1 if x > y else -1) & 0xffffffff
    return 0


@model('strlen')
def c_strlen(ex, st, a):
    return len(ex.cstr(st, ex.waddr(st, a[0])))


@model('strcmp')
def c_strcmp(ex, st, a):
    x, y = ex.cstr(st, a[0]), ex.cstr(st, a[1])
    return 0 if x == y else (1 if x > y else -1) & 0xffffffff


@model('memchr')
def c_memchr(ex, st, a):
    for i in range(a[2]):
        if ex.load(st, a[0] + i, 1) == a[1] & 255:
            return a[0] + i
    return 0


# ---------------------------------------------------------------- maths
def both(name, f):
    MODELS[name] = lambda ex, st, a: f(ex, st, *a)

    def g(ex, st, a):
        v = f(ex, st, *a)
        return f32(v) if type(v) is float else v
    MODELS[name + 'f'] = g


for _n, _f in (('sqrt', fops.sqrt), ('atan2', fops.atan2), ('hypot', fops.hypot), ('floor', fops.floor),
               ('ceil', fops.ceil), ('trunc', fops.trunc), ('round', fops.rround), ('rint', fops.rint),
               ('nearbyint', fops.rint), ('remainder', fops.remainder), ('exp', fops.exp), ('pow', fops.powf),
               ('log', fops.log), ('fmod', fops.fmod), ('fmax', fops.fmax), ('fmin', fops.fmin), ('fabs', fops.fabs),
               ('copysign', fops.copysign), ('fma', fops.fma)):
    both(_n, _f)
both('cos', lambda ex, st, x: fops.sin_cos(ex, st, x)[0])
both('sin', lambda ex, st, x: fops.sin_cos(ex, st, x)[1])
both('atan', lambda ex, st, x: fops.atan2(ex, st, x, 1.0))


def tan(ex, st, x):
    c, s = fops.sin_cos(ex, st, x)
    return fops.fdiv(ex, st, s, c)


both('tan', tan)


def concrete_only(name, f):
    def g(ex, st, x):
        if type(x) is not float:
            raise Unsupported(name + ' of a symbolic value')
        return f(x)
    both(name, g)


concrete_only('acos', lambda x: math.acos(x) if -1 <= x <= 1 else math.nan)
concrete_only('asin', lambda x: math.asin(x) if -1 <= x <= 1 else math.nan)
concrete_only('log2', lambda x: math.log2(x) if x > 0 else math.nan)
concrete_only('log10', lambda x: math.log10(x) if x > 0 else math.nan)
concrete_only('cbrt', lambda x: math.copysign(abs(x) ** (1 / 3), x))
concrete_only('tanh', math.tanh)
concrete_only('sinh', math.sinh)
concrete_only('cosh', math.cosh)
concrete_only('expm1', math.expm1)
concrete_only('log1p', lambda x: math.log1p(x) if x > -1 else math.nan)


@model('lround', 'llround', 'lrint', 'llrint', 'lroundf', 'lrintf')
def lround(ex, st, a):
    v = fops.rround(ex, st, a[0])
    return fops.cast(ex, st, 'fptosi', ('f', 64), ('i', 64), v)


@model('sincos')
def sincos(ex, st, a):
    c, s = fops.sin_cos(ex, st, a[0])
    ex.store(st, a[1], 8, s)
    ex.store(st, a[2], 8, c)


@model('modf')
def modf(ex, st, a):
    t = fops.trunc(ex, st, a[0])
    ex.store(st, a[1], 8, t)
    return fops.fsub(ex, st, a[0], t)


# ---------------------------------------------------------------- C++ runtime
STD_BASE = {
    '_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt12length_error': '_ZTISt11logic_error',
    '_ZTISt16invalid_argument': '_ZTISt11logic_error', '_ZTISt11logic_error': '_ZTISt9exception',
    '_ZTISt13runtime_error': '_ZTISt9exception', '_ZTISt9bad_alloc': '_ZTISt9exception',
    '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc', '_ZTISt12system_error': '_ZTISt13runtime_error',
    '_ZTISt17bad_function_call': '_ZTISt9exception', '_ZTISt12bad_weak_ptr': '_ZTISt9exception',
    '_ZTISt8bad_cast': '_ZTISt9exception', '_ZTISt11range_error': '_ZTISt13runtime_error',
    '_ZTISt14overflow_error': '_ZTISt13runtime_error', '_ZTISt9exception': None}


def throw(ex, st, tname):
    p = ex.alloc(st, 64, 'heap', 0) + 16
    t = ex.gaddr(tname)
    ex.store(st, p - 16, 8, t)
    raise CxxThrow(p, t)


for _n, _t in (('_ZSt20__throw_length_errorPKc', '_ZTISt12length_error'),
               ('_ZSt24__throw_out_of_range_fmtPKcz', '_ZTISt12out_of_range'),
               ('_ZSt20__throw_out_of_rangePKc', '_ZTISt12out_of_range'),
               ('_ZSt19__throw_logic_errorPKc', '_ZTISt11logic_error'),
               ('_ZSt21__throw_runtime_errorPKc', '_ZTISt13runtime_error'),
               ('_ZSt17__throw_bad_allocv', '_ZTISt9bad_alloc'),
               ('_ZSt28__throw_bad_array_new_lengthv', '_ZTISt20bad_array_new_length'),
               ('_ZSt24__throw_invalid_argumentPKc', '_ZTISt16invalid_argument'),
               ('_ZSt20__throw_system_errori', '_ZTISt12system_error'),
               ('_ZSt25__throw_bad_function_callv', '_ZTISt17bad_function_call'),
               ('_ZSt16__throw_bad_castv', '_ZTISt8bad_cast')):
    MODELS[_n] = (lambda t: lambda ex, st, a: throw(ex, st, t))(_t)


@model('__cxa_allocate_exception')
def cxa_alloc(ex, st, a):
    return ex.alloc(st, a[0] + 16, 'heap', U) + 16


@model('__cxa_free_exception')
def cxa_free(ex, st, a):
    st.objs.pop(a[0] >> 32, None)


@model('__cxa_throw')
def cxa_throw(ex, st, a):
    ex.store(st, a[0] - 16, 8, a[1])
    raise CxxThrow(a[0], a[1])


@model('__cxa_begin_catch')
def cxa_begin(ex, st, a):
    st.caught.append(a[0])
    return a[0]


@model('__cxa_get_exception_ptr')
def cxa_getp(ex, st, a):
    return a[0]


@model('__cxa_end_catch')
def cxa_end(ex, st, a):
    if st.caught:
        st.caught.pop()


@model('__cxa_rethrow')
def cxa_rethrow(ex, st, a):
    p = st.caught[-1]
    raise CxxThrow(p, ex.load(st, p - 16, 8))


@model('_ZSt9terminatev', '__cxa_call_terminate', 'abort', '_ZSt10unexpectedv', '__cxa_bad_cast')
def terminate(ex, st, a):
    raise Violation('terminate', 'std::terminate or abort')


@model('__assert_fail', '_ZSt21__glibcxx_assert_failPKciS0_S0_')
def assert_fail(ex, st, a):
    raise Violation('terminate', 'assertion failed: ' + ex.cstr(st, a[0]))


@model('exit', '_exit')
def c_exit(ex, st, a):
    raise PathEnd('exit')


@model('__cxa_atexit', 'atexit')
def nop0(ex, st, a):
    return 0


@model('__cxa_guard_acquire')
def guard_acquire(ex, st, a):
    v = ex.load(st, a[0], 1)
    return 0 if v == 1 else 1


@model('__cxa_guard_release', '__cxa_guard_abort')
def guard_release(ex, st, a):
    ex.store(st, a[0], 1, 1)


@model('_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev', '_ZSt9use_facetISt5ctypeIcEERKT_RKSt6locale',
       'pthread_cond_signal', 'pthread_cond_broadcast', 'fflush', 'printf', 'puts', 'putchar', 'fprintf', 'fwrite')
def nop(ex, st, a):
    return 0


@model('_ZNSt13runtime_errorC1EPKc', '_ZNSt13runtime_errorC2EPKc', '_ZNSt13runtime_errorD1Ev', '_ZNSt13runtime_errorD2Ev',
       '_ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE', '_ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE',
       '_ZNSt11logic_errorC1EPKc', '_ZNSt11logic_errorD1Ev', '_ZNSt12out_of_rangeC1EPKc', '_ZNSt16invalid_argumentC1EPKc', '_ZNSt9exceptionD1Ev', '_ZNSt9exceptionD2Ev')
def exc_ctor(ex, st, a):
    return None


@model('_ZNKSt13runtime_error4whatEv', '_ZNKSt9exception4whatEv', '_ZNKSt11logic_error4whatEv')
def exc_what(ex, st, a):
    return ex.alloc(st, 8, 'heap', 0)


@model('__dynamic_cast')
def dynamic_cast(ex, st, a):
    p = a[0]
    if p == 0:
        return 0
    vt = ex.load(st, p, 8)
    ti = ex.load(st, vt - 8, 8)
    top = sx(ex.load(st, vt - 16, 8), 64)
    return p + top if ex.derives(ti, a[2]) else 0


@model('pthread_mutex_lock')
def mutex_lock(ex, st, a):
    m = a[0]
    if ex.logging and st.thread is not None:
        ex.log_access(st, 'L', m, 0)
    if st.mutex.get(m):
        raise Violation('deadlock', 'mutex locked twice by one thread')
    st.mutex[m] = 1
    return 0


@model('pthread_mutex_trylock')
def mutex_trylock(ex, st, a):
    if st.mutex.get(a[0]):
        return 16
    return mutex_lock(ex, st, a)


@model('pthread_mutex_unlock')
def mutex_unlock(ex, st, a):
    if ex.logging and st.thread is not None:
        ex.log_access(st, 'U', a[0], 0)
    if not st.mutex.get(a[0]):
        raise Violation('deadlock', 'unlock of a mutex that is not locked')
    st.mutex[a[0]] = 0
    return 0


@model('_ZNSt6chrono3_V212system_clock3nowEv', '_ZNSt6chrono3_V212steady_clock3nowEv')
def clock_now(ex, st, a):
    return 1000000000 * 100


# random numbers: the generators give nothing but a token; distributions are inputs (include/vs_pre.h)
@model('_ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE',
       '_ZNSt13random_device7_M_finiEv', '_ZNSt13random_device14_M_init_pretr1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE')
def rd_init(ex, st, a):
    return None


@model('_ZNSt13random_device9_M_getvalEv')
def rd_get(ex, st, a):
    return 12345


# unordered containers: libstdc++'s rehash policy
PRIMES = [2, 5, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229]


def next_prime(n):
    for p in PRIMES:
        if p >= n:
            return p
    return n | 1


@model('_ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm')
def need_rehash(ex, st, a):
    pol, nb, ne, ni = a
    nxt = ex.load(st, pol + 8, 8)
    if ne + ni > nxt:
        want = max(ne + ni, 11 if nxt == 0 else 0)
        if want >= nb:
            n = next_prime(max(want + 1, nb * 2))
            ex.store(st, pol + 8, 8, n)
            return [1, n]
        ex.store(st, pol + 8, 8, nb)
        return [0, 0]
    return [0, 0]


@model('_ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm')
def next_bkt(ex, st, a):
    n = next_prime(a[1])
    ex.store(st, a[0] + 8, 8, n)
    return n


@model('_ZSt11_Hash_bytesPKvmm')
def hash_bytes(ex, st, a):
    h = a[2]
    for i in range(a[1]):
        c = ex.load(st, a[0] + i, 1)
        c = ex.concretize(st, c, 8)
        h = (h * 31 + c) & M64
    return h


# red-black trees without rebalancing (the shape of the tree is not observable); node: color, parent, left, right
def node(ex, st, p, k):
    return ex.load(st, p + 8 * k, 8)


@model('_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_')
def rb_insert(ex, st, a):
    left, x, p, h = a
    left = ex.concretize(st, left, 1)
    ex.store(st, x + 8, 8, p)
    ex.store(st, x + 16, 8, 0)
    ex.store(st, x + 24, 8, 0)
    ex.store(st, x, 4, 1)
    if left:
        ex.store(st, p + 16, 8, x)
        if p == h:
            ex.store(st, h + 8, 8, x)
            ex.store(st, h + 24, 8, x)
        elif p == node(ex, st, h, 2):
            ex.store(st, h + 16, 8, x)
    else:
        ex.store(st, p + 24, 8, x)
        if p == node(ex, st, h, 3):
            ex.store(st, h + 24, 8, x)


def rb_next(ex, st, x):
    r = node(ex, st, x, 3)
    if r:
        x = r
        while node(ex, st, x, 2):
            x = node(ex, st, x, 2)
        return x
    y = node(ex, st, x, 1)
    while x == node(ex, st, y, 3):
        x, y = y, node(ex, st, y, 1)
    return y if node(ex, st, x, 3) != y else x


def rb_prev(ex, st, x):
    if node(ex, st, node(ex, st, x, 1), 1) == x and (ex.load(st, x, 4) == 0):
        return node(ex, st, x, 3)
    l = node(ex, st, x, 2)
    if l:
        while node(ex, st, l, 3):
            l = node(ex, st, l, 3)
        return l
    y = node(ex, st, x, 1)
    while x == node(ex, st, y, 2):
        x, y = y, node(ex, st, y, 1)
    return y


MODELS['_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base'] = lambda ex, st, a: rb_next(ex, st, a[0])
MODELS['_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base'] = lambda ex, st, a: rb_next(ex, st, a[0])
MODELS['_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base'] = lambda ex, st, a: rb_prev(ex, st, a[0])
MODELS['_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base'] = lambda ex, st, a: rb_prev(ex, st, a[0])


@model('_ZNSt8__detail15_List_node_base7_M_hookEPS0_')
def list_hook(ex, st, a):
    x, p = a
    prev = ex.load(st, p + 8, 8)
    ex.store(st, x, 8, p)
    ex.store(st, x + 8, 8, prev)
    ex.store(st, prev, 8, x)
    ex.store(st, p + 8, 8, x)


@model('_ZNSt8__detail15_List_node_base9_M_unhookEv')
def list_unhook(ex, st, a):
    n, p = ex.load(st, a[0], 8), ex.load(st, a[0] + 8, 8)
    ex.store(st, p, 8, n)
    ex.store(st, n + 8, 8, p)


@model('_ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_')
def list_transfer(ex, st, a):
    x, first, last = a
    if x != last:
        ld, so = ex.load, ex.store
        lp, fp, xp = ld(st, last + 8, 8), ld(st, first + 8, 8), ld(st, x + 8, 8)
        so(st, lp, 8, x)
        so(st, fp, 8, last)
        so(st, xp, 8, first)
        so(st, x + 8, 8, lp)
        so(st, last + 8, 8, fp)
        so(st, first + 8, 8, xp)


# ---------------------------------------------------------------- LLVM intrinsics
def intrinsic(ex, name, args, rt):
    """Handler for an intrinsic, or None if it does nothing."""
    n = name[5:]
    base = n.split('.')[0]
    if base in ('lifetime', 'dbg', 'assume', 'invariant', 'donothing', 'var', 'prefetch', 'pseudoprobe') or n.startswith('experimental.noalias'):
        return None
    if base in ('memcpy', 'memmove'):
        return lambda ex, st, a: ex.memcpy(st, a[0], a[1], ex.concretize(st, a[2], 64))
    if base == 'memset':
        return lambda ex, st, a: ex.memset(st, a[0], a[1], ex.concretize(st, a[2], 64))
    if base in ('trap', 'debugtrap', 'ubsantrap'):
        def trap(ex, st, a):
            raise Violation('ub', 'trap')
        return trap
    if base == 'expect' or n.startswith('ssa') or base in ('launder', 'strip', 'threadlocal', 'annotation', 'ptr') or n.startswith('arithmetic.fence'):
        return lambda ex, st, a: a[0]
    if base == 'is' and n.startswith('is.constant'):
        return lambda ex, st, a: 0
    if base == 'is':
        return lambda ex, st, a: fops.is_fpclass(ex, st, a[0], a[1])
    if base == 'objectsize':
        return lambda ex, st, a: M64
    if n.startswith('eh.typeid.for'):
        return lambda ex, st, a: (a[0] >> 32) & 0xffffffff
    if base in ('stacksave',):
        return lambda ex, st, a: 0
    if base in ('stackrestore',):
        return None
    f = {'fabs': fops.fabs, 'sqrt': fops.sqrt, 'floor': fops.floor, 'ceil': fops.ceil, 'trunc': fops.trunc,
         'round': fops.rround, 'rint': fops.rint, 'nearbyint': fops.rint, 'roundeven': fops.rint, 'exp': fops.exp,
         'pow': fops.powf, 'log': fops.log, 'maxnum': fops.fmax, 'minnum': fops.fmin, 'copysign': fops.copysign,
         'fma': fops.fma, 'fmuladd': lambda ex, st, a, b, c: fops.fadd(ex, st, fops.fmul(ex, st, a, b), c),
         'cos': lambda ex, st, x: fops.sin_cos(ex, st, x)[0], 'sin': lambda ex, st, x: fops.sin_cos(ex, st, x)[1],
         'powi': lambda ex, st, x, y: fops.powf(ex, st, x, float(sx(y, 32)))}.get(base)
    if f is not None:
        is32 = rt == ('f', 32)

        def g(ex, st, a):
            if type(a[0]) is list:
                return [f(ex, st, *x) for x in zip(*a)]
            v = f(ex, st, *a)
            return f32(v) if is32 and type(v) is float else v
        return g
    from . import compiler as C
    if base in ('umax', 'umin', 'smax', 'smin'):
        w = rt[1] if rt[0] == 'i' else 0

        def mm(ex, st, a):
            x, y = a[0], a[1]
            c = C.icmp({'umax': 'ugt', 'umin': 'ult', 'smax': 'sgt', 'smin': 'slt'}[base], w, x, y)
            if type(c) is int:
                return x if c else y
            return C.select(ex, st, rt, c, x, y) if c is not U else U
        return mm
    if base == 'abs':
        w = rt[1]

        def iabs(ex, st, a):
            x = a[0]
            if type(x) is int:
                return abs(sx(x, w)) & ((1 << w) - 1)
            if x is U:
                return U
            return C.simp(z3.If(C.bv(x, w) < 0, -C.bv(x, w), C.bv(x, w)))
        return iabs
    if n.startswith(('uadd.with', 'umul.with', 'usub.with', 'sadd.with', 'smul.with', 'ssub.with')):
        w = rt[2][0][1]

        def ov(ex, st, a):
            x, y = (ex.concretize(st, v, w) for v in a)
            if n[0] == 's':
                x, y = sx(x, w), sx(y, w)
            r = x + y if n[1:4] == 'add' else x - y if n[1:4] == 'sub' else x * y
            lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if n[0] == 's' else (0, (1 << w) - 1)
            return [r & ((1 << w) - 1), int(not lo <= r <= hi)]
        return ov
    if n.startswith(('usub.sat', 'uadd.sat')):
        w = rt[1]

        def sat(ex, st, a):
            x, y = (ex.concretize(st, v, w) for v in a)
            return max(0, x - y) if n[1:4] == 'sub' else min((1 << w) - 1, x + y)
        return sat
    if base in ('ctlz', 'cttz', 'ctpop', 'bswap', 'fshl', 'fshr', 'bitreverse'):
        w = rt[1]

        def bits(ex, st, a):
            x = ex.concretize(st, a[0], w)
            if base == 'ctlz':
                return w - x.bit_length()
            if base == 'cttz':
                return (x & -x).bit_length() - 1 if x else w
            if base == 'ctpop':
                return bin(x).count('1')
            if base == 'bswap':
                return int.from_bytes(x.to_bytes(w // 8, 'little'), 'big')
            y = ex.concretize(st, a[1], w)
            s = ex.concretize(st, a[2], w) % w
            v = (x << w) | y
            return (v >> (w - s)) & ((1 << w) - 1) if base == 'fshl' else (v >> s) & ((1 << w) - 1)
        return bits
    if n.startswith('vector.reduce.f'):
        op = fops.fadd if 'fadd' in n else fops.fmul

        def red(ex, st, a):
            r = a[0]
            for v in a[1]:
                r = op(ex, st, r, v)
            return r
        return red

    def unsupported(ex, st, a):
        raise Unsupported('intrinsic ' + name)
    return unsupported
