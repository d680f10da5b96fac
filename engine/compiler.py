"""Turns the instructions of a basic block into Python closures f(state, frame); a true result means that
control has moved (frame.code/pc or the frame stack changed)."""
import math
from fractions import Fraction
import z3
from . import llparse as L
from . import poly
from . import fops
from .llparse import GlobalRef, Reg, sizeof, layout
from .poly import Poly, Unsupported
from .solver import SB, NEG, ZERO, POS, sign_cond
from .symex import (M64, OFF, U, MISSING, RealBits, Sub, Violation, CxxThrow, PathEnd, sx, f2i, i2f, f2i32, i2f32,
                    bits_of, undef)


def block(ex, fn, b):
    code = []
    for i, ins in enumerate(b.ins):
        mk = MAKE.get(ins.op)
        if mk is None:
            raise Unsupported('instruction ' + ins.text)
        code.append(mk(ex, fn, b, i, ins))
    return code


def edge(ex, fn, frm, to):
    """Closure moving a frame along a CFG edge (phis included)."""
    blk = fn.src.blocks[to]
    moves = []
    for p in blk.phis:
        moves.append((fn.index[p.dst], fn.operand(p.ty, p.a[frm])))
    codes = fn.codes
    if not moves:
        def go(st, fr):
            fr.blk = to
            fr.code = codes[to]
            fr.pc = 0
            return True
    elif len(moves) == 1:
        d, s = moves[0]

        def go(st, fr):
            r = fr.regs
            r[d] = r[s]
            fr.blk = to
            fr.code = codes[to]
            fr.pc = 0
            return True
    else:
        ds = [m[0] for m in moves]
        ss = [m[1] for m in moves]

        def go(st, fr):
            r = fr.regs
            vs = [r[s] for s in ss]
            for d, v in zip(ds, vs):
                r[d] = v
            fr.blk = to
            fr.code = codes[to]
            fr.pc = 0
            return True
    return go


# ---------------------------------------------------------------- integers
def bv(x, n):
    if type(x) is int:
        return z3.BitVecVal(x, n)
    if type(x) is SB:
        return z3.If(x.z(), z3.BitVecVal(1, n), z3.BitVecVal(0, n))
    if type(x) in (RealBits, float, Poly) or z3.is_fp(x):
        x = bits_of(x, None, n // 8)
        return z3.BitVecVal(x, n) if type(x) is int else x
    return x


def b2z(x):
    if type(x) is SB:
        return x.z()
    return z3.BoolVal(bool(x))


def mkb(z):
    if z3.is_true(z):
        return 1
    if z3.is_false(z):
        return 0
    return SB(z=z)


def simp(e):
    e = z3.simplify(e)
    return e.as_long() if z3.is_bv_value(e) else e


def boolop(op, x, y):
    if op == 'and':
        if x is U or y is U:
            return 0 if (x is not U and type(x) is int and not x) or (y is not U and type(y) is int and not y) else U
        if type(x) is int:
            return y if x else 0
        if type(y) is int:
            return x if y else 0
        if x.p is not None and y.p is not None and x.p.key() == y.p.key():
            return from_mask(x.p, x.mask & y.mask)
        return mkb(z3.And(x.z(), y.z()))
    if op == 'or':
        if x is U or y is U:
            return 1 if (type(x) is int and x) or (type(y) is int and y) else U
        if type(x) is int:
            return 1 if x else y
        if type(y) is int:
            return 1 if y else x
        if x.p is not None and y.p is not None and x.p.key() == y.p.key():
            return from_mask(x.p, x.mask | y.mask)
        return mkb(z3.Or(x.z(), y.z()))
    if op in ('xor', 'add', 'sub'):
        if x is U or y is U:
            return U
        if type(x) is int and type(y) is int:
            return x ^ y
        if type(x) is int:
            return y.neg() if x else y
        if type(y) is int:
            return x.neg() if y else x
        return mkb(z3.Xor(x.z(), y.z()))
    if op == 'mul':
        return boolop('and', x, y)
    raise Unsupported('i1 ' + op)


def from_mask(p, m):
    if m == 0:
        return 0
    if m == 7:
        return 1
    return SB(p, m)


def int_op(op, n, x, y):
    if n == 1:
        return boolop(op, x, y)
    if x is U or y is U:
        if op == 'and' and (x == 0 or y == 0):
            return 0
        return U
    if type(x) is list:
        return [int_op(op, n, a, b) for a, b in zip(x, y)]
    if type(x) is int and type(y) is int:
        m = (1 << n) - 1
        if op == 'add':
            return (x + y) & m
        if op == 'sub':
            return (x - y) & m
        if op == 'mul':
            return (x * y) & m
        if op == 'and':
            return x & y
        if op == 'or':
            return x | y
        if op == 'xor':
            return x ^ y
        if op == 'shl':
            return (x << y) & m if y < n else U
        if op == 'lshr':
            return x >> y if y < n else U
        if op == 'ashr':
            return (sx(x, n) >> y) & m if y < n else U
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if y == 0:
                raise Violation('ub', 'integer division by zero')
            if op == 'udiv':
                return x // y
            if op == 'urem':
                return x % y
            a, b = sx(x, n), sx(y, n)
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            if op == 'sdiv':
                return q & m
            return (a - q * b) & m
        raise Unsupported(op)
    # bit tricks on symbolic doubles
    if n == 64 and (type(x) is RealBits or type(y) is RealBits):
        p, c = (x, y) if type(x) is RealBits else (y, x)
        if op == 'and' and c == 0x7fffffffffffffff:
            return ('fabs', p)
        if op == 'xor' and c == 1 << 63:
            return RealBits(poly.neg(p.v) if not z3.is_fp(p.v) else z3.fpNeg(p.v))
    a, b = bv(x, n), bv(y, n)
    if op == 'add':
        r = a + b
    elif op == 'sub':
        r = a - b
    elif op == 'mul':
        r = a * b
    elif op == 'and':
        r = a & b
    elif op == 'or':
        r = a | b
    elif op == 'xor':
        r = a ^ b
    elif op == 'shl':
        r = a << b
    elif op == 'lshr':
        r = z3.LShR(a, b)
    elif op == 'ashr':
        r = a >> b
    elif op == 'udiv':
        r = z3.UDiv(a, b)
    elif op == 'urem':
        r = z3.URem(a, b)
    elif op == 'sdiv':
        r = a / b
    elif op == 'srem':
        r = z3.SRem(a, b)
    else:
        raise Unsupported(op)
    return simp(r)


def mk_bin(ex, fn, b, i, ins):
    t = ins.ty
    x, y, d = fn.operand(t, ins.a[0]), fn.operand(t, ins.a[1]), fn.index[ins.dst]
    op = ins.op
    if op[0] == 'f':
        return fops.make_bin(ex, op, t, d, x, y)
    n = t[1] if t[0] == 'i' else t[2][1]
    m = (1 << n) - 1
    div = op in ('udiv', 'sdiv', 'urem', 'srem')
    if op == 'add' and n > 1:
        def f(st, fr):
            r = fr.regs
            p, q = r[x], r[y]
            if type(p) is int and type(q) is int:
                r[d] = (p + q) & m
            else:
                r[d] = int_op('add', n, p, q)
        return f
    if op == 'sub' and n > 1:
        def f(st, fr):
            r = fr.regs
            p, q = r[x], r[y]
            if type(p) is int and type(q) is int:
                r[d] = (p - q) & m
            else:
                r[d] = int_op('sub', n, p, q)
        return f
    if div:
        def f(st, fr):
            r = fr.regs
            q = r[y]
            if type(q) is not int and q is not U and type(q) is not list:
                if ex.decide(st, SB(z=bv(q, n) == 0)):
                    raise Violation('ub', 'integer division by zero')
            r[d] = int_op(op, n, r[x], q)
        return f

    def f(st, fr):
        r = fr.regs
        v = int_op(op, n, r[x], r[y])
        if type(v) is tuple:
            v = RealBits(fops.fabs(ex, st, v[1].v))
        r[d] = v
    return f


def icmp(pred, n, x, y):
    if x is U or y is U:
        return U
    if type(x) is int and type(y) is int:
        if pred == 'eq':
            return 1 if x == y else 0
        if pred == 'ne':
            return 1 if x != y else 0
        if pred[0] == 's':
            x, y = sx(x, n), sx(y, n)
        k = pred[1:]
        return int(x < y if k == 'lt' else x <= y if k == 'le' else x > y if k == 'gt' else x >= y)
    if n == 1:
        if pred == 'eq':
            return boolop('xor', boolop('xor', x, y), 1)
        if pred == 'ne':
            return boolop('xor', x, y)
    if type(x) is list:
        return [icmp(pred, n, a, b) for a, b in zip(x, y)]
    # 0/1 valued symbolic booleans widened to integers
    if type(x) is SB and type(y) is int:
        x, c = x, y
        if pred == 'eq':
            return x if c == 1 else x.neg() if c == 0 else 0
        if pred == 'ne':
            return x.neg() if c == 1 else x if c == 0 else 1
    if type(x) is RealBits and type(x.v) is Poly and type(y) is int:
        if pred == 'slt' and y == 0 or pred == 'sle' and y == (1 << n) - 1:
            return bl(sign_cond(x.v, NEG))
        if pred == 'sgt' and y == (1 << n) - 1 or pred == 'sge' and y == 0:
            return bl(sign_cond(x.v, ZERO | POS))
    a, b = bv(x, n), bv(y, n)
    r = {'eq': lambda: a == b, 'ne': lambda: a != b, 'slt': lambda: a < b, 'sle': lambda: a <= b,
         'sgt': lambda: a > b, 'sge': lambda: a >= b, 'ult': lambda: z3.ULT(a, b), 'ule': lambda: z3.ULE(a, b),
         'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b)}[pred]()
    return mkb(z3.simplify(r))


def bl(x):
    return int(x) if type(x) is bool else x


def mk_icmp(ex, fn, b, i, ins):
    pred, x, y = ins.a
    t = ins.ty
    x, y, d = fn.operand(t, x), fn.operand(t, y), fn.index[ins.dst]
    n = 64 if t[0] == 'p' else t[1] if t[0] == 'i' else 64 if t[2][0] == 'p' else t[2][1]
    if pred == 'eq':
        def f(st, fr):
            r = fr.regs
            p, q = r[x], r[y]
            if type(p) is int and type(q) is int:
                r[d] = 1 if p == q else 0
            else:
                r[d] = icmp('eq', n, p, q)
        return f
    if pred == 'ne':
        def f(st, fr):
            r = fr.regs
            p, q = r[x], r[y]
            if type(p) is int and type(q) is int:
                r[d] = 1 if p != q else 0
            else:
                r[d] = icmp('ne', n, p, q)
        return f

    def f(st, fr):
        r = fr.regs
        r[d] = icmp(pred, n, r[x], r[y])
    return f


# ---------------------------------------------------------------- casts
def cast(ex, st, op, t, t2, v):
    if t[0] == 'vec':
        if op == 'bitcast':
            raise Unsupported('vector bitcast')
        return [cast(ex, st, op, t[2], t2[2], x) for x in v]
    if v is U:
        return U
    if op in ('ptrtoint', 'inttoptr', 'addrspacecast'):
        n, n2 = (64 if x[0] == 'p' else x[1] for x in (t, t2))
        if n == n2:
            return v
        op = 'trunc' if n2 < n else 'zext'
        t, t2 = ('i', n), ('i', n2)
    if op == 'trunc':
        if type(v) is int:
            return v & ((1 << t2[1]) - 1)
        if type(v) is SB:
            return v
        if t2[1] == 1:
            return mkb(z3.simplify(z3.Extract(0, 0, bv(v, t[1])) == 1))
        return simp(z3.Extract(t2[1] - 1, 0, bv(v, t[1])))
    if op == 'zext':
        if type(v) is int or type(v) is SB:
            return v
        return simp(z3.ZeroExt(t2[1] - t[1], bv(v, t[1])))
    if op == 'sext':
        if type(v) is int:
            return sx(v, t[1]) & ((1 << t2[1]) - 1)
        if type(v) is SB and t[1] == 1:
            return simp(z3.If(v.z(), z3.BitVecVal(-1, t2[1]), z3.BitVecVal(0, t2[1])))
        return simp(z3.SignExt(t2[1] - t[1], bv(v, t[1])))
    if op == 'bitcast':
        if t[0] == 'f' and t2[0] == 'i':
            if type(v) is float:
                return f2i(v) if t[1] == 64 else f2i32(v)
            return RealBits(v)
        if t[0] == 'i' and t2[0] == 'f':
            return as_float(v, t2[1])
        return v
    return fops.cast(ex, st, op, t, t2, v)


def as_float(v, n):
    tv = type(v)
    if tv is float or tv is Poly:
        return v
    if tv is int:
        return i2f(v) if n == 64 else i2f32(v)
    if tv is RealBits:
        return v.v
    if v is U:
        return U
    if z3.is_fp(v):
        return v
    if z3.is_bv(v):
        return z3.fpBVToFP(v, z3.Float64() if n == 64 else z3.Float32())
    raise Unsupported('float from %r' % (v,))


def mk_cast(ex, fn, b, i, ins):
    t, a = ins.a
    x, d = fn.operand(t, a), fn.index[ins.dst]
    op, t2 = ins.op, ins.ty
    if op == 'zext':
        def f(st, fr):
            r = fr.regs
            v = r[x]
            r[d] = v if type(v) is int else cast(ex, st, op, t, t2, v)
        return f
    if op in ('ptrtoint', 'inttoptr') and (t2[0] == 'p' or t2[1] == 64) and (t[0] == 'p' or t[1] == 64):
        def f(st, fr):
            r = fr.regs
            r[d] = r[x]
        return f

    def f(st, fr):
        r = fr.regs
        r[d] = cast(ex, st, op, t, t2, r[x])
    return f


# ---------------------------------------------------------------- memory
def load_typed(ex, st, a, t):
    k = t[0]
    if k == 'st':
        offs, _ = layout(t)
        return [load_typed(ex, st, a + o, x) for o, x in zip(offs, t[2])]
    if k in ('arr', 'vec'):
        n = sizeof(t[2])
        return [load_typed(ex, st, a + j * n, t[2]) for j in range(t[1])]
    v = ex.load(st, a, sizeof(t))
    if k == 'f':
        if t[1] == 80:
            return v
        return as_float(v, t[1])
    if k == 'i':
        if type(v) is float:
            return f2i(v) if t[1] == 64 else f2i32(v)
        if type(v) is Poly or (type(v) is not int and z3.is_fp(v) if v is not U and type(v) not in (SB, RealBits) else False):
            return RealBits(v)
        if t[1] < 8:
            if type(v) is int:
                return v & ((1 << t[1]) - 1)
            if v is U or type(v) is SB:
                return v
            return cast(ex, st, 'trunc', ('i', 8), t, v)
    return v


def store_typed(ex, st, a, t, v):
    k = t[0]
    if k == 'st':
        offs, _ = layout(t)
        for o, x, y in zip(offs, t[2], v):
            store_typed(ex, st, a + o, x, y)
        return
    if k in ('arr', 'vec'):
        n = sizeof(t[2])
        for j in range(t[1]):
            store_typed(ex, st, a + j * n, t[2], v[j])
        return
    if type(v) is RealBits:
        v = v.v
    ex.store(st, a, sizeof(t), v)


def mk_load(ex, fn, b, i, ins):
    t = ins.ty
    p, d = fn.operand(L.PTR, ins.a[0]), fn.index[ins.dst]
    atomic = ins.a[1]
    if ex.logging:
        def f(st, fr):
            r = fr.regs
            st_atomic(ex, st, atomic)
            r[d] = load_typed(ex, st, r[p], t)
            ex.atomic = False
        return f
    if t == L.DOUBLE:
        def f(st, fr):
            r = fr.regs
            a = r[p]
            if type(a) is int:
                o = st.objs.get(a >> 32)
                off = a & OFF
                if o is not None and off + 8 <= o.size and not off & 7:
                    v = o.words.get(off >> 3, MISSING)
                    tv = type(v)
                    if tv is float or tv is Poly:
                        r[d] = v
                        return
            r[d] = as_float(ex.load(st, a, 8), 64)
        return f
    if t == L.PTR or t == L.I64:
        def f(st, fr):
            r = fr.regs
            a = r[p]
            if type(a) is int:
                o = st.objs.get(a >> 32)
                off = a & OFF
                if o is not None and off + 8 <= o.size and not off & 7:
                    v = o.words.get(off >> 3, MISSING)
                    if type(v) is int:
                        r[d] = v
                        return
            r[d] = load_typed(ex, st, a, L.I64)
        return f

    def f(st, fr):
        r = fr.regs
        a = r[p]
        if type(a) is not int:
            a = ex.waddr(st, a)
        r[d] = load_typed(ex, st, a, t)
    return f


def st_atomic(ex, st, atomic):
    ex.atomic = atomic


def mk_store(ex, fn, b, i, ins):
    t = ins.ty
    v, p = fn.operand(t, ins.a[0]), fn.operand(L.PTR, ins.a[1])
    atomic = ins.a[2]
    if ex.logging:
        def f(st, fr):
            r = fr.regs
            ex.atomic = atomic
            store_typed(ex, st, ex.waddr(st, r[p]), t, r[v])
            ex.atomic = False
        return f
    if sizeof(t) == 8 and t[0] in 'ipf':
        def f(st, fr):
            r = fr.regs
            a = r[p]
            if type(a) is int:
                o = st.objs.get(a >> 32)
                off = a & OFF
                if o is not None and o.owner is st.token and off + 8 <= o.size and not off & 7:
                    x = r[v]
                    o.words[off >> 3] = x.v if type(x) is RealBits else x
                    return
            x = r[v]
            ex.store(st, a, 8, x.v if type(x) is RealBits else x)
        return f

    def f(st, fr):
        r = fr.regs
        store_typed(ex, st, ex.waddr(st, r[p]), t, r[v])
    return f


def mk_alloca(ex, fn, b, i, ins):
    t, n = ins.a
    d = fn.index[ins.dst]
    sz = sizeof(t)
    nreg = fn.operand(L.I64, n)
    name = '%s in %s' % (ins.dst, fn.name)

    def f(st, fr):
        k = fr.regs[nreg]
        if type(k) is not int:
            k = ex.concretize(st, k, 64)
        a = ex.alloc(st, sz * k, 'stack', U, name)
        fr.allocas.append(a >> 32)
        fr.regs[d] = a
    return f


def mk_gep(ex, fn, b, i, ins):
    bt, args = ins.a
    base, d = fn.operand(L.PTR, args[0][1]), fn.index[ins.dst]
    off = 0
    dyn = []
    t = bt
    first = True
    for it, ix in args[1:]:
        if first:
            sc = sizeof(bt)
            first = False
        elif t[0] == 'st':
            off += layout(t)[0][ix]
            t = t[2][ix]
            continue
        else:
            t = t[2]
            sc = sizeof(t)
        if type(ix) is int:
            off += sx(ix, it[1]) * sc
        else:
            dyn.append((fn.operand(it, ix), sc, it[1]))
    if not dyn:
        def f(st, fr):
            r = fr.regs
            p = r[base]
            if type(p) is int:
                r[d] = (p + off) & M64
            else:
                r[d] = U if p is U else simp(p + z3.BitVecVal(off, 64))
        return f

    def f(st, fr):
        r = fr.regs
        p = r[base]
        o = off
        sym = None
        if p is U:
            r[d] = U
            return
        for x, sc, n in dyn:
            v = r[x]
            if type(v) is int:
                o += (v - (1 << n) if v >> (n - 1) else v) * sc
            elif v is U:
                r[d] = U
                return
            else:
                w = bv(v, n)
                if n < 64:
                    w = z3.SignExt(64 - n, w)
                w = w * z3.BitVecVal(sc, 64)
                sym = w if sym is None else sym + w
        if sym is None and type(p) is int:
            r[d] = (p + o) & M64
        else:
            e = bv(p, 64) + z3.BitVecVal(o, 64)
            r[d] = simp(e + sym if sym is not None else e)
    return f


# ---------------------------------------------------------------- control
def mk_jmp(ex, fn, b, i, ins):
    return edge(ex, fn, b.name, ins.a[0])


def mk_br(ex, fn, b, i, ins):
    c = fn.operand(L.I1, ins.a[0])
    t, e = edge(ex, fn, b.name, ins.a[1]), edge(ex, fn, b.name, ins.a[2])

    def f(st, fr):
        v = fr.regs[c]
        if type(v) is not int:
            v = ex.decide(st, v)
        return t(st, fr) if v else e(st, fr)
    return f


def mk_switch(ex, fn, b, i, ins):
    v, dflt, cases = ins.a
    x = fn.operand(ins.ty, v)
    table = {c: edge(ex, fn, b.name, l) for c, l in cases}
    de = edge(ex, fn, b.name, dflt)
    n = ins.ty[1]

    def f(st, fr):
        k = fr.regs[x]
        if type(k) is not int:
            if k is U:
                raise Violation('uninit', 'switch on an uninitialised value')
            if type(k) is SB:
                k = int(ex.decide(st, k))
            else:
                for c, e in table.items():
                    if ex.decide(st, SB(z=z3.simplify(bv(k, n) == c))):
                        return e(st, fr)
                return de(st, fr)
        return table.get(k, de)(st, fr)
    return f


def mk_ret(ex, fn, b, i, ins):
    if ins.a[0] is None:
        def f(st, fr):
            ex.ret(st, None)
            return True
        return f
    x = fn.operand(ins.ty, ins.a[0])

    def f(st, fr):
        ex.ret(st, fr.regs[x])
        return True
    return f


def mk_unreachable(ex, fn, b, i, ins):
    def f(st, fr):
        raise Violation('ub', 'unreachable code reached in ' + fn.name)
    return f


def mk_select(ex, fn, b, i, ins):
    ct, c, x, y = ins.a
    c, x, y, d = fn.operand(ct, c), fn.operand(ins.ty, x), fn.operand(ins.ty, y), fn.index[ins.dst]
    t = ins.ty

    def f(st, fr):
        r = fr.regs
        k = r[c]
        if type(k) is int:
            r[d] = r[x] if k else r[y]
            return
        if k is U:
            r[d] = U
            return
        if type(k) is list:
            r[d] = [p if q else s for q, p, s in zip(k, r[x], r[y])]
            return
        r[d] = select(ex, st, t, k, r[x], r[y])
    return f


def same(a, b):
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if type(a) is Poly:
        return a.key() == b.key()
    if type(a) is float:
        return a == b or (a != a and b != b)
    if type(a) is int:
        return a == b
    return False


def select(ex, st, t, k, a, b):
    if same(a, b):
        return a
    if t[0] == 'i' and a is not U and b is not U:
        if t[1] == 1:
            if type(a) is int and type(b) is int:
                return k if a else k.neg()
            if b == 0 and type(b) is int:
                return boolop('and', k, a)
            if a == 1 and type(a) is int:
                return boolop('or', k, b)
            return mkb(z3.simplify(z3.If(k.z(), b2z(a), b2z(b))))
        if type(a) is not RealBits and type(b) is not RealBits and k.p is None:
            return simp(z3.If(k.z(), bv(a, t[1]), bv(b, t[1])))
    if t[0] == 'f' and ex.fp and a is not U and b is not U:
        return z3.If(k.z(), fops.fpv(a, t[1]), fops.fpv(b, t[1]))
    if t[0] == 'i' and t[1] == 1 and type(b) is int and b == 0:
        return boolop('and', k, a)
    return a if ex.decide(st, k) else b


def mk_extractvalue(ex, fn, b, i, ins):
    v, idx = ins.a
    x, d = fn.operand(ins.ty, v), fn.index[ins.dst]

    def f(st, fr):
        v = fr.regs[x]
        for k in idx:
            if v is U:
                break
            v = v[k]
        fr.regs[d] = v
    return f


def mk_insertvalue(ex, fn, b, i, ins):
    v, e, idx = ins.a
    t = ins.ty
    et = t
    for k in idx:
        et = et[2][k] if et[0] == 'st' else et[2]
    x, y, d = fn.operand(t, v), fn.operand(et, e), fn.index[ins.dst]

    def upd(v, idx, e, t):
        if not idx:
            return e
        v = list(undef(t) if v is U else v)
        v[idx[0]] = upd(v[idx[0]], idx[1:], e, t[2][idx[0]] if t[0] == 'st' else t[2])
        return v

    def f(st, fr):
        fr.regs[d] = upd(fr.regs[x], idx, fr.regs[y], t)
    return f


def mk_extractelement(ex, fn, b, i, ins):
    v, k = ins.a
    x, y, d = fn.operand(ins.ty, v), fn.operand(L.I64, k), fn.index[ins.dst]

    def f(st, fr):
        v = fr.regs[x]
        fr.regs[d] = U if v is U else v[ex.concretize(st, fr.regs[y], 64)]
    return f


def mk_insertelement(ex, fn, b, i, ins):
    v, e, k = ins.a
    x, y, z, d = fn.operand(ins.ty, v), fn.operand(ins.ty[2], e), fn.operand(L.I64, k), fn.index[ins.dst]
    n = ins.ty[1]

    def f(st, fr):
        v = fr.regs[x]
        v = [U] * n if v is U else list(v)
        v[ex.concretize(st, fr.regs[z], 64)] = fr.regs[y]
        fr.regs[d] = v
    return f


def mk_shufflevector(ex, fn, b, i, ins):
    a, c, m = ins.a
    x, y, d = fn.operand(ins.ty, a), fn.operand(ins.ty, c), fn.index[ins.dst]
    n = ins.ty[1]
    mask = m if isinstance(m, list) else None

    def f(st, fr):
        p, q = fr.regs[x], fr.regs[y]
        p = [U] * n if p is U else p
        q = [U] * n if q is U else q
        w = p + q
        fr.regs[d] = [U if not isinstance(k, int) else w[k] for k in mask]
    return f


def mk_freeze(ex, fn, b, i, ins):
    x, d = fn.operand(ins.ty, ins.a[0]), fn.index[ins.dst]

    def f(st, fr):
        fr.regs[d] = fr.regs[x]
    return f


def mk_fcmp(ex, fn, b, i, ins):
    pred, x, y = ins.a
    t = ins.ty
    x, y, d = fn.operand(t, x), fn.operand(t, y), fn.index[ins.dst]

    def f(st, fr):
        r = fr.regs
        r[d] = fops.fcmp(ex, pred, r[x], r[y])
    return f


def mk_fneg(ex, fn, b, i, ins):
    x, d = fn.operand(ins.ty, ins.a[0]), fn.index[ins.dst]

    def f(st, fr):
        fr.regs[d] = fops.fneg(fr.regs[x])
    return f


def mk_call(ex, fn, b, i, ins):
    callee, args, normal, unwind = ins.a
    dst = fn.index[ins.dst] if ins.dst is not None else None
    ne = edge(ex, fn, b.name, normal) if normal is not None else None
    if unwind is not None:
        ub = fn.src.blocks[unwind]
        lp = ub.ins[0]
        cl = [(k, ex.cval(L.PTR, v)) if k == 'catch' else (k, 0) for k, v in lp.a[0]]
        fn.calls[(b.name, i)] = (edge(ex, fn, b.name, unwind), (cl, lp.a[1], fn.index[lp.dst]))
    ret = (dst, ne)
    rt = ins.ty
    if type(callee) is GlobalRef:
        name = callee.name
        if name.startswith('llvm.'):
            h = ex.intrinsic(ex, name, args, rt)
            if h is None:
                def f(st, fr):
                    if ne is not None:
                        return ne(st, fr)
                return f
            aregs = [fn.operand(t, v) if t != ('metadata',) else 0 for t, v in args]
        else:
            aregs = [fn.operand(t, v) for t, v in args]
            h = ex.models.get(name)
        if h is not None:
            def f(st, fr):
                fr.pc = i
                r = fr.regs
                v = h(ex, st, [r[a] for a in aregs])
                if dst is not None:
                    r[dst] = v
                if ne is not None:
                    return ne(st, fr)
            return f
        target = []

        def f(st, fr):
            if not target:
                g = ex.function(name)
                if g is None:
                    gl = ex.gaddr(name)
                    n2 = ex.gnames.get(gl >> 32)
                    g = ex.function(n2) if n2 != name else None
                    if g is None:
                        raise Unsupported('external function ' + name)
                target.append(g)
            r = fr.regs
            fr.pc = i
            ex.push(st, target[0], [r[a] for a in aregs], ret)
            return True
        return f
    if type(callee) is Reg:
        c = fn.index[callee.name]
        aregs = [fn.operand(t, v) for t, v in args]

        def f(st, fr):
            r = fr.regs
            a = ex.waddr(st, r[c])
            name = ex.gnames.get(a >> 32) if not a & OFF else None
            if name is None:
                raise Violation('memory', 'call of a wild function pointer')
            fr.pc = i
            vs = [r[k] for k in aregs]
            h = ex.models.get(name)
            if h is not None:
                v = h(ex, st, vs)
                if dst is not None:
                    r[dst] = v
                if ne is not None:
                    return ne(st, fr)
                return
            g = ex.function(name)
            if g is None:
                if name == '__cxa_pure_virtual':
                    raise Violation('ub', 'pure virtual call')
                raise Unsupported('external function ' + name)
            ex.push(st, g, vs, ret)
            return True
        return f
    raise Unsupported('call ' + ins.text)


def mk_landingpad(ex, fn, b, i, ins):
    def f(st, fr):
        pass
    return f


def mk_resume(ex, fn, b, i, ins):
    x = fn.operand(ins.ty, ins.a[0])

    def f(st, fr):
        ptr = fr.regs[x][0]
        ti = ex.load(st, ptr - 16, 8)
        ex.pop(st)
        ex.throw(st, ptr, ti)
        return True
    return f


def mk_asm(ex, fn, b, i, ins):
    def f(st, fr):
        return None
    return f


def mk_atomicrmw(ex, fn, b, i, ins):
    o, a, v = ins.a
    p, x, d = fn.operand(L.PTR, a), fn.operand(ins.ty, v), fn.index[ins.dst]
    n = ins.ty[1]

    def f(st, fr):
        r = fr.regs
        ad = ex.waddr(st, r[p])
        th, st.thread = st.thread, None
        old = load_typed(ex, st, ad, ins.ty)
        y = r[x]
        if o == 'xchg':
            new = y
        elif o in ('add', 'sub', 'and', 'or', 'xor'):
            new = int_op(o, n, old, y)
        else:
            raise Unsupported('atomicrmw ' + o)
        store_typed(ex, st, ad, ins.ty, new)
        st.thread = th
        if ex.logging and th is not None:
            # 'x': a read and a write in one; its value is the new one
            ex.atomic = True
            ex.log_access(st, 'X', ad, sizeof(ins.ty), new)
            ex.atomic = False
        r[d] = old
    return f


def mk_cmpxchg(ex, fn, b, i, ins):
    a, c, v = ins.a
    p, x, y, d = fn.operand(L.PTR, a), fn.operand(ins.ty, c), fn.operand(ins.ty, v), fn.index[ins.dst]

    def f(st, fr):
        r = fr.regs
        ad = ex.waddr(st, r[p])
        ex.atomic = True
        old = load_typed(ex, st, ad, ins.ty)
        ok = ex.decide(st, icmp('eq', 64 if ins.ty[0] == 'p' else ins.ty[1], old, r[x]))
        if ok:
            store_typed(ex, st, ad, ins.ty, r[y])
        ex.atomic = False
        r[d] = [old, int(ok)]
    return f


MAKE = {'icmp': mk_icmp, 'load': mk_load, 'store': mk_store, 'alloca': mk_alloca, 'getelementptr': mk_gep,
        'jmp': mk_jmp, 'br': mk_br, 'switch': mk_switch, 'ret': mk_ret, 'unreachable': mk_unreachable,
        'select': mk_select, 'extractvalue': mk_extractvalue, 'insertvalue': mk_insertvalue,
        'extractelement': mk_extractelement, 'insertelement': mk_insertelement, 'shufflevector': mk_shufflevector,
        'freeze': mk_freeze, 'fcmp': mk_fcmp, 'fneg': mk_fneg, 'call': mk_call, 'landingpad': mk_landingpad,
        'resume': mk_resume, 'asm': mk_asm, 'atomicrmw': mk_atomicrmw, 'cmpxchg': mk_cmpxchg}
for _o in L.BIN:
    MAKE[_o] = mk_bin
for _o in L.CAST:
    MAKE[_o] = mk_cast
