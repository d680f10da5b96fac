"""Symbolic execution of LLVM IR (one path at a time, forking at decisions on symbolic values).

Integers and pointers are Python ints or z3 bit-vectors, i1 is 0/1 or SB, doubles are Python floats (IEEE) while
concrete and, when symbolic, either exact real polynomials (mode 'real') or z3 floating-point terms (mode 'fp')."""
import math
import os
import struct
import sys
import time
from fractions import Fraction
import z3
from . import llparse as L
from . import poly
from . import solver
from .llparse import UNDEF, GlobalRef, ConstExpr, Reg, ZeroFill, sizeof, layout
from .poly import Poly, Unsupported
from .solver import SB, NEG, ZERO, POS, sign_cond, zvars

M64 = (1 << 64) - 1
OFF = 0xffffffff
HEAP0 = 1 << 22
sys.setrecursionlimit(20000)


class U_:
    def __repr__(self):
        return 'uninit'


U = U_()
MISSING = object()
DEBUG = os.environ.get('VS_DEBUG')


class RealBits:
    """The bit pattern of a symbolic double (or float)."""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Sub(dict):
    """Content of an 8-byte word not accessed as a whole: {start: (size, value)}."""
    pass


class Fork(Exception):
    def __init__(self, cond):
        self.cond = cond


class PathEnd(Exception):
    """This path is over (assumption false, exit, ...)."""
    def __init__(self, why):
        self.why = why


class Violation(Exception):
    """A check fails on this path; extra: conditions under which (list of (z3, vars))."""
    def __init__(self, cid, detail='', extra=None, soft=None):
        self.cid = cid
        self.detail = detail
        self.extra = extra or []
        self.soft = soft or []     # stronger conditions worth trying first


class CxxThrow(Exception):
    def __init__(self, ptr, tinfo):
        self.ptr = ptr
        self.tinfo = tinfo


class Obj:
    __slots__ = ('size', 'words', 'fill', 'owner', 'kind', 'name')

    def __init__(self, size, fill, owner, kind, name=''):
        self.size = size
        self.words = {}
        self.fill = fill
        self.owner = owner
        self.kind = kind
        self.name = name


class Frame:
    __slots__ = ('fn', 'code', 'pc', 'regs', 'blk', 'allocas', 'ret', 'va')

    def clone(self):
        f = Frame()
        f.fn, f.code, f.pc, f.regs, f.blk, f.ret, f.va = self.fn, self.code, self.pc, self.regs[:], self.blk, self.ret, self.va
        f.allocas = self.allocas[:]
        return f


class State:
    __slots__ = ('frames', 'objs', 'next', 'cons', 'signs', 'known', 'vals', 'inputs', 'names', 'depth', 'token',
                 'caught', 'thread', 'log', 'mutex', 'outs', 'decisions', 'steps', 'unknown', 'trace', 'prefix')

    def clone(self):
        s = State()
        s.frames = [f.clone() for f in self.frames]
        s.objs = dict(self.objs)
        s.next = self.next
        s.cons = self.cons[:]
        s.signs = dict(self.signs)
        s.known = dict(self.known)
        s.vals = dict(self.vals)
        s.inputs = self.inputs[:]
        s.names = dict(self.names)
        s.depth = self.depth
        s.token = object()
        self.token = object()
        s.caught = self.caught[:]
        s.thread, s.log = self.thread, self.log
        s.mutex = dict(self.mutex)
        s.outs = self.outs[:]
        s.decisions = self.decisions
        s.steps = self.steps
        s.unknown = self.unknown
        s.trace = self.trace
        s.prefix = None
        return s


def f2i(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def i2f(x):
    return struct.unpack('<d', struct.pack('<Q', x))[0]


def f2i32(x):
    return struct.unpack('<I', struct.pack('<f', x))[0]


def i2f32(x):
    return struct.unpack('<f', struct.pack('<I', x))[0]


def f32(x):
    if x != x or math.isinf(x):
        return x
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def sx(v, n):
    return v - (1 << n) if v >> (n - 1) else v


FP64 = z3.Float64()
FP32 = z3.Float32()
RNE = z3.RNE()
RTZ = z3.RTZ()


class Exec:
    def __init__(self, mod, mode='real', logging=False, trace_fn=None):
        self.m = mod
        self.mode = mode
        self.fp = mode == 'fp'
        self.logging = logging
        self.atomic = False
        self.gids = {}
        self.gnames = {}
        self.gobj = {}
        self.fncache = {}
        self.instrs = 0
        self.called = set()
        from . import models
        self.models = models.MODELS
        self.intrinsic = models.intrinsic
        self.inputs = None          # concrete inputs (dict name -> value) or None
        self.sampler = None
        self.case = 0
        self.reached = {}
        self.assert_queries = 0
        self.assert_trivial = 0
        self.stats_paths = 0
        self.final_timeout = 60.0
        self.branch_timeout = 3.0
        self.watch = None
        self.max_steps = 3000000

    # ------------------------------------------------------------ globals
    def gaddr(self, name):
        a = self.gids.get(name)
        if a is None:
            if name not in self.m.fsrc and name not in self.m.decls:
                g = self.m.get_global(name)
                if g is not None and g.ty is None:      # alias
                    v = self.cval(L.PTR, g.init)
                    self.gids[name] = v
                    return v
            i = len(self.gnames) + 1
            self.gnames[i] = name
            a = self.gids[name] = i << 32
        return a

    def global_obj(self, i):
        o = self.gobj.get(i)
        if o is None:
            name = self.gnames.get(i)
            if name is None:
                return None
            if name in self.m.fsrc or name in self.m.decls:
                o = Obj(1, 0, None, 'fn', name)
            else:
                g = self.m.get_global(name)
                if g is None or g.init is None:
                    o = Obj(sizeof(g.ty) if g is not None and g.ty[0] != 'v' and sizeof(g.ty) else 4096, 0, None, 'global', name)
                    o.size = max(o.size, 256)
                else:
                    o = Obj(sizeof(g.ty), 0, self, 'global', name)
                    self.init(o, 0, g.ty, g.init)
                    o.owner = None
            self.gobj[i] = o
        return o

    def init(self, o, off, t, v):
        k = t[0]
        if v is UNDEF or isinstance(v, ZeroFill):
            return
        if k == 'arr' or k == 'vec':
            n = sizeof(t[2])
            if t[2] == L.I8:
                b = bytes(x if isinstance(x, int) else 0 for x in v)
                for i in range(0, len(b), 8):
                    c = b[i:i + 8]
                    if any(c):
                        if len(c) == 8 and (off + i) % 8 == 0:
                            o.words[(off + i) >> 3] = int.from_bytes(c, 'little')
                        else:
                            for j, x in enumerate(c):
                                self.put(o, off + i + j, 1, x)
                return
            for i, x in enumerate(v):
                self.init(o, off + i * n, t[2], x)
        elif k == 'st':
            offs, _ = layout(t)
            for f, x, ft in zip(offs, v, t[2]):
                self.init(o, off + f, ft, x)
        else:
            x = self.cval(t, v)
            if x is not U and not (x == 0 and not isinstance(x, float)):
                self.put(o, off, sizeof(t), x)

    def cval(self, t, v):
        """Value of a constant operand."""
        tv = type(v)
        if tv is int or tv is float:
            if t[0] == 'f' and t[1] == 32:
                return float(v)
            if t == ('f', 80):
                return float(v)
            return v
        if v is UNDEF:
            return undef(t)
        if tv is GlobalRef:
            return self.gaddr(v.name)
        if tv is list:
            if t[0] == 'st':
                return [self.cval(x, y) for x, y in zip(t[2], v)]
            return [self.cval(t[2], y) for y in v]
        if tv is ConstExpr:
            op = v.op
            if op == 'getelementptr':
                bt, args = v.args
                base = self.cval(L.PTR, args[0][1])
                return (base + self.gep_const(bt, [(a, self.cval(a, x)) for a, x in args[1:]])) & M64
            a = [(x, self.cval(x, y)) for x, y in v.args if y is not None] if op != 'icmp' else None
            if op in ('ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'):
                return a[0][1]
            if op == 'trunc':
                return a[0][1] & ((1 << v.args[1][0][1]) - 1)
            if op in ('add', 'sub', 'mul'):
                n = a[0][0][1]
                x, y = a[0][1], a[1][1]
                return (x + y if op == 'add' else x - y if op == 'sub' else x * y) & ((1 << n) - 1)
            if op == 'icmp':
                pred, args = v.args
                x, y = (self.cval(p, q) for p, q in args)
                return int({'eq': x == y, 'ne': x != y}[pred])
            raise Unsupported('constant expression ' + op)
        if tv is ZeroFill:
            return [0] * v.n
        raise Unsupported('constant %r' % (v,))

    def gep_const(self, bt, idx):
        off = 0
        t = bt
        first = True
        for it, i in idx:
            i = sx(i, it[1])
            if first:
                off += i * sizeof(bt)
                first = False
            elif t[0] == 'st':
                off += layout(t)[0][i]
                t = t[2][i]
            else:
                t = t[2]
                off += i * sizeof(t)
        return off

    # ------------------------------------------------------------ memory
    def alloc(self, st, size, kind, fill=U, name=''):
        i = st.next
        st.next = i + 1
        st.objs[i] = Obj(size, fill, st.token, kind, name)
        return i << 32

    def find(self, st, addr, size, what):
        i = addr >> 32
        o = st.objs.get(i)
        if o is None:
            if i < HEAP0:
                o = self.global_obj(i)
                if o is not None:
                    st.objs[i] = o
            if o is None:
                if addr < 4096:
                    raise Violation('memory', 'null pointer %s (address %d)' % (what, addr))
                raise Violation('memory', '%s of freed or wild memory' % what)
        off = addr & OFF
        if off + size > o.size:
            if off == OFF + 1 - 0:
                pass
            raise Violation('memory', '%s of %d bytes at offset %d of %s object %s of %d bytes' % (
                what, size, sx(off, 32), o.kind, o.name, o.size))
        return o, off

    def waddr(self, st, a):
        """Concrete address (forks over the feasible ones)."""
        if type(a) is int:
            return a
        if a is U:
            raise Violation('uninit', 'uninitialised pointer used')
        return self.concretize(st, a, 64)

    def load(self, st, addr, size):
        if type(addr) is not int:
            addr = self.waddr(st, addr)
        o, off = self.find(st, addr, size, 'read')
        if self.logging and st.thread is not None and o.kind != 'stack':
            v = self.get(o, off, size)
            self.log_access(st, 'R', addr, size, v)
            return v
        return self.get(o, off, size)

    def store(self, st, addr, size, v):
        if type(addr) is not int:
            addr = self.waddr(st, addr)
        o, off = self.find(st, addr, size, 'write')
        if o.owner is not st.token:
            o = self.own(st, addr >> 32, o)
        if self.logging and st.thread is not None and o.kind != 'stack':
            self.log_access(st, 'W', addr, size, v)
        if size == 8 and not off & 7:
            o.words[off >> 3] = v
        else:
            self.put(o, off, size, v)

    def log_access(self, st, rw, addr, size, v=None):
        f = st.frames[-1].fn.name
        for fr in reversed(st.frames):
            if '6ndt_2d' in fr.fn.name:
                f = fr.fn.name
                break
        # atomic accesses in lower case; their value orders them
        st.log = (st.log, (st.thread, rw.lower() if self.atomic else rw, addr, size, f, v if self.atomic else None))

    def own(self, st, i, o):
        n = Obj(o.size, o.fill, st.token, o.kind, o.name)
        n.words = dict(o.words)
        st.objs[i] = n
        return n

    def get(self, o, off, size):
        w = off >> 3
        s = off & 7
        if s + size <= 8:
            v = o.words.get(w, MISSING)
            if v is MISSING:
                if o.fill is U:
                    return U
                v = o.fill * 0x0101010101010101
            if type(v) is Sub:
                e = v.get(s)
                if e is not None and e[0] == size:
                    return e[1]
                return self.assemble(o, v, s, size)
            if size == 8:
                return v
            return part(v, s, size, self)
        # crosses words
        lo = 8 - s
        if size > 8 and s == 0 and size % 8 == 0:
            vs = [self.get(o, off + i, 8) for i in range(0, size, 8)]
            return join(vs, [8] * len(vs), self)
        bs = [self.get(o, off + i, 1) for i in range(size)]
        del lo
        return join(bs, [1] * size, self)

    def assemble(self, o, sub, s, size):
        vs, ns = [], []
        i = s
        while i < s + size:
            for k, (n, v) in sub.items():
                if k <= i < k + n:
                    m = min(k + n, s + size) - i
                    vs.append(v if m == n else part(v, i - k, m, self, n))
                    ns.append(m)
                    i += m
                    break
            else:
                if o.fill is U:
                    return U
                vs.append(o.fill)
                ns.append(1)
                i += 1
        return join(vs, ns, self)

    def put(self, o, off, size, v):
        w = off >> 3
        s = off & 7
        if s + size > 8:
            if s == 0 and size % 8 == 0:
                for i in range(0, size, 8):
                    o.words[w + i // 8] = part(v, i, 8, self, size)
                return
            for i in range(size):
                self.put(o, off + i, 1, part(v, i, 1, self, size))
            return
        if size == 8:
            o.words[w] = v
            return
        old = o.words.get(w, MISSING)
        if old is MISSING:
            sub = Sub()
        elif type(old) is Sub:
            sub = Sub(old)
        else:
            sub = Sub()
            if s:
                sub[0] = (s, part(old, 0, s, self))
            if s + size < 8:
                sub[s + size] = (8 - s - size, part(old, s + size, 8 - s - size, self))
            sub[s] = (size, v)
            o.words[w] = sub
            return
        e = sub.get(s)
        if e is None or e[0] != size:
            for k, (n, x) in list(sub.items()):
                if k < s + size and s < k + n:
                    del sub[k]
                    if k < s:
                        sub[k] = (s - k, part(x, 0, s - k, self, n))
                    if k + n > s + size:
                        sub[s + size] = (k + n - s - size, part(x, s + size - k, k + n - s - size, self, n))
        sub[s] = (size, v)
        o.words[w] = sub

    def memcpy(self, st, d, s, n):
        if n == 0:
            return
        d, s = self.waddr(st, d), self.waddr(st, s)
        so, soff = self.find(st, s, n, 'read')
        do, doff = self.find(st, d, n, 'write')
        if self.logging and st.thread is not None:
            if so.kind != 'stack':
                self.log_access(st, 'R', s, n)
            if do.kind != 'stack':
                self.log_access(st, 'W', d, n)
        if do.owner is not st.token:
            do = self.own(st, d >> 32, do)
            if so is st.objs.get(d >> 32):
                so = do
        items = []
        i = 0
        while i < n:
            a, b = soff + i, doff + i
            if not (a & 7) and not (b & 7) and n - i >= 8:
                v = so.words.get(a >> 3, MISSING)
                if v is MISSING:
                    v = U if so.fill is U else so.fill * 0x0101010101010101
                items.append((b, 8, v))
                i += 8
            elif not (a & 3) and not (b & 3) and n - i >= 4:
                items.append((b, 4, self.get(so, a, 4)))
                i += 4
            else:
                items.append((b, 1, self.get(so, a, 1)))
                i += 1
        for b, k, v in items:
            if k == 8:
                do.words[b >> 3] = v
            else:
                self.put(do, b, k, v)

    def memset(self, st, d, c, n):
        if n == 0:
            return
        d = self.waddr(st, d)
        o, off = self.find(st, d, n, 'write')
        if self.logging and st.thread is not None and o.kind != 'stack':
            self.log_access(st, 'W', d, n)
        if o.owner is not st.token:
            o = self.own(st, d >> 32, o)
        if off == 0 and n == o.size and type(c) is int:
            o.words = {}
            o.fill = c & 255
            return
        i = 0
        while i < n:
            b = off + i
            if not b & 7 and n - i >= 8 and (type(c) is int or c is U):
                o.words[b >> 3] = U if c is U else (c & 255) * 0x0101010101010101
                i += 8
            else:
                self.put(o, b, 1, c if c is U or type(c) is not int else c & 255)
                i += 1

    def cstr(self, st, addr):
        out = bytearray()
        while True:
            c = self.load(st, addr + len(out), 1)
            if type(c) is not int:
                raise Unsupported('symbolic string')
            if c == 0:
                return out.decode('latin1')
            out.append(c)

    # ------------------------------------------------------------ decisions
    def decide(self, st, b):
        """Truth of b on this path; forks if both are possible."""
        tb = type(b)
        if tb is bool:
            return b
        if tb is int:
            return b != 0
        if b is U:
            raise Violation('uninit', 'branch on an uninitialised value')
        if tb is not SB:
            if z3.is_bool(b):
                b = SB(z=b)
            else:
                raise Unsupported('decide %r' % (b,))
        if b.p is not None:
            k = st.signs.get(b.p.key(), 7)
            if k & b.mask == 0:
                return False
            if k & ~b.mask & 7 == 0:
                return True
        else:
            i = b._z.get_id()
            v = st.known.get(i)
            if v is not None:
                return v
            if z3.is_true(b._z):
                return True
            if z3.is_false(b._z):
                return False
            s = z3.simplify(b._z)
            solver._alive.append(b._z)
            if z3.is_true(s):
                st.known[i] = True
                return True
            if z3.is_false(s):
                st.known[i] = False
                return False
        raise Fork(b)

    def learn(self, st, b, val, implied):
        """Record that b is val on this path."""
        if b.p is not None:
            mask = b.mask if val else 7 & ~b.mask
            k = b.p.key()
            st.signs[k] = st.signs.get(k, 7) & mask
            if not implied:
                c = SB(b.p, mask)
                st.cons.append((c.z(), c.vars()))
        else:
            st.known[b._z.get_id()] = val
            solver._alive.append(b._z)
            if not implied:
                c = b if val else b.neg()
                st.cons.append((c.z(), c.vars()))

    def test(self, st, b):
        """Feasibility of b under st: 'sat' / 'unsat' / 'unknown', values."""
        r = solver.query(st.cons, [(b.z(), b.vars())], self.branch_timeout)
        if r[0] == 'unknown':
            st.unknown += 1
        return r

    def guess(self, st, b):
        """Side of b known to be feasible from the stored assignment, or None."""
        if b.p is None:
            return None
        v = poly.evaluate(b.p, st.vals)
        if v is None:
            return None
        s = NEG if v < 0 else POS if v > 0 else ZERO
        return bool(s & b.mask)

    def fork(self, st, b):
        """Split st on b: list of states (st itself is reused)."""
        if st.prefix:
            k = st.prefix.pop()
            if not st.prefix:
                st.prefix = None
            st.trace = (st.trace, k)
            self.learn(st, b, bool(k & 1), bool(k & 2))
            st.decisions += 1 - (k >> 1)
            return [st]
        t00 = time.time()
        g = self.guess(st, b)
        nb = b.neg()
        if g is True:
            t, f = ('sat', None), self.test(st, nb)
        elif g is False:
            t, f = self.test(st, b), ('sat', None)
        else:
            t = self.test(st, b)
            f = self.test(st, nb) if t[0] != 'unsat' else ('sat', None)
        tf, ff = t[0] != 'unsat', f[0] != 'unsat'
        if DEBUG:
            c = str(b.p if b.p is not None else b._z)
            print('FORK', round(time.time()-t00,2), st.frames[-1].fn.name[:60], t[0], f[0], b.mask, len(c), c[:150], flush=True)
        if tf and ff:
            o = st.clone()
            st.decisions += 1
            o.decisions += 1
            st.trace, o.trace = (st.trace, 1), (o.trace, 0)
            self.learn(st, b, True, False)
            self.learn(o, b, False, False)
            self.merge_vals(st, t[1])
            self.merge_vals(o, f[1])
            return [st, o]
        if tf:
            st.trace = (st.trace, 3)
            self.learn(st, b, True, True)
            self.merge_vals(st, t[1])
            return [st]
        if ff:
            st.trace = (st.trace, 2)
            self.learn(st, b, False, True)
            self.merge_vals(st, f[1])
            return [st]
        return []

    def merge_vals(self, st, vals):
        if vals:
            for k, v in vals.items():
                if type(k) is int:
                    st.vals[k] = v[0] if v is not None else None

    def concretize(self, st, v, n, limit=256):
        """A concrete value for a bit-vector (or SB), forking over the feasible ones."""
        if type(v) is int:
            return v
        if type(v) is SB:
            return int(self.decide(st, v))
        if v is U:
            raise Violation('uninit', 'uninitialised value used')
        if isinstance(v, (RealBits, Poly, float)):
            raise Unsupported('bits of a symbolic double as an integer')
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return v.as_long()
        vi = v.get_id()
        key = ('conc', vi)
        c = st.known.get(key)
        if c is not None:
            return c
        # candidates are tried one by one; each is a decision
        tried = 0
        while True:
            t = st.known.get(('cand', vi, tried))
            if t is None:
                break
            if self.decide(st, SB(z=(v == z3.BitVecVal(t, n)))):
                st.known[key] = t
                return t
            tried += 1
            if tried > limit:
                raise Unsupported('more than %d values of an integer' % limit)
        if st.prefix:
            t = st.prefix.pop()[1]
        else:
            r = solver.query(st.cons, [(z3.BoolVal(True), zvars(v))], self.branch_timeout)
            if r[0] == 'unsat':
                raise PathEnd('infeasible')
            if r[0] != 'sat':
                raise Unsupported('no value for an integer')
            t = r[1]['model'].eval(v, model_completion=True).as_long()
        st.trace = (st.trace, ('v', t))
        solver._alive.append(v)
        st.known[('cand', vi, tried)] = t
        if self.decide(st, SB(z=(v == z3.BitVecVal(t, n)))):
            st.known[key] = t
            return t
        return self.concretize(st, v, n, limit)

    def floor(self, st, p):
        """floor of a symbolic real as a Python int (forks)."""
        lo, hi = p.interval()
        if lo == -math.inf or hi == math.inf or hi - lo > 1e9:
            r = solver.query(st.cons, [(z3.BoolVal(True), p.vars())], self.branch_timeout)
            raise Unsupported('floor of an unbounded value %r %r' % (p, r[0]))
        a, b = math.floor(lo), math.floor(hi)
        while a < b:
            mid = (a + b + 1) // 2
            # p >= mid ?
            if self.decide(st, sign_cond(poly.sub(p, float(mid)), ZERO | POS)):
                a = mid
            else:
                b = mid - 1
        return a

    # ------------------------------------------------------------ functions
    def function(self, name):
        f = self.fncache.get(name)
        if f is None:
            src = self.m.get_function(name)
            if src is None:
                return None
            f = self.fncache[name] = Fn(self, src)
        return f

    def start(self, fname='main'):
        st = State()
        st.frames = []
        st.objs = {}
        st.next = HEAP0
        st.cons, st.signs, st.known, st.vals = [], {}, {}, {}
        st.inputs, st.names, st.depth = [], {}, 0
        st.token = object()
        st.caught = []
        st.thread, st.log, st.mutex = None, None, {}
        st.outs = []
        st.decisions = st.steps = st.unknown = 0
        st.trace = None
        st.prefix = None
        # static initialisers, then main
        fn = self.function(fname)
        self.push(st, fn, [0] * len(fn.params), None)
        g = self.m.get_global('llvm.global_ctors')
        if g is not None:
            v = self.cval(g.ty, g.init)
            for prio, fa, _ in reversed(sorted(v, key=lambda t: t[0])):     # last pushed runs first
                self.push(st, self.function(self.gnames[fa >> 32]), [], None)
        return st

    def push(self, st, fn, args, ret):
        fr = Frame()
        fr.fn = fn
        fr.regs = fn.template[:]
        fr.regs[:len(args)] = args[:fn.nparams]
        fr.va = args[fn.nparams:]
        fr.allocas = []
        fr.ret = ret
        fr.blk = fn.entry
        fr.pc = 0
        fr.code = fn.code_of(fn.entry)
        st.frames.append(fr)
        if len(st.frames) > 400:
            raise Violation('stack', 'recursion too deep')

    def pop(self, st):
        fr = st.frames.pop()
        for i in fr.allocas:
            st.objs.pop(i, None)
        return fr

    def ret(self, st, v):
        fr = self.pop(st)
        if not st.frames:
            return
        self.finish_call(st, fr.ret, v)

    def finish_call(self, st, ret, v):
        """ret = (dst reg or None, normal edge or None) of the caller, the present top frame."""
        if ret is None:
            return
        fr = st.frames[-1]
        dst, edge = ret
        if dst is not None:
            fr.regs[dst] = v
        if edge is not None:
            edge(st, fr)
        else:
            fr.pc += 1

    def throw(self, st, ptr, tinfo):
        """Unwind to the nearest handler."""
        while st.frames:
            fr = st.frames[-1]
            call = fr.fn.call_at(fr)
            if call is not None:
                unwind, lp = call
                sel = self.match(tinfo, lp)
                if sel is not None:
                    unwind(st, fr)
                    # the landingpad is the first instruction of the block
                    fr.regs[lp[2]] = [ptr, sel & 0xffffffff]
                    fr.pc = 1
                    return
            self.pop(st)
        raise Violation('terminate', 'uncaught exception %s' % self.gnames.get(tinfo >> 32, '?'))

    def match(self, tinfo, lp):
        clauses, cleanup, _ = lp
        for kind, t in clauses:
            if kind == 'catch':
                if t == 0:
                    return 0x7fff0000
                if self.derives(tinfo, t):
                    return t >> 32
            elif kind == 'filter':
                return 0x7fff0001
        return 0 if cleanup else None

    def derives(self, t, base):
        from . import models
        seen = 0
        while t and seen < 20:
            if t == base:
                return True
            name = self.gnames.get(t >> 32)
            p = models.STD_BASE.get(name)
            if p is not None:
                t = self.gaddr(p)
            else:
                g = self.m.get_global(name)
                if g is None or g.init is None or not isinstance(g.init, list) or len(g.init) < 3:
                    return False
                x = g.init[2]
                if len(g.init) > 3:   # multiple inheritance: bases at 5, 7, ...
                    return any(self.derives(self.cval(L.PTR, y), base) for y in g.init[4::2] if isinstance(y, GlobalRef))
                t = self.cval(L.PTR, x)
            seen += 1
        return False

    # ------------------------------------------------------------ running
    def step_path(self, st, deadline):
        """Run st until it forks or ends. Returns list of successor states (empty when the path ended)."""
        frames = st.frames
        while frames:
            fr = frames[-1]
            code = fr.code
            pc = fr.pc
            try:
                while True:
                    if code[pc](st, fr):
                        break
                    pc += 1
                self.instrs += pc + 1
                st.steps += 1
                if st.steps & 255 == 0 and time.time() > deadline:
                    raise Timeout()
                if st.steps > self.max_steps:
                    raise Unsupported('path too long')
            except Fork as f:
                fr.pc = pc
                return self.fork(st, f.cond)
            except CxxThrow as t:
                fr.pc = pc
                self.throw(st, t.ptr, t.tinfo)
        return None

    def prefix_of(self, st):
        out = []
        t = st.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        return out          # last decision first: consumed with pop()


def sign_known(st, p, mask):
    b = sign_cond(p, mask)
    if type(b) is bool:
        return b
    k = st.signs.get(b.p.key(), 7)
    if k & b.mask == 0:
        return False
    if k & ~b.mask & 7 == 0:
        return True
    return None


class Timeout(Exception):
    pass


def undef(t):
    k = t[0]
    if k == 'st':
        return [undef(x) for x in t[2]]
    if k in ('arr', 'vec'):
        return [undef(t[2]) for _ in range(t[1])]
    return U


# ---------------------------------------------------------------- bytes
def bits_of(v, ex, size=8):
    if type(v) is float:
        return f2i(v) if size == 8 else f2i32(v)
    if type(v) is RealBits:
        v = v.v
    if type(v) is Poly:
        raise Unsupported('bytes of a symbolic real')
    if z3.is_fp(v):
        return z3.fpToIEEEBV(v)
    if type(v) is SB:
        return z3.If(v.z(), z3.BitVecVal(1, size * 8), z3.BitVecVal(0, size * 8))
    return v


def part(v, s, n, ex, size=8):
    """n bytes from byte s of the value v of the given size."""
    if v is U:
        return U
    if s == 0 and n == size:
        return v
    if type(v) is Poly or (type(v) is RealBits and type(v.v) is Poly):
        return U if n < 4 or size != 8 else U
    v = bits_of(v, ex, size)
    if type(v) is int:
        return (v >> (8 * s)) & ((1 << (8 * n)) - 1)
    return z3.Extract(8 * (s + n) - 1, 8 * s, v)


def join(vs, ns, ex):
    if any(v is U for v in vs):
        return U
    vs = [bits_of(v, ex, n) for v, n in zip(vs, ns)]
    if all(type(v) is int for v in vs):
        out, sh = 0, 0
        for v, n in zip(vs, ns):
            out |= v << sh
            sh += 8 * n
        return out
    bs = [z3.BitVecVal(v, 8 * n) if type(v) is int else v for v, n in zip(vs, ns)]
    return z3.simplify(z3.Concat(*bs[::-1]))


# ---------------------------------------------------------------- functions
class Fn:
    """A function prepared for execution: registers are numbered, constants live in the register file."""

    def __init__(self, ex, src):
        self.ex = ex
        self.src = src
        self.name = src.name
        self.entry = src.entry
        self.index = {}
        self.template = []
        self.params = src.params
        self.nparams = len(src.params)
        self.codes = {}
        self.calls = {}
        self.consts = {}
        for t, n in src.params:
            self.reg(n)
        for b in src.blocks.values():
            for i in b.phis:
                self.reg(i.dst)
            for i in b.ins:
                if i.dst is not None:
                    self.reg(i.dst)
        ex.called.add(self.name)
        from . import compiler
        for b in src.blocks.values():
            self.codes[b.name] = compiler.block(ex, self, b)

    def reg(self, n):
        i = self.index.get(n)
        if i is None:
            i = self.index[n] = len(self.template)
            self.template.append(U)
        return i

    def operand(self, t, v):
        if type(v) is Reg:
            return self.index[v.name]
        k = None
        if type(v) in (int, float):
            k = (type(v), struct.pack('<d', v) if type(v) is float else v)
        elif type(v) is GlobalRef:
            k = ('g', v.name)
        if k is not None and k in self.consts:
            return self.consts[k]
        c = self.ex.cval(t, v)
        i = len(self.template)
        self.template.append(c)
        if k is not None:
            self.consts[k] = i
        return i

    def code_of(self, bname):
        return self.codes[bname]

    def call_at(self, fr):
        """The unwind edge of the call fr is in, as (edge, landing pad), or None."""
        return self.calls.get((fr.blk, fr.pc))
