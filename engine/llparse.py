"""Parser for the textual LLVM IR that clang/llvm-link 18 print (opaque pointers).

Functions are split out first and only parsed when they are first called."""
import re
import struct

# ---------------------------------------------------------------- types
# A type is a tuple: ('i', n) ('f', 32|64|80) ('p',) ('v',) ('arr', n, T) ('st', packed, [T]) ('vec', n, T)
I1, I8, I16, I32, I64 = (('i', n) for n in (1, 8, 16, 32, 64))
PTR = ('p',)
VOID = ('v',)
DOUBLE = ('f', 64)
FLOAT = ('f', 32)

TOK = re.compile(r'''
    c"(?:[^"\\]|\\.)*"          # string constant
  | [@%]"(?:[^"\\]|\\.)*"       # quoted name
  | [@%$!][-a-zA-Z$._0-9]+      # name
  | "(?:[^"\\]|\\.)*"
  | 0x[KLMHR]?[0-9A-Fa-f]+
  | -?[0-9]+\.[0-9]+(?:[eE][-+]?[0-9]+)?
  | -?[0-9]+
  | \.\.\.
  | [a-zA-Z_][a-zA-Z0-9_.]*
  | \#[0-9]+
  | [()\[\]{}<>,=*:!|]
''', re.X)


def tokenize(s):
    return TOK.findall(s)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class GlobalRef:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class ConstExpr:
    __slots__ = ('op', 'args')

    def __init__(self, op, args):
        self.op = op
        self.args = args


class Reg:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '%' + self.name


def unquote(name):
    n = name[1:]
    if n.startswith('"'):
        n = n[1:-1]
    return n


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(0x5c)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


ATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone', 'signext',
         'zeroext', 'returned', 'inreg', 'immarg', 'nofree', 'noreturn', 'nounwind', 'nest', 'swiftself',
         'allocptr', 'allocalign', 'dead_on_unwind', 'writable', 'tail', 'noext', 'inrange'}
PATTRS = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype',
          'captures', 'memory', 'nofpclass', 'inalloca', 'preallocated', 'range', 'initializes'}
FASTMATH = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}
FLAGS = {'nuw', 'nsw', 'exact', 'inbounds', 'nneg', 'disjoint', 'samesign', 'nusw'} | FASTMATH


class P:
    """Token cursor."""
    __slots__ = ('t', 'i', 'm')

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError('expected %r got %r in %s' % (x, y, ' '.join(self.t)))

    def skip_parens(self):
        self.expect('(')
        d = 1
        while d:
            x = self.next()
            if x == '(':
                d += 1
            elif x == ')':
                d -= 1

    def skip_attrs(self):
        while True:
            x = self.peek()
            if x in ATTRS:
                self.i += 1
            elif x in PATTRS:
                self.i += 1
                if self.peek() == '(':
                    self.skip_parens()
                elif x == 'align':
                    self.i += 1
            elif x is not None and x[0] == '"':
                self.i += 1
                if self.accept('='):
                    self.i += 1
            elif x is not None and x[0] == '#':
                self.i += 1
            else:
                return

    def type(self):
        x = self.next()
        if x == 'ptr':
            t = PTR
            if self.peek() == 'addrspace':
                self.next()
                self.skip_parens()
        elif x[0] == 'i' and x[1:].isdigit():
            t = ('i', int(x[1:]))
        elif x == 'double':
            t = DOUBLE
        elif x == 'float':
            t = FLOAT
        elif x == 'x86_fp80':
            t = ('f', 80)
        elif x == 'void':
            t = VOID
        elif x in ('metadata', 'label', 'token'):
            t = (x,)
        elif x == '[':
            n = int(self.next())
            self.expect('x')
            t = ('arr', n, self.type())
            self.expect(']')
        elif x == '<':
            if self.peek() == '{':
                self.next()
                t = self.struct_body(True)
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                t = ('vec', n, self.type())
                self.expect('>')
        elif x == '{':
            t = self.struct_body(False)
        elif x[0] == '%':
            t = self.m.named_type(unquote(x))
        else:
            raise SyntaxError('type %r in %s' % (x, ' '.join(self.t)))
        # function type suffix
        if self.peek() == '(':
            save = self.i
            self.skip_parens()
            t = ('fn', t)
            del save
        return t

    def struct_body(self, packed):
        ts = []
        if not self.accept('}'):
            while True:
                ts.append(self.type())
                if self.accept('}'):
                    break
                self.expect(',')
        return ('st', packed, tuple(ts))

    def const(self, t):
        """A constant or register of type t."""
        x = self.next()
        c = x[0]
        if c == '%':
            return Reg(unquote(x))
        if c == '@':
            return GlobalRef(unquote(x))
        if x in ('undef', 'poison'):
            return UNDEF
        if x == 'zeroinitializer':
            return zero(t)
        if x == 'null':
            return 0
        if x == 'true':
            return 1
        if x == 'false':
            return 0
        if x == 'none':
            return 0
        if x.startswith('c"'):
            return list(unescape(x[2:-1]))
        if t[0] == 'f':
            return parse_float(x, t)
        if c == '-' or c.isdigit():
            return int(x) & ((1 << t[1]) - 1)
        if c == '[' or c == '{':
            end = ']' if c == '[' else '}'
            return self.agg(end)
        if c == '<':
            if self.peek() == '{':
                self.next()
                v = self.agg('}')
                self.expect('>')
                return v
            return self.agg('>')
        if x in ('getelementptr', 'ptrtoint', 'inttoptr', 'bitcast', 'add', 'sub', 'mul', 'trunc', 'zext',
                 'sext', 'select', 'icmp', 'and', 'or', 'xor', 'shl', 'lshr', 'addrspacecast'):
            return self.constexpr(x)
        if x in ('dso_local_equivalent', 'no_cfi'):
            return self.const(t)
        if x == 'splat':
            self.expect('(')
            et = self.type()
            v = self.const(et)
            self.expect(')')
            return [v] * t[1]
        if x == 'blockaddress':
            self.skip_parens()
            return 0
        if x == 'asm':
            return ConstExpr('asm', ())
        raise SyntaxError('const %r of %r in %s' % (x, t, ' '.join(self.t)))

    def agg(self, end):
        vs = []
        if self.accept(end):
            return vs
        while True:
            t = self.type()
            vs.append(self.const(t))
            if self.accept(end):
                return vs
            self.expect(',')

    def constexpr(self, op):
        while self.peek() in FLAGS or self.peek() == 'inrange':
            self.next()
            if self.peek() == '(' and self.t[self.i - 1] == 'inrange':
                self.skip_parens()
        if op == 'icmp':
            pred = self.next()
        self.expect('(')
        if op == 'getelementptr':
            bt = self.type()
            self.expect(',')
            args = []
            while True:
                self.skip_attrs()
                t = self.type()
                self.skip_attrs()
                args.append((t, self.const(t)))
                if self.accept(')'):
                    break
                self.expect(',')
            return ConstExpr('getelementptr', (bt, args))
        args = []
        while True:
            t = self.type()
            args.append((t, self.const(t)))
            if self.accept('to'):
                args.append((self.type(), None))
            if self.accept(')'):
                break
            self.expect(',')
        if op == 'icmp':
            return ConstExpr('icmp', (pred, args))
        return ConstExpr(op, args)


def parse_float(x, t):
    if x.startswith('0xK'):
        v = int(x[3:], 16)
        mant = v & ((1 << 64) - 1)
        ex = v >> 64
        s = -1.0 if ex >> 15 else 1.0
        ex &= 0x7fff
        return s * mant * 2.0 ** (ex - 16383 - 63) if mant else 0.0 * s
    if x.startswith('0x'):
        return struct.unpack('<d', struct.pack('<Q', int(x, 16)))[0]
    return float(x)


def zero(t):
    k = t[0]
    if k == 'i' or k == 'p':
        return 0
    if k == 'f':
        return 0.0
    if k == 'arr' or k == 'vec':
        return [zero(t[2]) for _ in range(t[1])] if t[1] <= 4096 else ZeroFill(sizeof(t))
    if k == 'st':
        return [zero(x) for x in t[2]]
    raise ValueError(t)


class ZeroFill:
    def __init__(self, n):
        self.n = n


# ---------------------------------------------------------------- layout
def align(t):
    k = t[0]
    if k == 'i':
        n = (t[1] + 7) // 8
        return n if n in (1, 2, 4, 8) else (16 if n > 8 else 1 << (n - 1).bit_length())
    if k == 'p':
        return 8
    if k == 'f':
        return {32: 4, 64: 8, 80: 16}[t[1]]
    if k == 'arr':
        return align(t[2])
    if k == 'vec':
        s = sizeof(t)
        return 1 << (s - 1).bit_length()
    if k == 'st':
        return 1 if t[1] or not t[2] else max(align(x) for x in t[2])
    raise ValueError(t)


_layout = {}


def layout(t):
    r = _layout.get(t)
    if r is None:
        off, offs = 0, []
        for x in t[2]:
            if not t[1]:
                a = align(x)
                off = (off + a - 1) // a * a
            offs.append(off)
            off += sizeof(x)
        a = align(t)
        off = (off + a - 1) // a * a
        r = _layout[t] = (offs, off)
    return r


_size = {}


def sizeof(t):
    r = _size.get(t)
    if r is None:
        k = t[0]
        if k == 'i':
            n = (t[1] + 7) // 8
            a = align(t)
            r = (n + a - 1) // a * a
        elif k == 'p':
            r = 8
        elif k == 'f':
            r = {32: 4, 64: 8, 80: 16}[t[1]]
        elif k == 'arr':
            r = t[1] * sizeof(t[2])
        elif k == 'vec':
            r = t[1] * sizeof(t[2])
        elif k == 'st':
            r = layout(t)[1]
        elif k == 'v':
            r = 0
        else:
            raise ValueError(t)
        _size[t] = r
    return r


# ---------------------------------------------------------------- module
class Instr:
    __slots__ = ('op', 'dst', 'ty', 'a', 'text', 'idx')

    def __init__(self, op, dst, ty, a, text):
        self.op = op
        self.dst = dst
        self.ty = ty
        self.a = a
        self.text = text


class Block:
    __slots__ = ('name', 'phis', 'ins')


class Function:
    __slots__ = ('name', 'ret', 'params', 'blocks', 'entry', 'vararg')


class Global:
    __slots__ = ('name', 'ty', 'init', 'const', 'external')


CAST = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint',
        'inttoptr', 'bitcast', 'addrspacecast'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}


class Module:
    def __init__(self, text):
        self.types_src = {}
        self.types = {}
        self.globals_src = {}
        self.globals = {}
        self.fsrc = {}
        self.funcs = {}
        self.decls = set()
        self.aliases = {}
        self.split(text)

    def split(self, text):
        lines = text.split('\n')
        i, n = 0, len(lines)
        while i < n:
            l = lines[i]
            if l.startswith('define '):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.fsrc[self.fname(l)] = lines[i:j]
                i = j
            elif l.startswith('@'):
                name, rest = self.gname(l)
                self.globals_src[name] = rest
            elif l.startswith('%') and ' = type ' in l:
                k = l.index(' = type ')
                self.types_src[unquote(l[:k])] = l[k + 8:]
            elif l.startswith('declare '):
                self.decls.add(self.fname(l))
            i += 1

    @staticmethod
    def fname(l):
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+)\(', l)
        n = m.group(1)
        return n[1:-1] if n[0] == '"' else n

    @staticmethod
    def gname(l):
        m = re.match(r'@("(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+) = ', l)
        n = m.group(1)
        return (n[1:-1] if n[0] == '"' else n), l[m.end():]

    def named_type(self, name):
        t = self.types.get(name)
        if t is None:
            src = self.types_src.get(name, 'opaque')
            if src.startswith('opaque'):
                t = ('st', False, ())
            else:
                t = P(tokenize(src), self).type()
            self.types[name] = t
        return t

    def get_global(self, name):
        g = self.globals.get(name)
        if g is None and name in self.globals_src:
            src = self.globals_src[name]
            p = P(tokenize(re.sub(r', (comdat|align|section|!|partition).*$', '', src)
                           if 'c"' not in src else src), self)
            g = Global()
            g.name = name
            g.external = False
            while True:
                x = p.next()
                if x in ('global', 'constant'):
                    g.const = x == 'constant'
                    break
                if x == 'alias':
                    p.type()
                    p.expect(',')
                    p.type()
                    v = p.const(PTR)
                    g.ty = None
                    g.init = v
                    g.const = True
                    self.globals[name] = g
                    return g
                if x in ('external', 'extern_weak'):
                    g.external = True
                elif x == 'thread_local':
                    if p.peek() == '(':
                        p.skip_parens()
                elif x in ('addrspace',):
                    p.skip_parens()
            g.ty = p.type()
            g.init = None if g.external else p.const(g.ty)
            self.globals[name] = g
        return g

    def get_function(self, name):
        f = self.funcs.get(name)
        if f is None:
            src = self.fsrc.get(name)
            if src is None:
                return None
            f = self.funcs[name] = self.parse_function(src)
        return f

    # ------------------------------------------------------------ functions
    def parse_function(self, lines):
        hdr = lines[0]
        f = Function()
        f.name = self.fname(hdr)
        p = P(tokenize(hdr), self)
        while not (p.peek()[0] == '@'):
            p.next()
        # return type is just before the name: reparse
        k = p.i
        p.next()
        p.expect('(')
        f.params = []
        f.vararg = False
        auto = 0
        if not p.accept(')'):
            while True:
                if p.accept('...'):
                    f.vararg = True
                    p.expect(')')
                    break
                t = p.type()
                p.skip_attrs()
                x = p.peek()
                if x and x[0] == '%':
                    f.params.append((t, unquote(p.next())))
                else:
                    f.params.append((t, str(auto)))
                auto += 1
                if p.accept(')'):
                    break
                p.expect(',')
        del k
        f.blocks = {}
        # join continuation lines
        ins = []
        for l in lines[1:]:
            if not l.strip():
                continue
            if l[0] != ' ' and l[0] != '\t':
                ins.append(l)           # label
            elif l.startswith('    ') or l.strip() == ']':
                ins[-1] += ' ' + l.strip()
            else:
                ins.append(l)
        cur = None
        # unnamed entry block
        if not ins or ins[0][0] == ' ':
            cur = Block()
            cur.name = str(len(f.params))
            cur.phis, cur.ins = [], []
            f.blocks[cur.name] = cur
            f.entry = cur.name
        else:
            f.entry = None
        for l in ins:
            if l[0] != ' ':
                name = l.split(';')[0].rstrip()
                name = name[:name.rindex(':')]
                if name.startswith('"'):
                    name = name[1:-1]
                cur = Block()
                cur.name = name
                cur.phis, cur.ins = [], []
                f.blocks[name] = cur
                if f.entry is None:
                    f.entry = name
                continue
            s = l.strip()
            if s.startswith('#dbg') or s.startswith('call void @llvm.dbg'):
                continue
            k = s.find(', !')
            if k >= 0:
                s = s[:k]
            x = self.parse_instr(s)
            if x is None:
                continue
            if x.op == 'phi':
                cur.phis.append(x)
            else:
                cur.ins.append(x)
        return f

    def parse_instr(self, s):
        p = P(tokenize(s), self)
        dst = None
        if p.peek()[0] == '%' and p.t[1] == '=':
            dst = unquote(p.next())
            p.next()
        op = p.next()
        while op in ('tail', 'musttail', 'notail'):
            op = p.next()
        if op in BIN:
            while p.peek() in FLAGS:
                p.next()
            t = p.type()
            a = p.const(t)
            p.expect(',')
            b = p.const(t)
            return Instr(op, dst, t, (a, b), s)
        if op == 'fneg':
            while p.peek() in FLAGS:
                p.next()
            t = p.type()
            return Instr(op, dst, t, (p.const(t),), s)
        if op in ('icmp', 'fcmp'):
            while p.peek() in FLAGS:
                p.next()
            pred = p.next()
            t = p.type()
            a = p.const(t)
            p.expect(',')
            b = p.const(t)
            return Instr(op, dst, t, (pred, a, b), s)
        if op in CAST:
            while p.peek() in FLAGS:
                p.next()
            t = p.type()
            a = p.const(t)
            p.expect('to')
            t2 = p.type()
            return Instr(op, dst, t2, (t, a), s)
        if op == 'load':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            t = p.type()
            p.expect(',')
            pt = p.type()
            return Instr(op, dst, t, (p.const(pt), 'atomic' in p.t[:5]), s)
        if op == 'store':
            while p.peek() in ('volatile', 'atomic'):
                p.next()
            t = p.type()
            v = p.const(t)
            p.expect(',')
            pt = p.type()
            return Instr(op, None, t, (v, p.const(pt), 'atomic' in p.t[:3]), s)
        if op == 'getelementptr':
            while p.peek() in FLAGS:
                p.next()
            bt = p.type()
            p.expect(',')
            args = []
            while True:
                t = p.type()
                args.append((t, p.const(t)))
                if not p.accept(','):
                    break
            return Instr(op, dst, PTR, (bt, args), s)
        if op == 'alloca':
            p.accept('inalloca')
            t = p.type()
            n = 1
            if p.accept(','):
                if p.peek() != 'align':
                    nt = p.type()
                    n = p.const(nt)
            return Instr(op, dst, PTR, (t, n), s)
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return Instr('jmp', None, None, (unquote(p.next()),), s)
            p.type()
            c = p.const(I1)
            p.expect(',')
            p.next()
            a = unquote(p.next())
            p.expect(',')
            p.next()
            b = unquote(p.next())
            return Instr('br', None, None, (c, a, b), s)
        if op == 'switch':
            t = p.type()
            v = p.const(t)
            p.expect(',')
            p.next()
            d = unquote(p.next())
            p.expect('[')
            cases = []
            while not p.accept(']'):
                ct = p.type()
                c = p.const(ct)
                p.expect(',')
                p.next()
                cases.append((c, unquote(p.next())))
            return Instr('switch', None, t, (v, d, cases), s)
        if op == 'ret':
            t = p.type()
            return Instr('ret', None, t, (None if t == VOID else p.const(t),), s)
        if op == 'unreachable':
            return Instr(op, None, None, (), s)
        if op == 'phi':
            while p.peek() in FLAGS:
                p.next()
            t = p.type()
            inc = {}
            while True:
                p.expect('[')
                v = p.const(t)
                p.expect(',')
                inc[unquote(p.next())] = v
                p.expect(']')
                if not p.accept(','):
                    break
            return Instr('phi', dst, t, inc, s)
        if op == 'select':
            while p.peek() in FLAGS:
                p.next()
            ct = p.type()
            c = p.const(ct)
            p.expect(',')
            t = p.type()
            a = p.const(t)
            p.expect(',')
            p.type()
            b = p.const(t)
            return Instr(op, dst, t, (ct, c, a, b), s)
        if op in ('call', 'invoke'):
            while p.peek() in FASTMATH:
                p.next()
            # calling convention
            while p.peek() in ('fastcc', 'ccc', 'coldcc', 'preserve_mostcc', 'swiftcc'):
                p.next()
            p.skip_attrs()
            t = p.type()
            if t[0] == 'fn':
                t = t[1]
            if p.peek() == 'asm':
                return Instr('asm', dst, t, (), s)
            callee = p.const(PTR)
            p.expect('(')
            args = []
            if not p.accept(')'):
                while True:
                    at = p.type()
                    if at == ('metadata',):
                        # skip to , or )
                        d = 0
                        while True:
                            x = p.peek()
                            if d == 0 and x in (',', ')'):
                                break
                            if x in '([{':
                                d += 1
                            elif x in ')]}':
                                d -= 1
                            p.next()
                        args.append((at, UNDEF))
                    else:
                        p.skip_attrs()
                        args.append((at, p.const(at)))
                    if p.accept(')'):
                        break
                    p.expect(',')
            normal = unwind = None
            if op == 'invoke':
                while p.peek() != 'to':
                    p.next()
                p.next()
                p.next()
                normal = unquote(p.next())
                p.expect('unwind')
                p.next()
                unwind = unquote(p.next())
            return Instr('call', dst, t, (callee, args, normal, unwind), s)
        if op == 'landingpad':
            t = p.type()
            clauses = []
            cleanup = False
            while p.peek() is not None:
                x = p.next()
                if x == 'cleanup':
                    cleanup = True
                elif x in ('catch', 'filter'):
                    ct = p.type()
                    clauses.append((x, p.const(ct)))
            return Instr(op, dst, t, (clauses, cleanup), s)
        if op == 'resume':
            t = p.type()
            return Instr(op, None, t, (p.const(t),), s)
        if op == 'extractvalue':
            t = p.type()
            v = p.const(t)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return Instr(op, dst, t, (v, idx), s)
        if op == 'insertvalue':
            t = p.type()
            v = p.const(t)
            p.expect(',')
            t2 = p.type()
            e = p.const(t2)
            idx = []
            while p.accept(','):
                idx.append(int(p.next()))
            return Instr(op, dst, t, (v, e, idx), s)
        if op == 'extractelement':
            t = p.type()
            v = p.const(t)
            p.expect(',')
            it = p.type()
            return Instr(op, dst, t, (v, p.const(it)), s)
        if op == 'insertelement':
            t = p.type()
            v = p.const(t)
            p.expect(',')
            et = p.type()
            e = p.const(et)
            p.expect(',')
            it = p.type()
            return Instr(op, dst, t, (v, e, p.const(it)), s)
        if op == 'shufflevector':
            t = p.type()
            a = p.const(t)
            p.expect(',')
            p.type()
            b = p.const(t)
            p.expect(',')
            mt = p.type()
            return Instr(op, dst, t, (a, b, p.const(mt)), s)
        if op == 'freeze':
            t = p.type()
            return Instr(op, dst, t, (p.const(t),), s)
        if op == 'fence':
            return None
        if op == 'atomicrmw':
            p.accept('volatile')
            o = p.next()
            pt = p.type()
            a = p.const(pt)
            p.expect(',')
            t = p.type()
            return Instr(op, dst, t, (o, a, p.const(t)), s)
        if op == 'cmpxchg':
            p.accept('weak')
            p.accept('volatile')
            pt = p.type()
            a = p.const(pt)
            p.expect(',')
            t = p.type()
            c = p.const(t)
            p.expect(',')
            p.type()
            return Instr(op, dst, t, (a, c, p.const(t)), s)
        raise SyntaxError('instruction: ' + s)
