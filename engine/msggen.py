"""C++ structs for /repo's own message and service definitions, generated on every run."""
import os
import re

PRIM = {'bool': 'bool', 'byte': 'uint8_t', 'char': 'uint8_t', 'float32': 'float', 'float64': 'double', 'int8': 'int8_t',
        'uint8': 'uint8_t', 'int16': 'int16_t', 'uint16': 'uint16_t', 'int32': 'int32_t', 'uint32': 'uint32_t',
        'int64': 'int64_t', 'uint64': 'uint64_t', 'string': 'std::string'}


def snake(n):
    return re.sub(r'(?<=[a-z0-9])([A-Z])', r'_\1', n).lower()


def ctype(t, incs):
    m = re.match(r'^(.*?)\[(<=)?(\d*)\]$', t)
    if m:
        e = ctype(m.group(1), incs)
        return 'std::array<%s, %s>' % (e, m.group(3)) if m.group(3) and not m.group(2) else 'std::vector<%s>' % e
    t = re.sub(r'<=\d+$', '', t)
    if t in PRIM:
        return PRIM[t]
    pkg, n = t.split('/')[0], t.split('/')[-1]
    if '/' not in t:
        pkg = 'ndt_2d'
    incs.add('%s/msg/%s.hpp' % (pkg, snake(n)))
    return '%s::msg::%s' % (pkg, n)


def body(text, incs):
    out, consts = [], []
    for l in text.split('\n'):
        l = l.split('#')[0].strip()
        if not l:
            continue
        t, rest = l.split(None, 1)
        if '=' in rest and not rest.startswith('"'):
            n, v = rest.split('=', 1)
            consts.append('  static constexpr %s %s = %s;' % (PRIM[t], n.strip(), v.strip()))
            continue
        ps = rest.split(None, 1)
        c = ctype(t, incs)
        init = ' = ' + ps[1] if len(ps) > 1 else '{}' if not c.startswith('std::vector') and c != 'std::string' else ''
        out.append('  %s %s%s;' % (c, ps[0], init))
    return '\n'.join(consts + out)


PTRS = '''  using SharedPtr = std::shared_ptr<%s>; using ConstSharedPtr = std::shared_ptr<const %s>;
  using UniquePtr = std::unique_ptr<%s>;
'''


def header(guard, incs, text):
    return ('#ifndef %s\n#define %s\n#include <array>\n#include <cstdint>\n#include <memory>\n#include <string>\n#include <vector>\n' % (guard, guard)
            + ''.join('#include <%s>\n' % i for i in sorted(incs)) + text + '#endif\n')


def generate(repo, out):
    for kind in ('msg', 'srv'):
        d = os.path.join(repo, kind)
        o = os.path.join(out, 'ndt_2d', kind)
        os.makedirs(o, exist_ok=True)
        for f in sorted(os.listdir(d)):
            n, ext = os.path.splitext(f)
            text = open(os.path.join(d, f)).read()
            incs = set()
            if ext == '.msg':
                b = 'namespace ndt_2d { namespace msg {\nstruct %s {\n%s\n%s};\n} }\n' % (n, body(text, incs), PTRS % (n, n, n))
            elif ext == '.srv':
                rq, _, rs = text.partition('---')
                b = 'namespace ndt_2d { namespace srv {\n'
                for suf, t in (('_Request', rq), ('_Response', rs)):
                    b += 'struct %s%s {\n%s\n%s};\n' % (n, suf, body(t, incs), PTRS % ((n + suf,) * 3))
                b += ('struct %s { using Request = %s_Request; using Response = %s_Response;\n  using SharedPtr = std::shared_ptr<%s>; };\n} }\n' % (n, n, n, n))
            else:
                continue
            open(os.path.join(o, snake(n) + '.hpp'), 'w').write(header('VS_GEN_%s_%s' % (kind.upper(), n.upper()), incs, b))
