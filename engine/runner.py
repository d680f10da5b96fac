"""Runs one check: builds IR from /repo's working tree, explores it symbolically, replays counterexamples."""
import glob
import json
import math
import multiprocessing as mp
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback
from fractions import Fraction

REPO = os.environ.get('VS_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANGXX = '/usr/lib/llvm-18/bin/clang++'
LINK = 'llvm-link-18'
OPT = 'opt-18'
INC = os.path.join(VERIF, 'include')
NPROC = int(os.environ.get('VS_PROCS', '8'))
IRFLAGS = ['-std=c++17', '-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off', '-fno-math-errno',
           '-DEIGEN_DONT_VECTORIZE', '-DNDEBUG', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DVSYM', '-S', '-emit-llvm', '-w']
NATFLAGS = ['-std=c++17', '-w', '-DNDEBUG', '-ffunction-sections', '-fdata-sections']
FLAVOURS = {'plain': ['-O1'],
            'san': ['-O1', '-g', '-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize=vptr,alignment',
                    '-fno-sanitize-recover=all'],
            'threads': ['-O1', '-g', '-fsanitize=thread', '-DVS_SCHEDULED'],
            'valgrind': ['-O1', '-g']}


class BuildError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class Harness:
    def __init__(self, path):
        self.path = path
        self.name = os.path.splitext(os.path.basename(path))[0]
        text = open(path).read()
        self.text = text
        d = {}
        for m in re.finditer(r'^// *([a-z_]+): *(.*)$', text, re.M):
            d.setdefault(m.group(1), []).append(m.group(2).strip())
        one = lambda k, v: d.get(k, [v])[0]
        self.property = one('property', self.name.split('_')[0])
        self.sources = ' '.join(d.get('sources', [])).split()
        self.mode = one('mode', 'real')
        self.cases = int(one('cases', '1'))
        self.tcases = int(one('thorough_cases', str(self.cases)))
        self.bounds = d.get('bounds', [])
        self.outside = d.get('outside', [])
        self.assumptions = d.get('assumes', [])
        self.time = float(one('time', '300'))
        self.ttime = float(one('thorough_time', '1500'))
        self.logging = one('logging', 'no') == 'yes'
        self.defines = ' '.join(d.get('defines', [])).split()
        self.thorough_defines = ' '.join(d.get('thorough_defines', [])).split()
        self.tier = one('tier', 'quick')
        self.final_timeout = float(one('final_timeout', '60'))
        self.branch_timeout = float(one('branch_timeout', '0.5'))
        self.noreplay = one('replay', 'yes') == 'no'
        body = re.sub(r'//[^\n]*', '', text)
        ids = set(re.findall(r'vs_(?:check\w*|reach)\s*\((?:[^;]*?),?\s*"([^"]+)"\s*\)\s*;', body, re.S))
        opt = set(x.strip() for x in ','.join(d.get('optional', [])).split(','))
        self.expect = ids - opt


SHARED = {}
_shared_dir = []


def shared_dir():
    if not _shared_dir:
        import atexit
        d = tempfile.mkdtemp(prefix='vs_shared_')
        _shared_dir.append(d)
        pid = os.getpid()
        atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    return _shared_dir[0]


class Build:
    def __init__(self, h, tier='quick'):
        self.h = h
        self.tier = tier
        self.dir = tempfile.mkdtemp(prefix='vs_%s_' % h.name)
        self.gen = os.path.join(shared_dir(), 'gen')
        if not os.path.exists(self.gen):
            from . import msggen
            msggen.generate(REPO, self.gen)
        self.inc = ['-include', 'vs_pre.h', '-I', INC, '-I', self.gen, '-I', os.path.join(REPO, 'include'), '-isystem', '/usr/include/eigen3']
        self.defs = ['-D' + x for x in h.defines + (h.thorough_defines if tier == 'thorough' else [])]
        self.units = [h.path] + [os.path.join(REPO, s) for s in h.sources]
        self.bins = {}
        self.hpath_dir = os.path.dirname(h.path)

    def key(self, unit, flags):
        return (os.path.realpath(unit), tuple(flags), tuple(self.defs))

    def start(self, unit, flags, ext):
        """Compile a unit in the background (results are shared by the harnesses of one run)."""
        k = self.key(unit, flags)
        r = SHARED.get(k)
        if r is None:
            o = os.path.join(shared_dir(), 'u%d%s' % (len(SHARED), ext))
            log = open(o + '.log', 'w')
            p = subprocess.Popen([CLANGXX] + flags + self.defs + self.inc + ['-I', self.hpath_dir, unit, '-o', o],
                                 stdout=log, stderr=subprocess.STDOUT)
            r = SHARED[k] = (p, o)
        return r

    def wait(self, unit, r):
        p, o = r
        if p.wait():
            raise BuildError('%s\n%s' % (unit, open(o + '.log').read()[-4000:]))
        return o

    def ir(self):
        units = self.units + [os.path.join(INC, 'vsym_rt.cpp')]
        rs = [self.start(u, IRFLAGS, '.ll') for u in units]
        outs = [self.wait(u, r) for u, r in zip(units, rs)]
        allb, out = os.path.join(self.dir, 'all.bc'), os.path.join(self.dir, 'all.ll')
        r = run([LINK] + outs + ['-o', allb])
        if r.returncode:
            raise BuildError(r.stdout[-4000:])
        r = run([OPT, '-passes=internalize,globaldce', '-internalize-public-api-list=main', '-S', allb, '-o', out])
        if r.returncode:
            raise BuildError(r.stdout[-4000:])
        return out

    def native_start(self, flavour):
        units = self.units + [os.path.join(INC, 'vsym_native.cpp')] + ([os.path.join(INC, 'vsym_sched.cpp')] if flavour == 'threads' else [])
        return [(u, self.start(u, NATFLAGS + FLAVOURS[flavour] + ['-c'], '.o')) for u in units]

    def native(self, flavour):
        if flavour in self.bins:
            return self.bins[flavour]
        objs = [self.wait(u, r) for u, r in self.native_start(flavour)]
        b = os.path.join(self.dir, 'native_' + flavour)
        r = run([CLANGXX] + FLAVOURS[flavour] + objs + ['-o', b, '-lpthread', '-Wl,--gc-sections'] +
                (['-Wl,--wrap=pthread_mutex_lock,--wrap=pthread_mutex_unlock'] if flavour == 'threads' else []))
        if r.returncode:
            raise BuildError(r.stdout[-4000:])
        self.bins[flavour] = b
        return b

    def replay(self, inputs, case, flavour, trace=False, timeout=60, schedule=None):
        b = self.native(flavour)
        f = os.path.join(self.dir, 'inputs_%d' % os.getpid())
        with open(f, 'w') as h:
            for k, v in inputs.items():
                h.write('%s %s\n' % (k, fmt(v)))
        env = dict(os.environ, VS_INPUTS=f, VS_CASE=str(case), ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99',
                   UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=98')
        if trace:
            env['VS_TRACE'] = '1'
        if schedule is not None:
            with open(f + '_schedule', 'w') as h:
                h.write(''.join('%d %s\n' % x for x in schedule))
            env.pop('UBSAN_OPTIONS')
            env.update(VS_SCHEDULE=f + '_schedule', TSAN_OPTIONS='exitcode=96:halt_on_error=0:report_signal_unsafe=0:history_size=7')
        cmd = [b]
        if flavour == 'valgrind':
            cmd = ['valgrind', '-q', '--error-exitcode=97', b]
        try:
            r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            return r.returncode, r.stdout.decode('latin1')
        except subprocess.TimeoutExpired:
            return -99, 'timeout'

    def close(self):
        if 'VS_KEEP' in os.environ:
            print('kept', self.dir)
            return
        shutil.rmtree(self.dir, ignore_errors=True)


def fmt(v):
    if isinstance(v, float):
        return repr(v) if math.isfinite(v) else ('nan' if v != v else 'inf' if v > 0 else '-inf')
    return str(v)


# ---------------------------------------------------------------- models of paths
def model_inputs(ex, st, extra, rng, timeout=8.0, variety=0):
    """Concrete inputs that follow the path of st (and extra); None if the solver gives none."""
    import z3
    from . import poly, solver
    pins = []
    if variety:
        reals = [v for _, k, v in st.inputs if k in ('real', 'any', 'angle') and type(v) is poly.Poly]
        for p in reals:
            if rng.random() < 0.5:
                lo, hi = p.interval()
                if math.isfinite(lo) and math.isfinite(hi):
                    m = lo + (hi - lo) * rng.random()
                    pins.append(((p.z() >= poly.zconst(Fraction(m))) if rng.random() < 0.5 else (p.z() <= poly.zconst(Fraction(m))), p.vars()))
    r = solver.query(st.cons, extra + pins, timeout, full=True)
    if r[0] != 'sat' and pins:
        pins = []
        r = solver.query(st.cons, extra, timeout, full=True)
    if r[0] != 'sat':
        return None
    model = r[1]['model']

    def val(v):
        return model.eval(v.z, model_completion=True)

    def num(z):
        a = solver.frac(z)[1]
        return None if a is None else float(a)
    # angles: value and sine/cosine must agree
    angs = []
    for _, k, v in st.inputs:
        if type(v) is poly.Poly:
            for i in v.vars():
                if i in poly.TRIG or i in poly.HALF:
                    angs.append(i)
    for i in angs:
        if i not in poly.TRIG:
            poly.trig_of(i)
        c, s = poly.TRIG[i]
        (ci,), (si,) = c.vars(), s.vars()
        V = poly.VARS[i]
        t, cm, sm = num(val(V)), num(val(poly.VARS[ci])), num(val(poly.VARS[si]))
        if t is not None and cm is not None and abs(math.remainder(t - math.atan2(sm, cm), 2 * math.pi)) < 1e-9:
            continue
        done = False
        cands = []
        if cm is not None:
            cands.append(math.atan2(sm, cm))
        if t is not None:
            cands.append(t)
        cands += [rng.uniform(-math.pi, math.pi) for _ in range(2)]
        for t0 in cands:
            if V.lo is not None and not V.lo <= t0 <= V.hi:
                t0 = min(max(t0, float(V.lo)), float(V.hi))
            if abs(t0) > 3.14159:
                cc, ss = Fraction(-1), Fraction(0)
                t0 = math.copysign(math.pi, t0)
            else:
                h = Fraction(math.tan(t0 / 2)).limit_denominator(10**6)
                cc, ss = (1 - h * h) / (1 + h * h), 2 * h / (1 + h * h)
                t0 = 2 * math.atan(float(h))
            e = Fraction(1, 10**9)
            tf = Fraction(t0)
            import z3 as _z
            pin = [(poly.VARS[ci].z == poly.zconst(cc), frozenset([ci])), (poly.VARS[si].z == poly.zconst(ss), frozenset([si])),
                   (V.z >= poly.zconst(tf - e), frozenset([i])), (V.z <= poly.zconst(tf + e), frozenset([i]))]
            r2 = solver.query(st.cons, extra + pins + pin, timeout, full=True)
            if r2[0] == 'sat':
                pins = pins + pin
                model = r2[1]['model']
                done = True
                break
        if not done:
            continue
    out = {}
    for name, kind, v in st.inputs:
        if kind == 'const':
            out[name] = v
        elif type(v) is poly.Poly:
            z = model.eval(v.z(), model_completion=True)
            a = num(z)
            vs = list(v.vars())
            if kind == 'angle' and vs[0] in poly.TRIG:
                c, s = poly.TRIG[vs[0]]
                cm, sm = (num(model.eval(q.z(), model_completion=True)) for q in (c, s))
                if cm is not None and abs(math.remainder((a or 0.0) - math.atan2(sm, cm), 2 * math.pi)) > 1e-6:
                    a = math.atan2(sm, cm)
            if a is None:
                a = 0.0
            if len(vs) == 1 and kind == 'real':
                # a variable no constraint mentions has no bounds in the query
                V = poly.VARS[vs[0]]
                if V.lo is not None and a < V.lo:
                    a = float(V.lo)
                if V.hi is not None and a > V.hi:
                    a = float(V.hi)
            out[name] = a
        elif kind == 'fp':
            z = model.eval(v, model_completion=True)
            from . import fops
            out[name] = fops.fpval(z)
        elif kind == 'bv':
            n = v.size()
            x = model.eval(v, model_completion=True).as_long()
            out[name] = x - (1 << n) if x >> (n - 1) else x
        else:
            out[name] = v if not isinstance(v, int) or v < 1 << 31 else v - (1 << 32)
    return out


# ---------------------------------------------------------------- workers
# After a candidate for a violation, or a path without an answer, the rest is only explored for so many seconds
GRACE_VIOLATION, GRACE_ERROR = 15, 90


class Stopped(Exception):
    pass


def worker(wid, h, mod, tasks, results, pending, deadline, seed, max_viol, tier, stop, early):
    import random
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    if os.environ.get("VS_DEBUG"):
        import faulthandler
        faulthandler.register(signal.SIGUSR1)
    from . import symex, solver, models, poly, races
    rng = random.Random(seed * 1000 + wid)
    ex = symex.Exec(mod, h.mode, h.logging)
    ex.final_timeout = h.final_timeout
    ex.branch_timeout = h.branch_timeout
    res = dict(errors=[], samples=[], paths=0, decisions=0, unknown=0, ended={}, races={})
    race_cache = {}
    seen = {}
    nsamp = 0
    try:
        while True:
            try:
                case, prefix = tasks.get(timeout=0.2)
            except Exception:
                if pending.value <= 0 or time.time() > min(deadline, stop.value):
                    break
                continue
            ex.case = case
            st = ex.start()
            st.prefix = prefix or None
            work = [st]
            try:
                while work:
                    s = work.pop()
                    if time.time() > deadline:
                        raise symex.Timeout()
                    if time.time() > stop.value:
                        raise Stopped()
                    try:
                        nxt = ex.step_path(s, min(deadline, stop.value))
                    except (poly.Unsupported, models.Inconclusive) as e:
                        # other paths may still show a violation
                        where = ''
                        try:
                            where = ' in ' + '; '.join(f.fn.name for f in s.frames[-3:])
                        except Exception:
                            pass
                        res['errors'].append('%s: %s%s' % (type(e).__name__, e, where))
                        with stop.get_lock():
                            stop.value = min(stop.value, time.time() + GRACE_ERROR)
                        continue
                    except symex.PathEnd as e:
                        res['ended'][e.why] = res['ended'].get(e.why, 0) + 1
                        continue
                    except symex.Violation as v:
                        res['paths'] += 1
                        res['decisions'] += s.decisions
                        fn = s.frames[-1].fn.name if s.frames else ''
                        k = (v.cid, v.detail if v.cid in ENGINE_IDS else '')
                        seen[k] = seen.get(k, 0) + 1
                        if seen[k] <= max_viol:
                            ms = []
                            for tr in [v.extra + [x] for x in v.soft] + [v.extra]:
                                m = model_inputs(ex, s, tr, rng)
                                if m is not None:
                                    ms.append(m)
                                    break
                            for q in range(3):
                                m = model_inputs(ex, s, v.extra, rng, variety=1)
                                if m is not None and m not in ms:
                                    ms.append(m)
                            # at once: this process may not get to its end
                            results.put(('violation', dict(id=v.cid, detail=v.detail, case=case, models=ms, function=fn,
                                                           unknown=s.unknown, ncons=len(s.cons))))
                            if ms and early:
                                with stop.get_lock():
                                    stop.value = min(stop.value, time.time() + GRACE_VIOLATION)
                        continue
                    if nxt is None:
                        res['paths'] += 1
                        res['decisions'] += s.decisions
                        res['unknown'] += 1 if s.unknown else 0
                        if h.logging:
                            found, rs = races.analyse(flat_log(s.log), race_cache, h.final_timeout)
                            for k, v in rs.items():
                                res['races'][k] = max(res['races'].get(k, 0), v) if k in ('events', 'classes') else res['races'].get(k, 0) + v
                            if rs.get('unknown'):
                                res['errors'].append('no answer on the schedules of a path')
                            for kind, d, sched in found:
                                k = (kind, str(d))
                                seen[k] = seen.get(k, 0) + 1
                                if seen[k] <= 1:
                                    m = model_inputs(ex, s, [], rng)
                                    results.put(('violation', dict(id=kind, detail=race_text(kind, d), case=case, models=[m] if m else [],
                                                                   function=d[0][0], unknown=s.unknown, ncons=len(s.cons), schedule=sched)))
                            if found and early:
                                with stop.get_lock():
                                    stop.value = min(stop.value, time.time() + GRACE_VIOLATION)
                        if not h.noreplay and nsamp < 1 and not s.unknown:
                            m = model_inputs(ex, s, [], rng, timeout=0.6, variety=1)
                            nsamp += 1
                            if m is not None:
                                nsamp += 1
                                res['samples'].append(dict(case=case, inputs=m))
                        continue
                    work.extend(nxt)
                    if len(work) > 1 and tasks.empty() and pending.value < 4 * NPROC:
                        o = work.pop(0)
                        with pending.get_lock():
                            pending.value += 1
                        tasks.put((case, ex.prefix_of(o)))
            finally:
                with pending.get_lock():
                    pending.value -= 1
    except Stopped:
        res['stopped'] = True
    except symex.Timeout:
        if time.time() > deadline:
            res['errors'].append('time limit reached')
        else:
            res['stopped'] = True
    except Exception:
        res['errors'].append(traceback.format_exc()[-3000:])
    if time.time() > stop.value:
        res['stopped'] = True
    if res['errors']:
        with pending.get_lock():
            pending.value = -10**6
    res['instrs'] = ex.instrs
    res['called'] = sorted(ex.called)
    res['reached'] = ex.reached
    res['assert_queries'] = ex.assert_queries
    res['assert_trivial'] = ex.assert_trivial
    res['stats'] = solver.STATS.as_dict()
    results.put(res)


ENGINE_IDS = {'memory', 'ub', 'float_cast', 'uninit', 'terminate', 'deadlock', 'stack'}


def flat_log(l):
    out = []
    while l is not None:
        out.append(l[1])
        l = l[0]
    return out[::-1]


def race_text(kind, d):
    names = demangle([x[0] for x in d])
    t = ' while '.join('thread %d %s in %s%s' % (x[2], x[1], n, ' (holding a mutex)' if x[3] else '') for x, n in zip(d, names))
    return t + (' for a mutex another one holds' if kind == 'deadlock' else ', the same memory')


def explore(h, mod, tier, seed, deadline, cases, early=True):
    ctx = mp.get_context('fork')
    stop = ctx.Value('d', 1e18)
    tasks, results = ctx.Queue(), ctx.Queue()
    todo = [int(os.environ['VS_ONLY'])] if 'VS_ONLY' in os.environ else range(cases)
    pending = ctx.Value('l', len(todo))
    for c in todo:
        tasks.put((c, None))
    ps = [ctx.Process(target=worker, args=(i, h, mod, tasks, results, pending, deadline, seed, 3, tier, stop, early)) for i in range(NPROC)]
    for p in ps:
        p.start()
    out, viols = [], []
    while len(out) < len(ps):
        try:
            x = results.get(timeout=1.0)
            if type(x) is tuple:
                viols.append(x[1])
            else:
                out.append(x)
        except Exception:
            if time.time() > min(deadline + 120, stop.value + (30 if viols else 120)):
                break
            dead = [p for p in ps if not p.is_alive() and p.exitcode not in (0, None)]
            if dead and len(out) + len(dead) >= len(ps):
                break
            if dead:
                with pending.get_lock():
                    pending.value = -10**6
    bad = len(out) < len(ps)
    for p in ps:
        p.join(timeout=0.5)
        if p.is_alive():
            p.kill()
    r = dict(stopped=any(x.get('stopped') for x in out), violations=viols, errors=[], samples=[], paths=0, decisions=0, unknown=0, ended={}, races={}, instrs=0, called=set(),
             reached={}, assert_queries=0, assert_trivial=0,
             stats=dict(queries=0, sat=0, unsat=0, unknown=0, cached=0, solver_s=0.0, max_query_s=0.0))
    for x in out:
        for k in ('errors', 'samples'):
            r[k] += x[k]
        for k in ('paths', 'decisions', 'unknown', 'instrs', 'assert_queries', 'assert_trivial'):
            r[k] += x[k]
        r['called'] |= set(x['called'])
        for k in ('reached', 'ended'):
            for a, b in x[k].items():
                r[k][a] = r[k].get(a, 0) + b
        for k, v in x['races'].items():
            r['races'][k] = max(r['races'].get(k, 0), v) if k in ('events', 'classes') else r['races'].get(k, 0) + v
        for k, v in x['stats'].items():
            r['stats'][k] = max(r['stats'][k], v) if k == 'max_query_s' else r['stats'][k] + v
    if bad and viols and time.time() > stop.value:
        r['stopped'] = True
    elif bad:
        r['errors'].append('a worker process died')
    return r


def concrete_run(h, mod, inputs, case, q, seed=None):
    """Execute the encoding on concrete inputs (random ones if inputs is None): checks and outputs."""
    from . import symex
    import random
    rng = random.Random(seed)
    for attempt in range(1 if inputs is not None else 12):
        ex = symex.Exec(mod, h.mode)
        ex.inputs = inputs if inputs is not None else {}
        if inputs is None:
            ex.sampler = lambda *a: sample(rng, *a)
        ex.case = case
        st = ex.start()
        end = time.time() + 40
        try:
            while True:
                n = ex.step_path(st, end)
                if n is None:
                    break
                if len(n) != 1:
                    q.put(('error', 'fork in a concrete run', inputs))
                    return
                st = n[0]
            r = ('ok', st.outs)
        except symex.PathEnd as e:
            r = ('end', e.why)
        except symex.Violation as v:
            r = ('violation', v.cid + ' ' + v.detail)
        except Exception as e:
            r = ('error', '%s %s' % (type(e).__name__, e))
        if r[0] != 'end' or inputs is not None:
            break
    q.put(r + ({n: signed(k, v) for n, k, v in st.inputs},))


def signed(k, v):
    return v - (1 << 32) if k == 'int' and v >> 31 & 1 and v < 1 << 32 else v - (1 << 64) if k == 'int' and v >> 63 else v


def sample(rng, kind, name, lo, hi):
    if kind == 'real':
        return rng.uniform(lo, hi) if rng.random() < 0.9 else lo + (hi - lo) * rng.choice([0, 0.25, 0.5, 1])
    if kind == 'angle':
        return rng.uniform(-math.pi, math.pi)
    if kind == 'any':
        return rng.choice([math.nan, math.inf, -math.inf]) if rng.random() < 0.2 else rng.uniform(-5, 5)
    if kind == 'int':
        return rng.randint(lo, hi)
    return rng.getrandbits(63)


def validate(h, mod, build, samples, limit, seed, cases):
    """The encoding and the compiled code must agree on concrete inputs."""
    ctx = mp.get_context('fork')
    done, bad = 0, []
    build.native('plain')
    samples = samples[:limit] + [dict(case=i % cases, inputs=None) for i in range(limit)]
    runs = []
    for i, s in enumerate(samples):
        q = ctx.Queue()
        p = ctx.Process(target=concrete_run, args=(h, mod, s['inputs'], s['case'], q, seed * 100 + i))
        p.start()
        runs.append((s, p, q))
    for s, p, q in runs:
        try:
            kind, val, s['inputs'] = q.get(timeout=90)
        except Exception:
            kind, val = 'error', 'no answer'
        p.join(timeout=1)
        if p.is_alive():
            p.kill()
        if kind == 'error':
            bad.append('encoding: %s' % (val,))
            continue
        rc, out = build.replay(s['inputs'], s['case'], 'plain', trace=True)
        if kind == 'error':
            bad.append('encoding: %s' % (val,))
            continue
        if rc == 77 or kind == 'end':
            if (rc == 77) == (kind == 'end'):
                continue       # rounding put the input outside the assumptions
            bad.append('assumption differs: native rc %d, encoding %s %s' % (rc, kind, val))
            continue
        if rc == 1 or kind == 'violation':
            # both must fail, or neither
            if (rc == 1) != (kind == 'violation'):
                bad.append('check differs: native rc %d %s, encoding %s %s' % (rc, out[-200:], kind, val))
            continue
        nat = [l.split()[1:] for l in out.split('\n') if l.startswith('OUT ')]
        enc = [(n, v) for n, v in val]
        ok = len(nat) == len(enc)
        if ok:
            for (n, v), (n2, v2) in zip(nat, enc):
                v = float(v)
                v2 = float(v2) if isinstance(v2, (int, float)) else v2
                if n != n2 or not (v == v2 or (v != v and v2 != v2) or abs(v - v2) <= 1e-9 * max(1.0, abs(v))):
                    ok = False
                    bad.append('output %s: native %r, encoding %r' % (n, v, v2))
                    break
        else:
            bad.append('%d outputs natively, %d in the encoding (rc %d)' % (len(nat), len(enc), rc))
        if rc not in (0,):
            bad.append('native exit code %d: %s' % (rc, out[-300:]))
            ok = False
        if ok:
            done += 1
    return done, bad


def confirm(build, v):
    """Replay a violation against the compiled code. Returns (inputs, output) or None."""
    vid = v['id']
    if 'schedule' in v:
        for m in v['models']:
            rc, out = build.replay(m, v['case'], 'threads', schedule=v['schedule'])
            if rc == 95 or rc == 96 and 'ndt_2d' in out:
                return m, v['detail'] + '\nreplayed with real threads: exit %d\n' % rc + out[:3000]
            v['detail'] = v['detail'] + ' [replay: exit %d %s]' % (rc, out[-200:])
        return None
    for m in v['models']:
        if vid in ENGINE_IDS:
            fl = ['valgrind'] if vid == 'uninit' else ['san', 'plain']
            for f in fl:
                rc, out = build.replay(m, v['case'], f)
                if rc in (97, 98, 99) or rc < 0 and rc != -99 or (f == 'plain' and rc < 0):
                    return m, 'exit %d (%s build)\n%s' % (rc, f, out[-3000:])
                if rc == 134 or rc == 139:
                    return m, 'exit %d\n%s' % (rc, out[-3000:])
                if rc == 1 and 'FAILED' in out:
                    return m, 'exit 1 (%s build)\n%s' % (f, out[-3000:])
        else:
            rc, out = build.replay(m, v['case'], 'plain')
            if rc == 1 and 'FAILED' in out:
                return m, out[-3000:]
            if rc < 0 and rc != -99:
                return m, 'exit %d\n%s' % (rc, out[-3000:])
    # uninitialised values may only show under valgrind
    if 'uninitialised' in v['detail']:
        for m in v['models']:
            rc, out = build.replay(m, v['case'], 'valgrind')
            if rc == 97:
                return m, out[-3000:]
    return None


def demangle(names):
    r = subprocess.run(['c++filt'], input='\n'.join(names), stdout=subprocess.PIPE, text=True)
    return r.stdout.split('\n')


def known_findings(prop):
    f = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == prop and d.get('status') != 'fixed':
                    out.append(d)
    return out


def run_harness(h, tier, seed, verbose=True):
    """Returns dict with status 'held' / 'violation' / 'error'."""
    t0 = time.time()
    sys.setrecursionlimit(20000)
    build = Build(h, tier)
    res = dict(harness=h.name, status='error', notes=[], violations=[], known=[])
    try:
        ll = build.ir()
        if not h.noreplay:
            build.native_start('plain')
        t_build = time.time() - t0
        from . import llparse
        mod = llparse.Module(open(ll).read())
        limit = (h.ttime if tier == 'thorough' else h.time)
        cases = h.tcases if tier == 'thorough' else h.cases
        r = explore(h, mod, tier, seed, time.time() + limit, cases)
        res['explore'] = r
        res['build_s'] = round(t_build, 2)
        res['explore_s'] = round(time.time() - t0 - t_build, 2)
        known = known_findings(h.property)
        for attempt in (0, 1):
            unconf = []
            confirmed = []
            order = sorted(r['violations'], key=lambda v: (v['id'] in ENGINE_IDS, v['id']))
            cnt = {}
            tried = set()
            for v in order:
                if h.noreplay:
                    confirmed.append((v, {}, v['detail']))
                    continue
                same = v['id'] + (v['detail'] if 'schedule' in v else '')
                if cnt.get(v['id'], 0) >= 1 or same in tried:
                    continue
                tried.add(same)
                c = confirm(build, v)
                if c is None:
                    unconf.append(v)
                else:
                    cnt[v['id']] = 1
                    confirmed.append((v, c[0], c[1]))
            for v, m, out in confirmed:
                k = [f for f in known if f.get('harness', h.name) == h.name and f['check'] == v['id'] and
                     (f.get('detail') is None or re.search(f['detail'], v['detail']))]
                if k:
                    res['known'].append(k[0]['what'])
                    continue
                res['violations'].append(dict(id=v['id'], detail=v['detail'], case=v['case'], inputs=m, output=out, function=v['function']))
            if res['violations'] or not r['stopped'] or r['errors'] or attempt:
                break
            # the candidates that ended the exploration early were not violations, or known ones
            r = explore(h, mod, tier, seed, t0 + t_build + limit, cases, early=False)
            res['explore'] = r
            res['known'] = []
        conf_ids = {v['id'] for v, _, _ in confirmed}
        unconf = [v for v in unconf if v['id'] not in conf_ids]
        missing = sorted(h.expect - set(r['reached']))
        if not h.noreplay and not res['violations']:
            n, bad = validate(h, mod, build, r['samples'], 8 if tier == 'thorough' else 4, seed, cases)
            res['validated'] = n
            if bad:
                res['notes'] += ['VALIDATION: ' + b for b in bad]
        if res['violations']:
            res['status'] = 'violation'
        elif r['errors']:
            res['status'] = 'error'
            res['notes'] += r['errors'][:3]
        elif unconf:
            res['status'] = 'error'
            for v in unconf[:3]:
                res['notes'].append('UNCONFIRMED %s case %d: %s in %s; models %s' % (v['id'], v['case'], v['detail'], v['function'], json.dumps(v['models'][:1])))
        elif missing:
            res['status'] = 'error'
            res['notes'].append('never reached: %s' % missing)
        elif any(n.startswith('VALIDATION') for n in res['notes']):
            res['status'] = 'error'
        else:
            res['status'] = 'held'
    except BuildError as e:
        res['notes'].append('BUILD: ' + str(e))
    finally:
        build.close()
    res['wall_s'] = round(time.time() - t0, 2)
    return res
