"""Which schedules does one execution of the threads stand for, and do two accesses meet in any of them?

Input is the log of one path: what each thread did, one turn after the other. Every schedule that keeps each
thread's own order, gives a mutex to one thread at a time, and lets every access before the point of interest read
what it read, is a schedule of the real code. The solver picks among all of them: time is an integer per event,
executed are those before 0. A race is a schedule after which two conflicting accesses are both next; a deadlock
one after which every thread of a cycle waits for a mutex that another one holds.
"""
import time
import z3

SYNC = 'LUM'


class Ev:
    __slots__ = ('i', 't', 'pos', 'kind', 'acc', 'fn', 'held', 'addr', 'val', 'reads', 'z')

    def __init__(self, i, t, kind, fn, held, addr=0):
        self.i, self.t, self.kind, self.fn, self.held, self.addr = i, t, kind, fn, held, addr
        self.acc = []          # (rw, byte range, fn), in order
        self.reads = {}
        self.val = None


def events(log):
    """Events in the observed order; plain accesses between two synchronising ones form one event."""
    out, cur, held, last = [], {}, {}, None
    for e in log:
        t, k, a, n, fn, v = e
        if t is None:
            continue
        if t != last:
            cur[t] = None
            last = t
        h = held.setdefault(t, [])
        if k in 'LUM':
            ev = Ev(len(out), t, k, fn, tuple(h), a)
            out.append(ev)
            cur[t] = None
            if k == 'L':
                h.append(a)
            elif k == 'U' and a in h:
                h.remove(a)
        elif k in 'rwx':
            ev = Ev(len(out), t, k, fn, tuple(h), a)
            ev.val = v
            ev.acc.append((k, a, n, fn))
            out.append(ev)
            cur[t] = None
        else:
            ev = cur.get(t)
            if ev is None:
                ev = Ev(len(out), t, 'A', fn, tuple(h))
                out.append(ev)
                cur[t] = ev
            ev.acc.append((k, a, n, fn))
    return out


def analyse(log, cache, timeout=60):
    """Returns (problems, stats); a problem is (kind, text, schedule)."""
    t00 = time.time()
    evs = events(log)
    # An event's accesses took place while others ran in between: as the turns are whole, only events of one
    # thread follow each other between two turns, so the order of first accesses is the order of all.
    threads = sorted({e.t for e in evs})
    byt = {t: [e for e in evs if e.t == t] for t in threads}
    for t in threads:
        for p, e in enumerate(byt[t]):
            e.pos = p
    # thread k starts after the k-th spawn, and has ended before it is joined
    start, end, n = {}, {}, 0
    for e in byt.get(0, []):
        if e.kind == 'M' and e.addr == 'spawn':
            n += 1
            start[n] = e.pos
        elif e.kind == 'M' and str(e.addr).startswith('join'):
            end[int(e.addr[4:])] = e.pos

    def apart(a, b):
        """never at the same time, by start and end of the threads"""
        if a.t == b.t:
            return True
        if b.t == 0:
            a, b = b, a
        if a.t == 0 and b.t in start:
            return a.pos <= start[b.t] or a.pos >= end.get(b.t, 1 << 60)
        return False
    # bytes that several threads use
    use = {}
    for e in evs:
        for k, (rw, a, sz, fn) in enumerate(e.acc):
            for b in range(a, a + sz):
                use.setdefault(b, []).append((e, k, rw, fn))
    counters = {b for b, us in use.items() if any(rw == 'x' for _, _, rw, _ in us)}
    shared = {}
    order = []                       # refcounts: whoever destroys comes after all others that used the count
    for b, us in use.items():
        ts = {u[0].t for u in us}
        if len(ts) < 2 or not any(u[2] in 'Wwx' for u in us):
            continue
        if b in counters:
            for n, (e, k, rw, fn) in enumerate(us):
                if rw == 'W' or (rw == 'x' and e.val == 0):
                    order += [(u[0].i, e.i) for u in us[:n] if u[0].t != e.t]
            continue
        writers = [u for u in us if u[2] in 'Ww']
        if all(apart(w[0], u[0]) for w in writers for u in us):
            continue
        # what each read sees: the last write before it
        sig, last = [], None
        own = {}
        for e, k, rw, fn in us:
            if rw in 'Rr':
                if last is None or last.i != e.i:
                    sig.append((e.i, k, rw, -1 if last is None else last.i))
            else:
                sig.append((e.i, k, rw, None))
                last = e
        shared.setdefault(tuple(sig), []).append(b)
    classes = list(shared.items())
    order = sorted(set(order))
    # the trace without what no other thread sees
    key = []
    for e in evs:
        if e.kind in 'LUM':
            key.append((e.t, e.kind, e.addr))
        else:
            key.append((e.t, e.kind, e.val if isinstance(e.val, int) else None))
    key = (tuple(key), tuple(s for s, _ in classes), tuple(order))
    hk = hash(key)
    if hk in cache:
        return cache[hk], dict(queries=0, solver_s=0.0, events=len(evs), classes=len(classes), candidates=0)
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', int(timeout * 1000))
    # only events that matter get a time
    matter = {e.i for e in evs if e.kind in 'LUM'}
    for sig, _ in classes:
        matter |= {x[0] for x in sig}
    for a, b in order:
        matter |= {a, b}
    T = {e.i: z3.Int('t%d' % e.i) for e in evs if e.i in matter}
    ev = {e.i: e for e in evs}
    for t in threads:
        m = [e for e in byt[t] if e.i in matter]
        for a, b in zip(m, m[1:]):
            s.add(T[a.i] < T[b.i])
        if t in start and m:
            s.add(T[byt[0][start[t]].i] < T[m[0].i])
        if t in end and m:
            s.add(T[m[-1].i] < T[byt[0][end[t]].i])
    for a, b in order:
        s.add(T[a] < T[b])
    # mutexes
    sections = {}
    for t in threads:
        opened = {}
        for e in byt[t]:
            if e.kind == 'L':
                opened[e.addr] = e
            elif e.kind == 'U' and e.addr in opened:
                sections.setdefault(e.addr, []).append((opened.pop(e.addr), e))
        for m, e in opened.items():
            sections.setdefault(m, []).append((e, None))
    for m, ss in sections.items():
        for i, (l1, u1) in enumerate(ss):
            for l2, u2 in ss[:i]:
                if l1.t == l2.t or apart(l1, l2):
                    continue
                alt = []
                if u1 is not None:
                    alt.append(T[u1.i] < T[l2.i])
                if u2 is not None:
                    alt.append(T[u2.i] < T[l1.i])
                s.add(z3.Or(T[l1.i] >= 0, T[l2.i] >= 0, *alt))
    # reads see what they saw
    wr = {}
    for ci, (sig, bs) in enumerate(classes):
        wr[ci] = sorted({x[0] for x in sig if x[3] is None})

    def sees(ci, r, src, at=None):
        """Event r (or, at: what is executed by time 0) reads class ci as written by event src."""
        before = (lambda w: T[w] < 0) if at else (lambda w: T[w] < T[r])

        def one(src):
            c = []
            if src >= 0:
                c.append(before(src))
            for w in wr[ci]:
                if w != src and w != r:
                    o = [] if src < 0 else [T[w] < T[src]]
                    if ev[w].t == ev[r].t:
                        # own order is fixed
                        if ev[w].pos > ev[r].pos:
                            continue
                    else:
                        o.append(z3.Not(before(w)))
                    c.append(z3.Or(*o) if o else z3.BoolVal(False))
            return z3.And(*c) if c else z3.BoolVal(True)
        srcs = [src]
        if src >= 0 and ev[src].kind == 'w' and isinstance(ev[src].val, int):
            srcs += [w for w in wr[ci] if w != src and ev[w].kind == 'w' and type(ev[w].val) is int and ev[w].val == ev[src].val]
        return z3.Or(*[one(x) for x in srcs])
    for ci, (sig, bs) in enumerate(classes):
        done = set()
        for e, k, rw, src in sig:
            if src is not None and (e, src) not in done:
                done.add((e, src))
                s.add(z3.Or(T[e] >= 0, sees(ci, e, src)))
    # candidates
    pairs = {}
    for ci, (sig, bs) in enumerate(classes):
        first = {}
        for e, k, rw, src in sig:
            w = rw in 'Wwx'
            if (e, w) not in first:
                first[(e, w)] = (k, rw)
        acc = [(e, w, k, rw) for (e, w), (k, rw) in first.items()]
        for i, (e1, w1, k1, r1) in enumerate(acc):
            for e2, w2, k2, r2 in acc[:i]:
                if (w1 or w2) and not (r1 in 'rwx' and r2 in 'rwx') and not apart(ev[e1], ev[e2]):
                    p = ((e1, k1), (e2, k2)) if e1 < e2 else ((e2, k2), (e1, k1))
                    pairs.setdefault(p, ci)
    sel = []

    def prior(e, k, other):
        """the reads of event e up to its k-th access"""
        c = []
        for ci, (sig, bs) in enumerate(classes):
            for e1, k1, rw, src in sig:
                if e1 == e and k1 < k and src is not None:
                    c.append(sees(ci, e, src, True))
        return c
    memo = {}
    for (x, y), ci in pairs.items():
        b = z3.Bool('race%d' % len(sel))
        sel.append((b, 'race', (x, y, ci)))
        c = [T[x[0]] == 0, T[y[0]] == 0]
        for q in (x, y):
            if q not in memo:
                memo[q] = prior(q[0], q[1], None)
            c += memo[q]
        s.add(z3.Implies(b, z3.And(*c)))
    # cycles of waiting threads
    locks = [e for e in evs if e.kind == 'L' and e.held]

    def cycle(path):
        a = path[-1]
        if len(path) > 1 and path[0].addr in a.held:
            b = z3.Bool('dead%d' % len(sel))
            sel.append((b, 'deadlock', tuple(path)))
            s.add(z3.Implies(b, z3.And(*[T[e.i] == 0 for e in path])))
        for e in locks:
            if len(path) < len(threads) and a.addr in e.held and all(e.t != p.t and not apart(e, p) for p in path):
                cycle(path + [e])
    for e in locks:
        cycle([e])
    stats = dict(queries=0, solver_s=0.0, events=len(evs), classes=len(classes), candidates=len(sel), unknown=0)
    problems = []
    # every trace can be replayed as it was observed
    while sel:
        s.push()
        s.add(z3.Or(*[b for b, _, _ in sel]))
        r = s.check()
        stats['queries'] += 1
        if r != z3.sat:
            s.pop()
            if r == z3.unknown:
                stats['unknown'] += 1
            break
        m = s.model()
        hit = [x for x in sel if z3.is_true(m.eval(x[0]))]
        b, kind, what = hit[0]
        when = sorted((m.eval(T[i], model_completion=True).as_long(), i) for i in T)
        sched = [(ev[i].t, 'S' if ev[i].kind in 'LUM' else 'A') for v, i in when if v < 0]
        s.pop()
        import os
        if os.environ.get('VS_RACES'):
            for v, i in when[-400:]:
                print('SCHED', v, ev[i].t, ev[i].kind, ev[i].addr if isinstance(ev[i].addr, str) else hex(ev[i].addr), ev[i].fn, ev[i].acc[:1], 'HERE' if kind == 'race' and i in (what[0][0], what[1][0]) else '', flush=True)
        if kind == 'race':
            (e1, k1), (e2, k2), ci = what
            a1, a2 = ev[e1].acc[k1], ev[e2].acc[k2]
            d = sorted([(a1[3], 'reads' if a1[0] in 'Rr' else 'writes', ev[e1].t, len(ev[e1].held)),
                        (a2[3], 'reads' if a2[0] in 'Rr' else 'writes', ev[e2].t, len(ev[e2].held))])
            problems.append(('data race', d, sched))
            # the next one with other functions
            fns = {x[0] for x in d}
            sel = [x for x in sel if x[1] != 'race' or {ev[x[2][0][0]].acc[x[2][0][1]][3], ev[x[2][1][0]].acc[x[2][1][1]][3]} != fns]
        else:
            d = sorted((e.fn, 'waits', e.t, len(e.held)) for e in what)
            problems.append(('deadlock', d, sched))
            sel = [x for x in sel if x[1] != 'deadlock']
        if len(problems) >= 4:
            break
    stats['solver_s'] = time.time() - t0
    import os
    if os.environ.get('VS_RACES'):
        print(stats, round(t0 - t00, 2), len(log), len(shared), len(order), flush=True)
    cache[hk] = problems
    return problems, stats
