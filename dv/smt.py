"""Discharge of obligations in parallel worker processes (forked, so terms are shared)."""
import json
import os
import select
import subprocess
import tempfile
import time

import z3

import intz
import loops
import term as t
from term import T, isc


def query(en, o, stage=0):
    """the negated obligation; quantified facts are instantiated at the positions read by the goal
    (stage 1) and by everything the goal depends on (stage 2)"""
    cs = o.pc.list() if o.pc else []
    n = t.not_(o.cond)
    q = list(cs) if isc(n) else en.relevant(cs + [n], n)
    if stage and o.facts:
        src = ([] if isc(n) else [n]) if stage == 1 else q
        inst = [x for x in loops.instances(o.facts, src, rounds=2 if stage == 1 else 1) if isinstance(x, T)]
        full = {x.id for x in q}
        for x in inst:
            if x.id in full:
                continue
            full.add(x.id)
            q.append(x)
            for y in en.relevant(cs + [x], x):
                if y.id not in full:
                    full.add(y.id)
                    q.append(y)
    return q


def cvc5(cs, secs, flags):
    """answer of cvc5 on the conjunction; only unsat is relied upon"""
    s = z3.Solver()
    for c in cs:
        s.add(t.z(c))
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    try:
        f.write('(set-logic ALL)\n' + s.to_smt2())
        f.close()
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(secs * 1000)] + flags + [f.name], capture_output=True, text=True,
                           timeout=secs + 10)
        return p.stdout.strip().split('\n')[-1]
    except (OSError, subprocess.SubprocessError):
        return 'unknown'
    finally:
        os.unlink(f.name)


def nodes(cs, limit=None):
    seen = {}
    st = [c for c in cs if isinstance(c, T)]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen[x.id] = x
        if limit and len(seen) > limit:
            return None
        st.extend(t._children(x))
    return seen


def widen(cs):
    """the same constraints with extensions of narrow sums replaced by wide sums where the constraints
    exclude wrapping (each replacement is proved), so that equal positions become equal terms"""
    ctx = []
    for c in cs:
        n = nodes([c], 120)
        if n is not None and not any(x.op in ('app', 'mul', 'xor', 'shl', 'lshr', 'ashr') for x in n.values()):
            ctx.append(c)
    todo = [x for x in nodes(cs).values() if x.op in ('sext', 'zext') and x.a[0].op in ('lin', 'ext')]
    todo.sort(key=lambda x: x.id)
    m = {}
    end = time.time() + 4
    for x in todo[:80]:
        if time.time() > end:
            break
        y, w, nw = x.a[0], x.a[0].w, x.w

        def up(v):
            if v.op == 'ext' and v.a[2] == 0 and v.a[0].w == nw:
                return v.a[0]
            return (t.sext if x.op == 'sext' else t.zext)(v, w, nw)
        if y.op == 'ext':
            cand = up(y)
        else:
            cand = t.sext_c(y.a[0], w, nw)
            for co, v in y.a[1]:
                cand = t.add(nw, cand, t.mulc(nw, up(v), t.sext_c(co, w, nw)))
        if cand is x:
            continue
        memo = {}
        g = t.not_(t.eq(nw, t.subst(x, m, memo), t.subst(cand, m, memo))) if m else t.not_(t.eq(nw, x, cand))
        if isc(g):
            if not g:
                m[x] = cand
            continue
        if any(v.op == 'app' for v in t.vars_of([g])):
            continue
        if intz.check([t.subst(c, m, {}) for c in ctx] + [g], 150)[0] == z3.unsat:
            m[x] = t.subst(cand, m, {})
    # choices the constraints decide
    memo = {}
    hyp = ctx + [t.subst(c, m, memo) for c in ctx] if m else ctx
    hyp = [c for c in hyp if isinstance(c, T)]
    cond = {}
    for x in nodes([t.subst(c, m, memo) for c in cs]).values():
        if x.op in ('ite', 'iteb') and isinstance(x.a[0], T) and x.a[0].id not in cond:
            cond[x.a[0].id] = x.a[0]
    m2 = {}
    for c in sorted(cond.values(), key=lambda c: c.id)[:80]:
        if time.time() > end + 3:
            break
        n = nodes([c], 60)
        if n is None or any(v.op == 'app' for v in n.values()):
            continue
        if intz.check(hyp + [t.not_(c)], 150)[0] == z3.unsat:
            m2[c] = True
        elif intz.check(hyp + [c], 150)[0] == z3.unsat:
            m2[c] = False
    if not m and not m2:
        return None
    memo2 = {}
    out = [t.subst(c, m, memo) for c in cs]
    return [t.subst(c, m2, memo2) for c in out] + ctx


def solve(en, o, ms):
    r, s, be = solve1(query(en, o), ms if not o.facts else min(ms, 3000))
    if o.facts and r != z3.unsat:
        for stage in (1, 2):
            r, s, be = solve1(query(en, o, stage), ms if stage == 2 else min(ms, 8000))
            if r == z3.unsat:
                break
    return r, s, be


def solve1(cs, ms):
    s = z3.Solver()
    # exact over the integers: usually immediate
    r, exact, vals = intz.check(cs, min(ms, 200), True, True)
    if r == z3.unsat:
        return r, s, 'z3-int'
    for c in cs:
        s.add(t.z(c))
    if r == z3.unknown or not exact:
        for lim, ilim in ((150, 1000), (1000, 4000)):
            s.set('timeout', min(ms, lim))
            r = s.check()
            if r != z3.unknown:
                return r, s, 'z3'
            if lim == 150:
                w = widen(cs)
                if w is not None:
                    if any(isc(c) and not c for c in w):
                        return z3.unsat, s, 'z3-int'
                    w = [c for c in w if not isc(c)]
                    s1 = z3.Solver()
                    s1.set('timeout', min(ms, 1000))
                    for c in w:
                        s1.add(t.z(c))
                    if s1.check() == z3.unsat:
                        return z3.unsat, s, 'z3'
            r, exact, vals = intz.check(cs, min(ms, ilim), True)
            if r == z3.unsat:
                return r, s, 'z3-int'
            if r == z3.sat and exact:
                break
    if r == z3.sat and exact:
        # the integer solution as a bit-vector model
        s.push()
        for x, v in vals.items():
            s.add(t.z(x) == v)
        r = s.check()
        if r == z3.sat:
            return r, s, 'z3-int'
        s.pop()
    # the same constraints over the integers: chains of length arithmetic that bit-blasting does not survive
    if cvc5(cs, min(ms / 1000, 8), ['--solve-bv-as-int=sum']) == 'unsat':
        return z3.unsat, s, 'cvc5'
    if ms > 4000:
        s.set('timeout', ms)
        r = s.check()
        if r != z3.unknown:
            return r, s, 'z3'
    s2 = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'bit-blast', 'sat').solver() \
        if not any(v.op == 'app' for v in t.vars_of(cs)) else \
        z3.Then('simplify', 'propagate-values', 'solve-eqs', 'ackermannize_bv', 'bit-blast', 'sat').solver()
    s2.set('timeout', ms)
    for c in cs:
        s2.add(t.z(c))
    try:
        r = s2.check()
    except z3.Z3Exception:
        r = z3.unknown
    return r, s2, 'z3-sat'


def small_model(en, o, ms):
    """a model with small buffer sizes when one exists"""
    sizes = [n for (k, nm), v in en.inputset.items() if k == 'b' for n in [v[1]] if isinstance(n, T)]
    # the full path condition: the replayed inputs must drive the code down this path
    cs = o.pc.list() if o.pc else []
    n = t.not_(o.cond)
    if isinstance(n, T):
        cs = cs + [n]
        if o.facts:
            cs = cs + [x for x in loops.instances(o.facts, cs, rounds=1) if isinstance(x, T)]
    best = None
    for lim in (8, 64, 4096, 1 << 20):
        s = z3.Solver()
        s.set('timeout', ms)
        for c in cs:
            s.add(t.z(c))
        for z in sizes:
            s.add(z3.ULE(t.z(z), lim))
        if s.check() == z3.sat:
            best = s.model()
            break
        if not sizes:
            break
    return best


def inputs_of(en, m):
    out = {'s': {}, 'b': {}}
    for (k, nm), v in en.inputset.items():
        if k == 's':
            x = m.eval(t.z(v), model_completion=True)
            if v.w == 0:
                out['s'][nm] = int(z3.is_true(x))
            else:
                out['s'][nm] = x.as_long()
        else:
            o, n, ew = v
            sz = n if isc(n) else m.eval(t.z(n), model_completion=True).as_long()
            if sz > (1 << 20):
                sz = 1 << 20
            import mem as me
            b = []
            for i in range(sz):
                e = me.read(o.init, i, 1)
                x = e if isc(e) else m.eval(t.z(e), model_completion=True).as_long()
                b.append(x)
            out['b'][nm] = b
    return out


def worker(en, idxs, wfd, ms, deadline):
    for i in idxs:
        o = en.obls[i]
        t0 = time.time()
        res = {'i': i}
        try:
            if time.time() > deadline:
                res['st'] = 'unknown'
                res['why'] = 'deadline'
            else:
                r, s, be = solve(en, o, ms)
                res['be'] = be
                res['st'] = 'sat' if r == z3.sat else 'unsat' if r == z3.unsat else 'unknown'
                if r == z3.sat:
                    m = small_model(en, o, ms)
                    if m is None:
                        m = s.model()
                    try:
                        res['in'] = inputs_of(en, m)
                    except Exception as e:
                        res['why'] = repr(e)
        except Exception as e:
            res['st'] = 'unknown'
            res['why'] = repr(e)
        res['secs'] = time.time() - t0
        os.write(wfd, (json.dumps(res) + '\n').encode()) if len(json.dumps(res)) < 4000 else _big(wfd, res)
    os.close(wfd)


def _big(fd, res):
    b = (json.dumps(res) + '\n').encode()
    while b:
        n = os.write(fd, b)
        b = b[n:]


def discharge(en, ms=20000, jobs=8, budget=400, stop_on_sat=6):
    """set status on every obligation; identical obligations are solved once"""
    todo = {}
    for i, o in enumerate(en.obls):
        k = (id(o.pc), o.cond.id if isinstance(o.cond, T) else -1)
        todo.setdefault(k, []).append(i)
    # warm translation so that children share it
    reps = [l[0] for l in todo.values()]
    for i in reps:
        o = en.obls[i]
        for c in query(en, o):
            t.z(c)
    deadline = time.time() + budget
    jobs = max(1, min(jobs, len(reps)))
    fds = {}
    for j in range(jobs):
        idx = reps[j::jobs]
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                worker(en, idx, w, ms, deadline)
            finally:
                os._exit(0)
        os.close(w)
        fds[r] = [pid, b'']
    got = {}
    while fds:
        rd, _, _ = select.select(list(fds), [], [], 5)
        for r in rd:
            b = os.read(r, 1 << 20)
            if not b:
                os.close(r)
                os.waitpid(fds[r][0], 0)
                last = fds.pop(r)[1]
                continue
            buf = fds[r][1] + b
            *lines, rest = buf.split(b'\n')
            fds[r][1] = rest
            for ln in lines:
                d = json.loads(ln)
                got[d['i']] = d
        if time.time() > deadline + 60:
            for r in list(fds):
                os.kill(fds[r][0], 9)
                os.waitpid(fds[r][0], 0)
                os.close(r)
                fds.pop(r)
    for l in todo.values():
        d = got.get(l[0], {'st': 'unknown', 'why': 'no answer', 'secs': 0})
        for i in l:
            o = en.obls[i]
            o.status = d['st']
            o.model = d.get('in')
            o.backend = d.get('be')
            o.secs = d['secs'] if i == l[0] else 0
            o.stack = d.get('why') or o.stack
