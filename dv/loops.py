"""Loop summaries that need no annotation.

A loop is entered at its header with values v0.  For an arbitrary iteration number k the header values
are given in closed form where every step adds a constant (checked: the value after the body must be the
form at k+1), and are unconstrained otherwise.  One execution of the body from that state covers all
iterations: its obligations hold for an arbitrary k under the fact that every earlier iteration j < k went
back to the header, and its exits are all the exits of the loop.  Nothing is guessed that is not checked,
so a loop that does not fit only loses precision.
"""
import mem as me
import term as t
from mem import Ptr, PTRS, Agg, PInt
from term import T, isc


class Fact:
    """for all j: f(j)"""
    __slots__ = ('f', 'trig')

    def __init__(self, f):
        self.f = f
        self.trig = None

    def __call__(self, j):
        return self.f(j)


class Keep:
    pass


KEEP = Keep()


def width(x):
    return x.w if isinstance(x, T) else None


def classify(v0, vs, w):
    """how a header value evolves: KEEP, ('aff', step) , 'havoc' or None when it cannot be handled"""
    if all(v is v0 for v in vs):
        return KEEP
    if isinstance(v0, PInt):
        return None
    if isinstance(v0, Ptr):
        if v0.obj is None or not all(isinstance(v, Ptr) and v.obj is v0.obj for v in vs):
            return None
        ds = [t.sub(64, v.off, v0.off) for v in vs]
        if isc(ds[0]) and all(isc(d) and d == ds[0] for d in ds):
            return KEEP if ds[0] == 0 else ('aff', ds[0])
        return 'havoc'
    if isinstance(v0, PTRS) or isinstance(v0, Agg) or not (isc(v0) or isinstance(v0, T)):
        return None
    if any(not (isc(v) or isinstance(v, T)) for v in vs):
        return None
    if w == 0:
        if isc(v0) and all(isc(v) and bool(v) == bool(v0) for v in vs):
            return KEEP
        return 'havoc'
    if all(isc(v) and isc(v0) and v == v0 for v in vs):
        return KEEP
    ds = [t.sub(w, v, v0) for v in vs]
    if isc(ds[0]) and all(isc(d) and d == ds[0] for d in ds):
        return KEEP if ds[0] == 0 else ('aff', ds[0])
    return 'havoc'


def at(v0, how, k, w, name):
    """the value at iteration k"""
    if how is KEEP:
        return v0
    if how == 'havoc':
        if isinstance(v0, Ptr):
            return Ptr(v0.obj, t.fresh('h_' + name, 64))
        return t.fresh('h_' + name, w)
    step = how[1]
    if isinstance(v0, Ptr):
        return Ptr(v0.obj, t.add(64, v0.off, t.mulc(64, k, step)))
    kk = k if w == 64 else t.trunc(k, 64, w) if w < 64 else t.zext(k, 64, w)
    return t.add(w, v0, t.mulc(w, kk, step))


def same_val(a, b, w):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.obj is not b.obj:
            return False
        a, b, w = a.off, b.off, 64
    if isinstance(a, PTRS) or isinstance(b, PTRS) or isinstance(a, (Agg, PInt)) or isinstance(b, (Agg, PInt)):
        return False
    if w == 0:
        return t.eqb(a, b)
    return t.eq(w, a, b)


def mem_diff(s, backs):
    """cells of pre-existing objects changed by the body: {(objid, off): (n, [values])} or None"""
    out = {}
    for k, old in s.mem.items():
        for sb in backs:
            new = sb.mem.get(k)
            if new is None or new is old:
                continue
            if type(new) is not me.Cells:
                return None
            d0 = old.d if type(old) is me.Cells else {}
            base0 = old.prev if type(old) is me.Cells else old
            if new.prev is not base0:
                if new.prev is old:
                    d0 = {}
                else:
                    return None
            for off, (n, v) in new.d.items():
                o = d0.get(off)
                if o is not None and o[0] == n and (o[1] is v or (isc(o[1]) and isc(v) and o[1] == v)):
                    continue
                out[(k, off)] = n
            for off, (n, v) in d0.items():
                if off not in new.d:
                    out[(k, off)] = n
    return out


class Snapshot:
    def __init__(self, en):
        self.en = en
        self.n = len(en.obls)
        self.triv = en.trivial
        self.cov = {k: len(v) for k, v in en.covers.items()}

    def restore(self):
        en = self.en
        del en.obls[self.n:]
        en.trivial = self.triv
        for k in list(en.covers):
            if k in self.cov:
                del en.covers[k][self.cov[k]:]
            else:
                del en.covers[k]


def added(pc, base):
    out = []
    while pc is not base:
        if pc is None:
            return None
        out.append(pc.c)
        pc = pc.prev
    return out


def accelerate(en, fn, b, s, e, pred, frame_objs):
    acc = en.opts['accel']
    if acc is not True and not any(x in fn.name for x in acc):
        return None
    import engine
    snap = Snapshot(en)
    try:
        r = _accelerate(en, fn, b, s, e, pred, frame_objs, snap)
    except (engine.Unsupported, me.Unsupported, engine.Bound, engine.Infeasible) as x:
        if en.opts.get('trace_loops'):
            print('loop', fn.name, b, 'no:', repr(x))
        r = None
    if r is None:
        snap.restore()
    return r


def body(en, fn, b, s, e, pred, frame_objs):
    rets, backs, exits = en.explore(fn, [(b, s, e, pred)], frame_objs, region=fn.loop_bodies[b], header=b)
    return rets, backs, exits


def _accelerate(en, fn, b, s, e, pred, frame_objs, snap):
    import engine
    tr = en.opts.get('trace_loops')
    B = fn.blocks[b]
    rets, backs, exits = body(en, fn, b, s.fork(), dict(e), pred, frame_objs)
    snap.restore()
    backs = [x for x in backs if en.feasible(x[1])]
    outs = [x for x in exits if not dead_end(fn, x[0])]
    if not backs or not (rets or outs):
        return None
    if not any(en.feasible(x[1]) for x in outs) and not any(en.feasible(x[0]) for x in rets):
        return None
    bs = [x[1] for x in backs]
    for sb in bs:
        if (sb.freed - s.freed) & set(s.mem):
            if tr:
                print('loop', fn.name, b, 'frees')
            return None
        for i, z in s.osize.items():
            if sb.osize.get(i) is not z:
                return None
        for g in set(s.ghost) | set(sb.ghost):
            if g in ('facts', 'sk', 'cut', 'lx'):
                continue
            if s.ghost.get(g) != sb.ghost.get(g):
                if tr:
                    print('loop', fn.name, b, 'ghost', g)
                return None
    how = {}
    for p in B.phis:
        w = fn.regty[p.dst].width if fn.regty[p.dst].kind == 'int' else 64
        w = 0 if w == 1 else w
        if p.dst not in e:
            continue
        how[p.dst] = classify(e[p.dst], [x[2].get(p.dst) for x in backs], w)
        if how[p.dst] is None:
            if tr:
                print('loop', fn.name, b, 'phi', p.dst, e[p.dst], [x[2].get(p.dst) for x in backs])
            return None
    cells = mem_diff(s, bs)
    if cells is None:
        if tr:
            print('loop', fn.name, b, 'memory')
        return None
    mhow = {}
    for (oid, off), n in cells.items():
        old = s.mem[oid]
        v0 = me.read(old, off, n)
        vs = [me.read(sb.mem[oid], off, n) for sb in bs]
        if n > 8 and not isinstance(v0, PTRS):
            return None
        h = classify(v0, vs, 8 * n)
        if h is None:
            if tr:
                print('loop', fn.name, b, 'cell', oid, off, n, v0, vs)
            return None
        mhow[(oid, off)] = (n, v0, h)
    for attempt in range(8):
        cont = None
        mark = None
        k = t.fresh('k', 64)
        for phase in (0, 1):
            # phase 0 finds the condition for going round, phase 1 uses it for the earlier iterations
            snap.restore()
            s2 = s.fork()
            e2 = dict(e)
            s2.assume(t.ult(64, k, 1 << 60))
            havoc = False
            for d, h in how.items():
                ty = fn.regty[d]
                w = 0 if ty.width == 1 else ty.width if ty.kind == 'int' else 64
                e2[d] = at(e[d], h, k, w, 'r%d' % d)
                havoc = havoc or h == 'havoc'
            for (oid, off), (n, v0, h) in mhow.items():
                s2.mem[oid] = me.write(s2.mem[oid], off, n, at(v0, h, k, 8 * n, 'm%d' % off))
                havoc = havoc or h == 'havoc'
            if havoc:
                s2.ghost['cut'] = True
            if cont is not None:
                f = Fact(lambda j, c=cont, kk=k: t.implies(t.ult(64, j, kk), t.subst(c, {kk: j})))
                en.add_fact(s2, f)
                pos = t.ult(64, 0, k)
                s2.assume(t.implies(pos, t.subst(cont, {k: t.sub(64, k, 1)})))
                s2.assume(t.implies(pos, t.subst(cont, {k: 0})))
                for j in ends(cont, k):
                    s2.assume(f(j))
            base = s2.pc
            mark = t._cnt[0]
            rets, backs, exits = body(en, fn, b, s2, e2, pred, frame_objs)
            conds = []
            for x in backs:
                a = added(x[1].pc, base)
                if a is None:
                    return None
                conds.append(t.and_(*a) if a else True)
            if not backs:
                # the loop never goes round (only seen for an impossible k > 0)
                conds = [False]
            cont = t.or_(*conds)
            if not isc(cont):
                m = {}
                hs = set()
                for d in how:
                    v = e2[d]
                    if how[d] == 'havoc':
                        hs.add((v.off if isinstance(v, Ptr) else v).id)
                for v in t.vars_of([cont]):
                    if v.op == 'var' and v is not k and (v.id > mark or v.a[0].startswith('h_r') or v.a[0].startswith('h_m')) \
                            and '!' in v.a[0]:
                        m[v] = t.app('of_' + v.a[0], v.w, (k, 64))
                if m:
                    cont = t.subst(cont, m)
        # are the closed forms right?
        bad = False
        k1 = t.add(64, k, 1)
        for x in backs:
            sb, eb = x[1], x[2]
            for d, h in list(how.items()):
                if h == 'havoc':
                    v = eb.get(d)
                    if isinstance(e[d], Ptr) and not (isinstance(v, Ptr) and v.obj is e[d].obj):
                        return None
                    continue
                ty = fn.regty[d]
                w = 0 if ty.width == 1 else ty.width if ty.kind == 'int' else 64
                q = same_val(at(e[d], h, k1, w, ''), eb.get(d), w)
                if not valid(en, sb, q):
                    if isinstance(e[d], PTRS) and not isinstance(e[d], Ptr):
                        return None
                    how[d] = 'havoc'
                    bad = True
            d2 = mem_diff(s2, [sb])
            if d2 is None:
                return None
            for key in d2:
                if key not in mhow:
                    oid, off = key
                    v0 = me.read(s.mem[oid], off, d2[key])
                    if isinstance(v0, PTRS) and not (isinstance(v0, Ptr) and v0.obj is not None):
                        return None
                    mhow[key] = (d2[key], v0, 'havoc')
                    bad = True
            for (oid, off), (n, v0, h) in list(mhow.items()):
                v = me.read(sb.mem[oid], off, n)
                if h == 'havoc':
                    if isinstance(v0, Ptr) and not (isinstance(v, Ptr) and v.obj is v0.obj):
                        return None
                    continue
                if not valid(en, sb, same_val(at(v0, h, k1, 8 * n, ''), v, 8 * n)):
                    mhow[(oid, off)] = (n, v0, 'havoc')
                    bad = True
            if (sb.freed - s.freed) & set(s.mem):
                return None
        if not bad:
            break
    else:
        return None
    en.loops_cut[B.name] = en.loops_cut.get(B.name, 0) + 1
    if tr:
        print('loop', fn.name, b, 'summarised', how, mhow, 'exits', len(exits), 'rets', len(rets))
    if not en.opts.get('accel_merge'):
        # the ways out are followed separately
        for i, x in enumerate([x[0] for x in rets] + [x[1] for x in exits]):
            x.ghost['lx'] = x.ghost.get('lx', ()) + (i,)
    return rets, exits


def ends(cont, k):
    """iteration numbers at which a condition of the loop first fails: the fact there bounds k"""
    out = []
    for c in (cont.a if isinstance(cont, T) and cont.op == 'and' else (cont,)):
        if not isinstance(c, T):
            continue
        neg = c.op == 'not'
        if neg:
            c = c.a[0]
            if not isinstance(c, T):
                continue
        if c.op not in ('eq', 'ult', 'ule', 'slt', 'sle'):
            continue
        a, b, w = c.a[0], c.a[1], c.a[2]
        ha, hb = has(a, k), has(b, k)
        if ha == hb:
            continue
        j = invert(a, k, b, w) if ha else invert(b, k, a, w)
        if j is None:
            continue
        if c.op != 'eq':
            out.append(t.add(64, j, 1))
        if c.op != 'sle' and c.op != 'ule':
            out.append(j)
        if len(out) >= 6:
            break
    return out


def dead_end(fn, b):
    B = fn.blocks[b]
    return bool(B.insts) and B.insts[-1].op == 'unreachable'


def valid(en, st, c):
    if isc(c):
        return bool(c)
    return not en.feasible(st, t.not_(c))


# ---------------------------------------------------------------- instantiation of facts
def invert(A, J, arg, w):
    """j with A(j) = arg, for A linear in J (possibly through truncation and extension); None if not"""
    if isc(A):
        return None
    if A is J:
        return t.zext(arg, w, 64) if w < 64 else arg
    if A.op in ('sext', 'zext'):
        iw = A.a[0].w
        return invert(A.a[0], J, t.trunc(arg, w, iw), iw)
    if A.op == 'ext' and A.a[2] == 0 and A.a[0] is J:
        return t.zext(arg, w, 64)
    if A.op == 'lin':
        hit = None
        for co, x in A.a[1]:
            if has(x, J):
                if hit is not None:
                    return None
                hit = (co, x)
        if hit is None:
            return None
        co, x = hit
        rest = t.sub(w, A, t.mulc(w, x, co))
        d = t.sub(w, arg, rest)
        c = t.sgn(co, w)
        if c < 0:
            d = t.neg(w, d)
            c = -c
        if c == 1:
            q = d
        elif c & (c - 1) == 0:
            q = t.lshr(w, d, c.bit_length() - 1)
        else:
            q = t.udiv(w, d, c)
        return invert(x, J, q, w)
    return None


def has(x, J):
    return isinstance(x, T) and any(v is J for v in t.vars_of([x]))


def triggers(f):
    if f.trig is None:
        J = t.var('J!trig', 64)
        bodyt = f(J)
        trig = {}
        if not isc(bodyt):
            for v in t.vars_of([bodyt]):
                if v.op != 'app':
                    continue
                for i in range(1, len(v.a), 2):
                    A, w = v.a[i], v.a[i + 1]
                    if isinstance(A, T) and w >= 8 and has(A, J):
                        # one trigger per function and shape up to the constant
                        key = shape(A)
                        old = trig.get((v.a[0], i, key))
                        if old is None or const(A) < const(old[1]):
                            trig[(v.a[0], i, key)] = (J, A, w)
        f.trig = [(k[0], k[1]) + v for k, v in trig.items()]
    return f.trig


def const(A):
    if isc(A):
        return int(A)
    if A.op == 'lin':
        return t.sgn(A.a[0], A.w)
    if A.op in ('sext', 'zext'):
        return const(A.a[0])
    return 0


def shape(A):
    if isc(A):
        return 0
    if A.op == 'lin':
        return ('lin', tuple((co, x.id) for co, x in A.a[1]))
    if A.op in ('sext', 'zext'):
        return (A.op, shape(A.a[0]))
    return A.id


def instances(facts, goal, limit=120, rounds=2):
    out = []
    seen = set()
    have = set()
    front = list(goal)
    for r in range(rounds):
        apps = [v for v in t.vars_of(front) if v.op == 'app' and v.id not in seen]
        seen.update(v.id for v in apps)
        if not apps:
            break
        by = {}
        for v in apps:
            by.setdefault(v.a[0], []).append(v)
        new = []
        for f in facts:
            if not isinstance(f, Fact):
                continue
            for name, i, J, A, w in triggers(f):
                for v in by.get(name, ()):
                    if i + 1 >= len(v.a) + 0 or v.a[i + 1] != w:
                        continue
                    j = invert(A, J, v.a[i], w)
                    if j is None:
                        continue
                    key = (id(f), j.id if isinstance(j, T) else j)
                    if key in have:
                        continue
                    have.add(key)
                    x = f(j)
                    if isc(x):
                        if not x:
                            return [False]
                        continue
                    new.append(x)
                    if len(out) + len(new) >= limit:
                        return out + new
        out += new
        front = new
    return out
