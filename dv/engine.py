"""Symbolic execution of LLVM IR with state merging, loop cut points and contracts.

A proof run starts in a contract harness (C++ text under /verif/contracts compiled
together with the current sources of /repo).  Every path through the real code is
covered: branches are followed symbolically, joins are merged, loops are either
unrolled until the solver shows that no further iteration is possible (the
unwinding obligation) or cut by an inductive invariant (see loops.py).  Each
memory access, arithmetic no-wrap flag, library precondition and contract
assertion yields an obligation path-condition => condition.
"""
import heapq
import sys
import time
import zlib

import z3

import llvmc
import mem as me
import intz
import loops
import term as t
from mem import (FnPtr, NULL, Obj, PInt, PIte, PTRS, Ptr, Agg, Undef, Unsupported, alts, padd, pcmp,
                 paddr, peq, pite, toint, toptr)
from term import T, isc

sys.setrecursionlimit(40000)


class Bound(Exception):
    """unwinding limit reached"""


class Budget(Exception):
    """time budget exhausted"""


class PC:
    """persistent path condition (linked list)"""
    __slots__ = ('c', 'prev', 'n', 'ids')

    def __init__(self, c, prev):
        self.c = c
        self.prev = prev
        self.n = prev.n + 1 if prev else 1
        self.ids = None

    def list(self):
        r = []
        p = self
        while p is not None:
            r.append(p.c)
            p = p.prev
        r.reverse()
        return r

    def has(self, cid):
        if self.ids is None:
            p = self
            stack = []
            while p is not None and p.ids is None:
                stack.append(p)
                p = p.prev
            base = p.ids if p is not None else frozenset()
            s = set(base)
            for q in reversed(stack):
                s.add(q.c.id)
                if q.c.op == 'and':
                    for y in q.c.a:
                        s.add(y.id)
            self.ids = s
        return cid in self.ids


def known(pc, c):
    """c, or its truth value where the path condition states it literally or through a strict order"""
    if pc.has(c.id):
        return True
    n = t.not_(c)
    if isc(n) or pc.has(n.id):
        return False
    e = n if c.op == 'not' else c
    if e.op in ('ult', 'slt'):
        r = t.mk(e.op, 0, e.a[1], e.a[0], *e.a[2:])
        if pc.has(r.id):
            return False
    elif e.op in ('ule', 'sle'):
        r = t.mk('ult' if e.op == 'ule' else 'slt', 0, e.a[0], e.a[1], *e.a[2:])
        if pc.has(r.id):
            return True
    elif e.op == 'eq' and len(e.a) >= 2:
        for o in ('ult', 'slt'):
            for x, y in ((0, 1), (1, 0)):
                if pc.has(t.mk(o, 0, e.a[x], e.a[y], *e.a[2:]).id):
                    return e is not c
    return c


class State:
    __slots__ = ('mem', 'pc', 'freed', 'osize', 'ghost', 'tr', 'dead')

    def __init__(self):
        self.mem = {}
        self.pc = None
        self.freed = frozenset()
        self.osize = {}       # object id -> current size for growable objects
        self.ghost = {}
        self.tr = None

    def fork(self):
        s = State()
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.freed = self.freed
        s.osize = dict(self.osize)
        s.ghost = dict(self.ghost)
        s.tr = self.tr
        return s

    def assume(self, c):
        if isc(c):
            if not c:
                raise Infeasible()
            return
        if self.pc is not None and self.pc.has(c.id):
            return
        self.pc = PC(c, self.pc)

    def pclist(self):
        return self.pc.list() if self.pc else []


class Infeasible(Exception):
    pass


class Obligation:
    __slots__ = ('kind', 'label', 'loc', 'pc', 'cond', 'status', 'model', 'backend', 'secs', 'havoc', 'stack', 'facts')

    def name(self):
        return '%s:%s@%s' % (self.kind, self.label, self.loc)


class Exit(Exception):
    pass


ARITH = {'add': t.add, 'sub': t.sub, 'mul': t.mul, 'and': t.band, 'or': t.bor, 'xor': t.bxor,
         'shl': t.shl, 'lshr': t.lshr, 'ashr': t.ashr, 'udiv': t.udiv, 'sdiv': t.sdiv,
         'urem': t.urem, 'srem': t.srem}


class Engine:
    def __init__(self, module, opts=None):
        self.m = module
        self.opts = {'unwind': 70, 'feas_ms': 3000, 'merge': True, 'overflow': True, 'time': 600,
                     'trace': False}
        if opts:
            self.opts.update(opts)
        self.obls = []
        self.trivial = 0
        self.globals = {}
        self.covers = {}
        self.solver = z3.SolverFor('QF_UFBV') if False else z3.Solver()
        self.solver.set('timeout', self.opts['feas_ms'])
        self.feas_cache = {}
        self.nfeas = 0
        self.feas_time = 0.0
        self.models = {}
        self.prefix_models = []
        self.contracts = {}
        self.loop_specs = []
        self.inputs = []          # ordered description of symbolic inputs
        self.stack = []
        self.t0 = time.time()
        self.ninst = 0
        self.havoc_depth = 0
        self.called = {}
        self.modelled = {}
        self.live_cache = {}
        self.assumed = {}
        self.loops_cut = {}
        self.loops_unrolled = {}
        self.wlog = None          # set of object ids written (loop analysis)
        self.axioms = []

    # ------------------------------------------------------------ solver
    def feasible(self, st, c=True):
        """is pc & c satisfiable?  True when unknown"""
        if isc(c):
            if not c:
                return False
            if st.pc is None:
                return True
        else:
            if st.pc is not None:
                if st.pc.has(c.id):
                    return True
                n = t.not_(c)
                if isinstance(n, T) and st.pc.has(n.id):
                    return False
        key = (id(st.pc), c.id if isinstance(c, T) else 1)
        r = self.feas_cache.get(key)
        if r is not None:
            return r[0]
        if time.time() - self.t0 > self.opts['time']:
            raise Budget('time')
        t1 = time.time()
        self.nfeas += 1
        cs = st.pclist()
        if isinstance(c, T):
            cs = cs + [c]
        rel = self.relevant(cs, c)
        res, exact, _ = intz.check(rel, 100, False, True)
        if res != z3.unknown:
            self.feas_time += time.time() - t1
            ok = res != z3.unsat
            self.feas_cache[key] = (ok, st.pc)
            return ok
        self.solver.push()
        try:
            self.solver.add([t.z(x) for x in rel])
            for ax in self.axioms:
                self.solver.add(ax)
            self.solver.set('timeout', min(self.opts['feas_ms'], 250))
            res = self.solver.check()
            if res == z3.unknown:
                res, exact, _ = intz.check(rel, 2000)
                if res == z3.unknown or (res == z3.sat and not exact):
                    self.solver.set('timeout', self.opts['feas_ms'])
                    res = self.solver.check()
        finally:
            self.solver.pop()
        self.feas_time += time.time() - t1
        ok = res != z3.unsat
        self.feas_cache[key] = (ok, st.pc)     # keep pc alive so that id() stays unique
        return ok

    def relevant(self, cs, c):
        """cone of influence of c inside cs (sound for 'unsat' only when pc itself is satisfiable,
        which is an invariant of the states we keep)"""
        if isc(c):
            return cs
        groups = []
        want = self.vset(c)
        rest = [(x, self.vset(x)) for x in cs if x is not c]
        out = [c]
        ch = True
        while ch:
            ch = False
            nr = []
            for x, vs in rest:
                if vs & want:
                    out.append(x)
                    if not vs <= want:
                        want = want | vs
                    ch = True
                else:
                    nr.append((x, vs))
            rest = nr
        return out

    _vs = {}

    def vset(self, x):
        r = self._vs.get(x.id)
        if r is None:
            s = set()
            for v in t.vars_of([x]):
                s.add(v.a[0])
            r = frozenset(s)
            self._vs[x.id] = r
        return r

    def loc(self):
        for fn, inst in reversed(self.stack):
            if inst is not None and inst.file and ('/repo/' in inst.file or '/contracts/' in inst.file):
                return '%s:%d' % (inst.file.replace('/repo/', ''), inst.line)
        if self.stack and self.stack[-1][1] is not None:
            i = self.stack[-1][1]
            return '%s:%d' % (i.file, i.line)
        return '?'

    def repo_loc(self):
        for fn, inst in reversed(self.stack):
            if inst is not None and inst.file and '/repo/' in inst.file:
                return '%s:%d' % (inst.file.replace('/repo/', ''), inst.line)
        return self.loc()

    def oblige(self, st, cond, kind, label):
        """record pc => cond, then continue under cond"""
        if isc(cond):
            if cond:
                self.trivial += 1
                return
        elif st.pc is not None and st.pc.has(cond.id):
            self.trivial += 1
            return
        o = Obligation()
        o.kind = kind
        o.label = label
        o.loc = self.loc()
        o.pc = st.pc
        o.cond = cond
        o.status = None
        o.model = None
        o.backend = None
        o.secs = 0
        o.havoc = self.havoc_depth > 0 or bool(st.ghost.get('cut'))
        o.facts = st.ghost.get('facts', ())
        o.stack = ' > '.join(x[0][:90] for x in self.stack[-5:])
        self.obls.append(o)
        if isc(cond):
            raise Infeasible()
        if kind == 'contract' and sum(x.op == 'xor' for x in t.dag(cond)) > 2:
            # an equation between hashes tells the solver nothing about what follows
            return
        st.assume(cond)

    # ------------------------------------------------------------ globals / constants
    def glob(self, name):
        o = self.globals.get(name)
        if o is None:
            v = self.m.globals[name]
            ty = self.m.ty(llvmc.GlobalGetValueType(v))
            ini = llvmc.GetInitializer(v) if not llvmc.IsDeclaration(v) else None
            o = Obj('@' + name, ty.size if ty.size is not None else 64, 'global',
                    ro=bool(llvmc.IsGlobalConstant(v)))
            self.globals[name] = o
            if ini:
                o.init = self.const_content(self.m.const(ini), ty)
            elif name.startswith('_ZTV') or name.startswith('_ZTI'):
                o.init = me.UndefC('ext_' + name)
            else:
                o.init = me.UndefC('ext_' + name)
        return o

    def const_content(self, c, ty):
        node = me.Zero()
        if c[0] == 's':
            return me.Bytes(c[1])
        if c[0] == 'z':
            return node
        if c[0] == 'u':
            return node
        # large plain integer tables as bytes
        if c[0] == 'agg' and ty.kind == 'array' and ty.n > 64 and all(e[0] == 'i' for e in c[2]):
            return me.Bytes(b''.join(e[2].to_bytes(ty.elt.size, 'little') for e in c[2]))
        d = {}
        self._cells(c, ty, 0, d)
        return me.Cells(d, node)

    def _cells(self, c, ty, off, d):
        if c[0] == 's':
            for i, b in enumerate(c[1]):
                d[off + i] = (1, b)
            return
        if c[0] in ('z', 'u'):
            return
        if c[0] == 'agg':
            if ty.kind == 'struct':
                for i, e in enumerate(c[2]):
                    self._cells(e, ty.elems[i], off + ty.offs[i], d)
            else:
                for i, e in enumerate(c[2]):
                    self._cells(e, ty.elt, off + i * ty.elt.size, d)
            return
        v = self.cval(c)
        d[off] = (ty.store, self.mval(v, ty))

    def mval(self, v, ty):
        """SSA value -> memory value"""
        if isinstance(v, bool):
            return int(v)
        if ty.kind == 'int' and ty.width == 1:
            return t.zext(t.b2i(v, 8), 8, 8)
        if ty.kind in ('float', 'double'):
            return fbits(v, ty.width)
        return v

    def cval(self, c):
        k = c[0]
        if k == 'i':
            return bool(c[2]) if c[1] == 1 else c[2]
        if k == 'p0':
            return NULL
        if k == 'gl':
            return Ptr(self.glob(c[1]), 0)
        if k == 'fn':
            return FnPtr(c[1])
        if k == 'cgep':
            return padd(self.cval(c[1]), c[2] & t.M(64))
        if k == 'f':
            return float(c[2])
        if k == 'u':
            return self.undef(c[1])
        if k == 'z':
            return self.zero(c[1])
        if k == 'agg':
            return Agg([self.cval(e) for e in c[2]])
        if k == 'cexpr':
            op = c[1]
            ops = [self.cval(x) for x in c[3]]
            if op == 'ptrtoint':
                return PInt(ops[0])
            if op == 'inttoptr':
                return toptr(ops[0])
            if op in ARITH:
                w = c[2].width
                return self.arith(op, w, ops[0], ops[1])
            if op in ('bitcast', 'addrspacecast'):
                return ops[0]
            if op == 'trunc':
                return t.trunc(toint(ops[0]), 64, c[2].width)
        if k == 's':
            return Agg(list(c[1]))
        if k in ('meta', 'none', 'asm', 'blockaddr'):
            return None
        raise Unsupported('constant %s' % (c,))

    def undef(self, ty):
        if ty.kind == 'int':
            return t.fresh('undef', ty.width if ty.width > 1 else 0)
        if ty.kind == 'ptr':
            return NULL
        if ty.kind in ('float', 'double'):
            return 0.0
        if ty.kind == 'struct':
            return Agg([self.undef(e) for e in ty.elems])
        if ty.kind in ('array', 'vector'):
            return Agg([self.undef(ty.elt) for _ in range(ty.n)])
        raise Unsupported('undef %s' % ty.kind)

    def zero(self, ty):
        if ty.kind == 'int':
            return False if ty.width == 1 else 0
        if ty.kind == 'ptr':
            return NULL
        if ty.kind in ('float', 'double'):
            return 0.0
        if ty.kind == 'struct':
            return Agg([self.zero(e) for e in ty.elems])
        if ty.kind in ('array', 'vector'):
            return Agg([self.zero(ty.elt) for _ in range(ty.n)])
        raise Unsupported('zero %s' % ty.kind)

    # ------------------------------------------------------------ memory
    def content(self, st, obj):
        c = st.mem.get(obj.id)
        if c is None:
            c = obj.init
            if c is None:
                c = me.UndefC('u%d' % obj.id)
                obj.init = c
            st.mem[obj.id] = c
        return c

    def size(self, st, obj):
        return st.osize.get(obj.id, obj.size)

    def alloc(self, st, name, size, kind, align=16, init=None):
        o = Obj(name, size, kind, align, site=self.repo_loc() if self.opts.get('sites') else None)
        o.init = init if init is not None else me.UndefC('u%d' % o.id)
        st.mem[o.id] = o.init
        return o

    def inbounds(self, st, p, n):
        """condition that [p, p+n) lies inside its object"""
        sz = self.size(st, p.obj)
        off = p.off
        if isc(off) and isc(sz) and isc(n):
            return off + n <= sz
        # off <= sz - n and n <= sz (sizes are < 2^47)
        return t.and_(t.ule(64, n, sz), t.ule(64, off, t.sub(64, sz, n)))

    def chk(self, st, p, n, what):
        """alternatives [(guard, Ptr)] after obliging validity"""
        if isinstance(p, Ptr):
            al = [(True, p)]
        else:
            al = alts(p)
        res = []
        conds = []
        for g, q in al:
            if isinstance(q, FnPtr):
                conds.append(t.not_(g))
                continue
            if q.obj is None:
                conds.append(t.not_(g))
                continue
            if q.obj.id in st.freed:
                conds.append(t.not_(g))
                continue
            conds.append(t.implies(g, self.inbounds(st, q, n)))
            res.append((g, q))
        # label
        c = t.and_(*conds)
        lab = what
        if isc(c) and not c:
            if any(isinstance(q, Ptr) and q.obj is None for _, q in al):
                lab = what + ' through null'
            elif any(isinstance(q, Ptr) and q.obj is not None and q.obj.id in st.freed for _, q in al):
                lab = what + ' after free'
        self.oblige(st, c, 'memory', lab)
        return res

    def load(self, st, p, n):
        al = self.chk(st, p, n, 'load')
        v = None
        if len(al) > 1:
            # prune alternatives the path excludes
            al = [(g, q) for g, q in al if not (isinstance(g, T) and st.pc is not None and
                                                isinstance(t.not_(g), T) and st.pc.has(t.not_(g).id))] or al
        for g, q in reversed(al):
            x = me.read(self.content(st, q.obj), q.off, n)
            v = x if v is None else me.vite(g, x, v, n)
        return v

    def store(self, st, p, n, v):
        al = self.chk(st, p, n, 'store')
        for g, q in al:
            if q.obj.ro:
                self.oblige(st, t.not_(g), 'memory', 'store to constant')
                continue
            c = self.content(st, q.obj)
            nc = me.write(c, q.off, n, v)
            if not (isc(g) and g):
                nc = me.merge(g, nc, c)
            st.mem[q.obj.id] = nc
            if self.wlog is not None:
                self.wlog.setdefault(q.obj.id, (q.obj, []))[1].append((q.off, n))

    def typed(self, v, ty, n=None):
        """memory value -> SSA value of type ty"""
        k = ty.kind
        if k == 'int':
            w = ty.width
            if isinstance(v, PTRS):
                v = PInt(v) if not (isinstance(v, Ptr) and v.obj is None) else v.off
            if w == 1:
                v = toint(v)
                return t.eq(8, t.band(8, v, 1), 1) if isinstance(v, T) else bool(v & 1)
            if ty.store * 8 != w:
                return t.trunc(toint(v), ty.store * 8, w)
            return v
        if k == 'ptr':
            if isinstance(v, PTRS):
                return v
            p = toptr(v)
            if p is None:
                p = self.int2ptr(v)
            return p
        if k in ('float', 'double'):
            return unfbits(toint(v), ty.width)
        raise Unsupported('typed %s' % k)

    def int2ptr(self, v):
        # an integer without provenance: only usable as an opaque non-dereferenceable pointer
        return Ptr(None, v)

    def load_ty(self, st, p, ty):
        k = ty.kind
        if k == 'struct':
            return Agg([self.load_ty(st, padd(p, o), e) for e, o in zip(ty.elems, ty.offs)])
        if k in ('array', 'vector'):
            return Agg([self.load_ty(st, padd(p, i * ty.elt.size), ty.elt) for i in range(ty.n)])
        return self.typed(self.load(st, p, ty.store), ty)

    def store_ty(self, st, p, v, ty):
        k = ty.kind
        if isinstance(v, Undef):
            return
        if k == 'struct':
            for e, o, x in zip(ty.elems, ty.offs, v.v):
                self.store_ty(st, padd(p, o), x, e)
            return
        if k in ('array', 'vector'):
            for i in range(ty.n):
                self.store_ty(st, padd(p, i * ty.elt.size), v.v[i], ty.elt)
            return
        if k == 'int' and ty.store * 8 != ty.width and ty.width > 1:
            v = t.zext(toint(v), ty.width, ty.store * 8)
        if isinstance(v, PInt):
            v = v.p
        self.store(st, p, ty.store, self.mval(v, ty))

    def memcpy(self, st, d, s, n, what='memcpy'):
        if isc(n) and n == 0:
            return
        das = self.chk2(st, d, n, what + ' dst')
        sas = self.chk2(st, s, n, what + ' src')
        snaps = [(g, self.content(st, q.obj), q.off) for g, q in sas]
        for g, q in das:
            c = self.content(st, q.obj)
            nc = None
            for sg, sc, so in reversed(snaps):
                x = me.copy_range(c, q.off, n, sc, so)
                nc = x if nc is None else me.merge(sg, x, nc)
            if nc is None:
                continue
            if not (isc(g) and g):
                nc = me.merge(g, nc, c)
            st.mem[q.obj.id] = nc
            if self.wlog is not None:
                self.wlog.setdefault(q.obj.id, (q.obj, []))[1].append((q.off, n))

    def chk2(self, st, p, n, what):
        """like chk but nothing is required when n is 0"""
        if isc(n):
            return self.chk(st, p, n, what) if n else []
        res = []
        conds = []
        for g, q in alts(p):
            if isinstance(q, FnPtr) or q.obj is None or q.obj.id in st.freed:
                conds.append(t.or_(t.not_(g), t.eq(64, n, 0)))
                continue
            conds.append(t.implies(g, t.or_(t.eq(64, n, 0), self.inbounds(st, q, n))))
            res.append((g, q))
        self.oblige(st, t.and_(*conds), 'memory', what)
        return res

    def memset(self, st, d, b, n):
        if isc(n) and n == 0:
            return
        for g, q in self.chk2(st, d, n, 'memset'):
            c = self.content(st, q.obj)
            nc = me.fill(c, q.off, n, b)
            if not (isc(g) and g):
                nc = me.merge(g, nc, c)
            st.mem[q.obj.id] = nc
            if self.wlog is not None:
                self.wlog.setdefault(q.obj.id, (q.obj, []))[1].append((q.off, n))

    # ------------------------------------------------------------ arithmetic
    def arith(self, op, w, a, b):
        if isinstance(a, PInt) or isinstance(b, PInt):
            if op == 'sub' and isinstance(a, PInt) and isinstance(b, PInt):
                r = self.psub(a.p, b.p)
                if r is not None:
                    return r
            if op in ('add', 'sub') and isinstance(a, PInt) and not isinstance(b, PInt):
                return PInt(padd(a.p, b if op == 'add' else t.neg(64, b)))
            if op == 'add' and isinstance(b, PInt):
                return PInt(padd(b.p, a))
            if op == 'and' and isinstance(a, PInt) and isc(b) and isinstance(a.p, Ptr) and a.p.obj is not None \
                    and b < a.p.obj.align and b & (b + 1) == 0:
                return t.band(64, a.p.off, b)
            a = toint(a)
            b = toint(b)
        if w == 1:
            if op == 'and':
                return t.and_(a, b)
            if op == 'or':
                return t.or_(a, b)
            if op in ('xor', 'add', 'sub'):
                return t.xorb(a, b)
            raise Unsupported('i1 ' + op)
        return ARITH[op](w, a, b)

    def psub(self, a, b):
        if isinstance(a, PIte):
            x = self.psub(a.a, b)
            y = self.psub(a.b, b)
            if x is None or y is None:
                return None
            return t.ite(a.c, x, y, 64)
        if isinstance(b, PIte):
            x = self.psub(a, b.a)
            y = self.psub(a, b.b)
            if x is None or y is None:
                return None
            return t.ite(b.c, x, y, 64)
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
            return t.sub(64, a.off, b.off)
        return None

    # ------------------------------------------------------------ functions
    def liveness(self, fn):
        r = self.live_cache.get(fn.name)
        if r is not None:
            return r
        n = len(fn.blocks)
        use = []
        deff = []
        phiuse = [dict() for _ in range(n)]   # block -> pred -> regs
        for B in fn.blocks:
            u = set()
            d = set()
            for p in B.phis:
                d.add(p.dst)
                for pb, o in p.x.items():
                    if o[0] == 'r':
                        phiuse[B.idx].setdefault(pb, set()).add(o[1])
            for i in B.insts:
                for o in i.ops:
                    if o[0] == 'r' and o[1] not in d:
                        u.add(o[1])
                if i.op in ('call', 'invoke') and i.x[0][0] == 'r' and i.x[0][1] not in d:
                    u.add(i.x[0][1])
                d.add(i.dst)
            use.append(u)
            deff.append(d)
        live = [set(u) for u in use]
        ch = True
        order = sorted(fn.rpo, key=lambda b: -fn.rpo[b])
        while ch:
            ch = False
            for b in order:
                out = set()
                for s in fn.blocks[b].succ:
                    out |= live[s] - set(p.dst for p in fn.blocks[s].phis)
                    out |= phiuse[s].get(b, set())
                nl = use[b] | (out - deff[b])
                if nl != live[b]:
                    live[b] = nl
                    ch = True
        # at block entry (after phi evaluation): live + phi dsts
        ent = [frozenset(live[b] | set(p.dst for p in fn.blocks[b].phis)) for b in range(n)]
        self.live_cache[fn.name] = ent
        return ent

    def call(self, st, name, args, inst=None):
        """-> list of (state, value)"""
        self.modelled_hit = None
        m = self.models.get(name)
        if m is None and name not in self.contracts:
            m = self.find_model(name)
        if m is not None and m is not False:
            self.modelled[name] = self.modelled.get(name, 0) + 1
            r = m(self, st, args, inst, name)
            if r is NotImplemented:
                m = None
            elif isinstance(r, list):
                return r
            else:
                return [(st, r)]
        c = self.contracts.get(name)
        if c is not None and not any(f == c for f, _ in self.stack):
            name = c
        fn = self.m.funcs.get(name)
        if fn is None or fn.decl:
            raise Unsupported('call to undefined function %s' % name)
        fn = self.m.func(name)
        return self.run(fn, args, st)

    def find_model(self, name):
        for pre, m in self.prefix_models:
            if name.startswith(pre) if isinstance(pre, str) else pre.search(name):
                self.models[name] = m
                return m
        self.models[name] = False
        return None

    def run(self, fn, args, st):
        self.called[fn.name] = self.called.get(fn.name, 0) + 1
        if len(self.stack) > 220:
            raise Bound('call depth')
        self.stack.append([fn.name, None])
        frame_objs = []
        try:
            res = self._run(fn, args, st, frame_objs)
        finally:
            self.stack.pop()
        if frame_objs:
            # locals die with the frame
            ids = [o.id for o in frame_objs]
            for s, _ in res:
                for i in ids:
                    s.mem.pop(i, None)
        return res

    def status_like(self, fn):
        return fn.sret is not None and fn.sret.name and ('paimon::Status' in fn.sret.name or
                                                         'paimon::Result' in fn.sret.name)

    def _run(self, fn, args, st, frame_objs):
        env = {}
        if len(args) != len(fn.params):
            args = list(args[:len(fn.params)])
        for i, a in enumerate(args):
            env[i] = a
        results, _, _ = self.explore(fn, [(0, st, env, -1)], frame_objs)
        nomerge_ret = self.status_like(fn)
        if len(results) > 1 and not nomerge_ret and self.opts['merge'] and fn.name not in self.opts.get('keep', ()):
            results = self.merge_results(results, fn.rty)
        return results

    def explore(self, fn, start, frame_objs, region=None, header=None):
        """run from the start points; with a region (a loop body) stop at its header and at its borders"""
        live = self.liveness(fn)
        pend = {}
        heap = []
        results = []
        backs = []
        exits = []
        rpo = fn.rpo
        iters = {}
        nomerge_ret = self.status_like(fn)

        def push(b, s, e, pred):
            if region is not None:
                if b == header:
                    backs.append((b, s, e, pred))
                    return
                if b not in region:
                    exits.append((b, s, e, pred))
                    return
            l = pend.get(b)
            if l is None:
                pend[b] = [(s, e, pred)]
                heapq.heappush(heap, (rpo[b], b))
            else:
                l.append((s, e, pred))

        for b, s, e, pred in start:
            pend.setdefault(b, []).append((s, e, pred))
        for b in pend:
            heapq.heappush(heap, (rpo[b], b))
        while heap:
            _, b = heapq.heappop(heap)
            lst = pend.pop(b)
            B = fn.blocks[b]
            # keep only the live registers
            lv = live[b]
            lst = [(s, {k: v for k, v in e.items() if k in lv}, p) for s, e, p in lst]
            if b in fn.loop_bodies and b != header:
                back = [x for x in lst if (x[2], b) in fn.backedges]
                if back:
                    iters[b] = iters.get(b, 0) + 1
                    if iters[b] > self.opts['unwind']:
                        # one last feasibility test of every pending state
                        lst2 = [x for x in lst if self.feasible(x[0])]
                        if lst2:
                            raise Bound('loop %s %s' % (B.name, self.loc()))
                        continue
                    if iters[b] >= 2:
                        self.loops_unrolled[B.name] = max(iters[b], self.loops_unrolled.get(B.name, 0))
                else:
                    iters[b] = 0
                    if self.opts.get('accel'):
                        rest = []
                        for s, e, p in self.merge_all(lst, lv, fn.regty):
                            r = loops.accelerate(self, fn, b, s, e, p, frame_objs)
                            if r is None:
                                rest.append((s, e, p))
                                continue
                            rets, outs = r
                            results.extend(rets)
                            for b2, s2, e2, p2 in outs:
                                push(b2, s2, e2, p2)
                        lst = rest
                        if not lst:
                            continue
            if len(lst) > 1 and self.opts['merge'] and not (nomerge_ret and self.is_ret_block(fn, b)):
                lst = self.merge_all(lst, lv, fn.regty)
            for s, e, p in lst:
                for r in self.block(fn, B, s, e, frame_objs):
                    if r[0] == 'ret':
                        results.append((r[1], r[2]))
                    else:
                        push(r[1], r[2], r[3], b)
        return results, backs, exits

    def is_ret_block(self, fn, b):
        # a block from which only a return (through straight-line cleanup) follows
        seen = 0
        while seen < 40:
            B = fn.blocks[b]
            if B.insts and B.insts[-1].op == 'ret':
                return True
            s = [x for x in B.succ if not (fn.blocks[x].insts and fn.blocks[x].insts[0].op == 'landingpad')]
            if len(s) == 1:
                b = s[0]
            else:
                return False
            seen += 1
        return False

    def merge_all(self, lst, lv, tys):
        out = [lst[0]]
        for x in lst[1:]:
            m = self.merge2(out[-1], x, tys)
            if m is None:
                out.append(x)
            else:
                out[-1] = m
        return out

    def merge_results(self, results, rty):
        groups = []
        for s, v in results:
            x = (s, {0: v} if v is not None else {}, -1)
            done = False
            for i, g in enumerate(groups):
                m = self.merge2(g, x, [rty])
                if m is not None:
                    groups[i] = m
                    done = True
                    break
            if not done:
                groups.append(x)
        return [(s, e.get(0)) for s, e, _ in groups]

    def merge2(self, x, y, tys):
        s1, e1, p1 = x
        s2, e2, p2 = y
        # common path prefix
        a, b = s1.pc, s2.pc
        la, lb = [], []
        while a is not b:
            na = a.n if a else 0
            nb = b.n if b else 0
            if na >= nb and a is not None:
                la.append(a.c)
                a = a.prev
            elif b is not None:
                lb.append(b.c)
                b = b.prev
        c1 = t.and_(*la) if la else True
        c2 = t.and_(*lb) if lb else True
        if isc(c1) or isc(c2):
            # one of them carries no extra condition: states are not exclusive, do not merge
            return None
        if s1.freed != s2.freed:
            d = s1.freed ^ s2.freed
            # an object freed only on one side must not be reachable from the other
            fr = s1.freed | s2.freed
        else:
            fr = s1.freed
        g1, g2 = s1.ghost, s2.ghost
        if g1 != g2:
            gm = {}
            for k in set(g1) | set(g2):
                va, vb = g1.get(k), g2.get(k)
                if va is vb or va == vb:
                    gm[k] = va
                    continue
                f = GHOST_MERGE.get(k if isinstance(k, str) else k[0])
                if f is None:
                    return None
                gm[k] = f(c1, va, vb)
        else:
            gm = dict(g1)
        if self.opts.get('keep_ptr') and self.ptr_conflict(s1, s2, e1, e2):
            return None
        e = {}
        for k in set(e1) | set(e2):
            if k not in e1 or k not in e2:
                continue
            va, vb = e1[k], e2[k]
            if va is vb:
                e[k] = va
                continue
            r = self.vmerge(c1, va, vb, tys[k])
            if r is None:
                return None
            e[k] = r
        s = State()
        s.freed = fr
        s.ghost = gm
        s.tr = s1.tr
        mem = {}
        m1, m2 = s1.mem, s2.mem
        for k, v in m1.items():
            w = m2.get(k)
            if w is None or w is v:
                mem[k] = v
            else:
                mem[k] = me.merge(c1, v, w)
        for k, v in m2.items():
            if k not in mem:
                mem[k] = v
        s.mem = mem
        if s1.osize or s2.osize:
            for k in set(s1.osize) | set(s2.osize):
                va, vb = s1.osize.get(k), s2.osize.get(k)
                if va is None or vb is None:
                    # the object exists on one side only, or its initial size
                    s.osize[k] = va if vb is None else vb
                    if k in m1 and k in m2:
                        return None
                else:
                    s.osize[k] = t.ite(c1, va, vb, 64)
        s.pc = a
        n1 = t.not_(c1)
        if not (isinstance(n1, T) and n1 is c2):
            s.assume(t.or_(c1, c2))
        return (s, e, p1)

    def ptr_conflict(self, s1, s2, e1, e2):
        """do the states disagree on a pointer whose offset both know exactly?"""
        def bad(a, b):
            return isinstance(a, Ptr) and isinstance(b, Ptr) and isc(a.off) and isc(b.off) and \
                (a.off != b.off or a.obj is not b.obj)
        for k, a in e1.items():
            b = e2.get(k)
            if a is not b and bad(a, b):
                return True
        for k, a in s1.mem.items():
            b = s2.mem.get(k)
            if b is None or a is b:
                continue
            while type(a) is me.Cells and type(b) is me.Cells:
                for o, (n, v) in a.d.items():
                    if n == 8:
                        y = b.d.get(o)
                        if y is not None and y[1] is not v and bad(v, y[1]):
                            return True
                if a.prev is b.prev:
                    break
                a, b = a.prev, b.prev
        return False

    def vmerge(self, c, a, b, ty):
        if isinstance(a, PInt) or isinstance(b, PInt):
            pa, pb = toptr(a), toptr(b)
            if pa is not None and pb is not None:
                return PInt(pite(c, pa, pb))
            return t.ite(c, toint(a), toint(b), 64)
        if isinstance(a, PTRS) and isinstance(b, PTRS):
            return pite(c, a, b)
        if isinstance(a, Agg) and isinstance(b, Agg):
            out = []
            els = ty.elems if ty.kind == 'struct' else [ty.elt] * ty.n
            for x, y, ety in zip(a.v, b.v, els):
                r = x if x is y else self.vmerge(c, x, y, ety)
                if r is None:
                    return None
                out.append(r)
            return Agg(out)
        if isinstance(a, (float, FT)) or isinstance(b, (float, FT)):
            return t_fite(c, a, b)
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            return None if a != b else a
        if isinstance(a, PTRS) or isinstance(b, PTRS) or isinstance(a, Agg) or isinstance(b, Agg):
            return None
        w = ty.width
        return t.ite(c, a, b, 0 if w == 1 else w)

    # ------------------------------------------------------------ blocks
    def val(self, o, env):
        if o[0] == 'r':
            v = env[o[1]]
            return v
        return self.cval(o)

    def block(self, fn, B, st, env, frame_objs):
        """execute one block; -> [('ret',state,val) | ('go',blk,state,env)]"""
        out = []
        work = [(st, env, 0)]
        while work:
            s, e, i = work.pop()
            try:
                self._block(fn, B, s, e, i, work, out, frame_objs)
            except Infeasible:
                pass
        return out

    def goto(self, fn, B, tgt, s, e, out):
        TB = fn.blocks[tgt]
        if TB.phis:
            vals = [(p.dst, self.val(p.x[B.idx], e)) for p in TB.phis]
            e = dict(e)
            for d, v in vals:
                e[d] = v
        out.append(('go', tgt, s, e))

    def _block(self, fn, B, st, env, i, work, out, frame_objs):
        insts = B.insts
        frame = self.stack[-1]
        n = len(insts)
        val = self.val
        while i < n:
            I = insts[i]
            i += 1
            frame[1] = I
            op = I.op
            self.ninst += 1
            if self.ninst & 4095 == 0 and time.time() - self.t0 > self.opts['time']:
                raise Budget('time')
            if op == 'load':
                env[I.dst] = self.load_ty(st, val(I.ops[0], env), I.ty)
            elif op == 'store':
                self.store_ty(st, val(I.ops[1], env), val(I.ops[0], env), I.x)
            elif op == 'gep':
                p = val(I.ops[0], env)
                if isinstance(p, Agg):
                    raise Unsupported('vector gep')
                off = I.x[0]
                for j, sc, iw in I.x[1]:
                    ix = toint(val(I.ops[j], env))
                    if iw != 64:
                        ix = t.sext(ix, iw, 64)
                    if isinstance(ix, T) and sc != 1:
                        self.nowrap_index(st, ix, sc)
                    off = t.add(64, off & t.M(64) if isc(off) else off, t.mulc(64, ix, sc))
                if isc(off):
                    off &= t.M(64)
                env[I.dst] = padd(p, off)
            elif op in ARITH:
                a = val(I.ops[0], env)
                b = val(I.ops[1], env)
                ty = I.ty
                if ty.kind == 'vector':
                    env[I.dst] = Agg([self.arith(op, ty.elt.width, x, y) for x, y in zip(a.v, b.v)])
                    continue
                w = ty.width
                if op in ('udiv', 'sdiv', 'urem', 'srem'):
                    a, b = toint(a), toint(b)
                    self.oblige(st, t.not_(t.eq(w, b, 0)), 'arith', 'division by zero')
                    if op in ('sdiv', 'srem') and not (isc(b) and b != t.M(w)):
                        self.oblige(st, t.not_(t.and_(t.eq(w, b, t.M(w)), t.eq(w, a, 1 << (w - 1)))),
                                    'arith', 'signed division overflow')
                    if self.opts.get('peel_div') and isinstance(b, T) and not isc(a):
                        rest = self.peel(st, env, I, i, op, w, a, b, work)
                        if not rest:
                            raise Infeasible()
                elif op in ('shl', 'lshr', 'ashr'):
                    a, b = toint(a), toint(b)
                    if not isc(b):
                        self.oblige(st, t.ult(w, b, w), 'arith', 'shift amount')
                elif I.x and I.x[0] and self.opts['overflow'] and op in ('add', 'sub', 'mul'):
                    if not (isc(a) and isc(b)) and not isinstance(a, PInt) and not isinstance(b, PInt):
                        self.oblige(st, nsw(op, w, a, b), 'overflow', 'signed %s' % op)
                    elif isinstance(a, int) and isinstance(b, int):
                        self.oblige(st, nsw(op, w, a, b), 'overflow', 'signed %s' % op)
                env[I.dst] = self.arith(op, w, a, b)
            elif op == 'icmp':
                r = self.icmp(I.x[0], I.x[1], val(I.ops[0], env), val(I.ops[1], env))
                env[I.dst] = known(st.pc, r) if isinstance(r, T) and st.pc is not None else r
            elif op == 'br':
                if not I.ops:
                    self.goto(fn, B, B.succ[0], st, env, out)
                    return
                c = val(I.ops[0], env)
                if isc(c):
                    self.goto(fn, B, B.succ[0 if c else 1], st, env, out)
                    return
                self.branch(fn, B, c, B.succ[0], B.succ[1], st, env, out)
                return
            elif op == 'call' or op == 'invoke':
                res = self.do_call(fn, I, st, env)
                if op == 'invoke':
                    nd = I.x[1][0]
                    for s, v in res:
                        if v == 'THROW':
                            self.goto(fn, B, I.x[1][1], s, dict(env), out)
                            continue
                        e = dict(env) if len(res) > 1 else env
                        e[I.dst] = v
                        self.goto(fn, B, nd, s, e, out)
                    return
                res = [x for x in res]
                if len(res) == 1:
                    st, v = res[0]
                    if isinstance(v, str) and v == 'THROW':
                        out.append(('ret', st, 'THROW'))
                        return
                    env[I.dst] = v
                    continue
                for s, v in reversed(res):
                    if isinstance(v, str) and v == 'THROW':
                        out.append(('ret', s, 'THROW'))
                        continue
                    e = dict(env)
                    e[I.dst] = v
                    work.append((s, e, i))
                return
            elif op == 'ret':
                v = val(I.ops[0], env) if I.ops else None
                out.append(('ret', st, v))
                return
            elif op == 'alloca':
                ty = I.x
                cnt = val(I.ops[0], env)
                sz = t.mulc(64, cnt, ty.size) if not isc(cnt) else cnt * ty.size
                o = self.alloc(st, 'loc', sz, 'stack', max(ty.align, 16))
                frame_objs.append(o)
                env[I.dst] = Ptr(o, 0)
            elif op in ('zext', 'sext', 'trunc'):
                v = val(I.ops[0], env)
                if I.ty.kind == 'vector':
                    raise Unsupported('vector cast')
                sw = I.x.width
                dw = I.ty.width
                if sw == 1:
                    if op == 'zext':
                        env[I.dst] = t.b2i(v, dw)
                    else:
                        env[I.dst] = t.ite(v, t.M(dw), 0, dw)
                else:
                    v = toint(v)
                    if op == 'zext':
                        env[I.dst] = t.zext(v, sw, dw)
                    elif op == 'sext':
                        env[I.dst] = t.sext(v, sw, dw)
                    elif dw == 1:
                        env[I.dst] = t.eq(1, t.trunc(v, sw, 1), 1) if isinstance(v, T) else bool(v & 1)
                    else:
                        env[I.dst] = t.trunc(v, sw, dw)
            elif op == 'select':
                c = val(I.ops[0], env)
                a = val(I.ops[1], env)
                b = val(I.ops[2], env)
                env[I.dst] = self.sel(c, a, b, I.ty)
            elif op == 'ptrtoint':
                p = val(I.ops[0], env)
                v = p.off if isinstance(p, Ptr) and p.obj is None else PInt(p)
                if I.ty.width != 64:
                    v = t.trunc(toint(v), 64, I.ty.width)
                env[I.dst] = v
            elif op == 'inttoptr':
                v = val(I.ops[0], env)
                p = toptr(v)
                env[I.dst] = p if p is not None else self.int2ptr(v)
            elif op == 'switch':
                self.switch(fn, B, I, st, env, out)
                return
            elif op == 'unreachable':
                self.oblige(st, False, 'unreachable', 'unreachable reached')
                return
            elif op == 'extractvalue':
                v = val(I.ops[0], env)
                for k in I.x:
                    v = v.v[k] if isinstance(v, Agg) else None
                env[I.dst] = v
            elif op == 'insertvalue':
                v = val(I.ops[0], env)
                env[I.dst] = self.insval(v, I.x, val(I.ops[1], env))
            elif op in ('bitcast', 'freeze', 'addrspacecast'):
                v = val(I.ops[0], env)
                if op == 'bitcast' and I.x.kind != I.ty.kind:
                    v = self.bitcast(v, I.x, I.ty)
                env[I.dst] = v
            elif op == 'landingpad':
                env[I.dst] = Agg([NULL, 0])
            elif op == 'resume':
                out.append(('ret', st, 'THROW'))
                return
            elif op == 'cmpxchg':
                p = val(I.ops[0], env)
                exp = val(I.ops[1], env)
                new = val(I.ops[2], env)
                ty = I.ty.elems[0]
                old = self.load_ty(st, p, ty)
                c = self.icmp('eq', ty, old, exp)
                self.store_ty(st, p, self.sel(c, new, old, ty), ty)
                env[I.dst] = Agg([old, c])
            elif op == 'atomicrmw':
                p = val(I.ops[0], env)
                v = val(I.ops[1], env)
                old = self.load_ty(st, p, I.ty)
                w = I.ty.width
                k = I.x
                if k == 'xchg':
                    nv = v
                elif k in ARITH:
                    nv = self.arith(k, w, old, v)
                else:
                    raise Unsupported('atomicrmw ' + k)
                self.store_ty(st, p, nv, I.ty)
                env[I.dst] = old
            elif op == 'fence':
                pass
            elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'fcmp', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
                        'fpext', 'fptrunc', 'fneg', 'frem'):
                env[I.dst] = self.fpop(st, op, I, [val(o, env) for o in I.ops])
            elif op == 'extractelement':
                v = val(I.ops[0], env)
                env[I.dst] = v.v[val(I.ops[1], env)]
            elif op == 'insertelement':
                v = val(I.ops[0], env)
                l = list(v.v)
                l[val(I.ops[2], env)] = val(I.ops[1], env)
                env[I.dst] = Agg(l)
            elif op == 'shufflevector':
                a = val(I.ops[0], env)
                b = val(I.ops[1], env)
                l = a.v + b.v
                env[I.dst] = Agg([l[k] if k >= 0 else l[0] for k in I.x[0]])
            else:
                raise Unsupported('instruction ' + op)
        raise Unsupported('block without terminator')

    def nowrap_index(self, st, ix, sc):
        lim = (1 << 58) // sc
        if t.ub(ix) < lim:
            return
        self.oblige(st, t.or_(t.ult(64, ix, lim), t.ult(64, t.sub(64, (1 << 64) - lim, 1), ix)), 'memory',
                    'index arithmetic stays in range')

    def insval(self, agg, idx, v):
        if not isinstance(agg, Agg):
            raise Unsupported('insertvalue')
        l = list(agg.v)
        if len(idx) == 1:
            l[idx[0]] = v
        else:
            l[idx[0]] = self.insval(l[idx[0]], idx[1:], v)
        return Agg(l)

    def bitcast(self, v, a, b):
        if b.kind in ('float', 'double') and a.kind == 'int':
            return unfbits(toint(v), b.width)
        if a.kind in ('float', 'double') and b.kind == 'int':
            return fbits(v, a.width)
        raise Unsupported('bitcast %s %s' % (a.kind, b.kind))

    def sel(self, c, a, b, ty):
        if isinstance(c, Agg):
            raise Unsupported('vector select')
        if isc(c):
            return a if c else b
        if ty.kind == 'ptr':
            return pite(c, a, b)
        if ty.kind == 'int':
            if ty.width == 1:
                return t.ite(c, a, b, 0)
            if isinstance(a, PInt) or isinstance(b, PInt):
                return self.vmerge(c, a, b, ty)
            return t.ite(c, a, b, ty.width)
        if ty.kind in ('float', 'double'):
            return t_fite(c, a, b)
        if isinstance(a, Agg):
            els = ty.elems if ty.kind == 'struct' else [ty.elt] * ty.n
            return Agg([self.sel(c, x, y, e) for x, y, e in zip(a.v, b.v, els)])
        raise Unsupported('select %s' % ty.kind)

    def icmp(self, pred, ty, a, b):
        if isinstance(a, PInt) or isinstance(b, PInt):
            pa, pb = toptr(a), toptr(b)
            if pa is not None and pb is not None and (pred in ('eq', 'ne')):
                r = peq(pa, pb)
                return r if pred == 'eq' else t.not_(r)
            a, b = toint(a), toint(b)
        if ty.kind == 'ptr':
            if pred == 'eq':
                return peq(a, b)
            if pred == 'ne':
                return t.not_(peq(a, b))
            return pcmp(pred, a, b)
        if ty.kind == 'vector':
            return Agg([self.icmp(pred, ty.elt, x, y) for x, y in zip(a.v, b.v)])
        w = ty.width
        if w == 1:
            if pred == 'eq':
                return t.eqb(a, b)
            if pred == 'ne':
                return t.xorb(a, b)
            a = t.b2i(a, 8)
            b = t.b2i(b, 8)
            w = 8
            if pred[0] == 's':
                raise Unsupported('signed i1 compare')
        if pred == 'eq':
            return t.eq(w, a, b)
        if pred == 'ne':
            return t.not_(t.eq(w, a, b))
        if pred == 'ult':
            return t.ult(w, a, b)
        if pred == 'ugt':
            return t.ult(w, b, a)
        if pred == 'ule':
            return t.ule(w, a, b)
        if pred == 'uge':
            return t.ule(w, b, a)
        if pred == 'slt':
            return t.slt(w, a, b)
        if pred == 'sgt':
            return t.slt(w, b, a)
        if pred == 'sle':
            return t.sle(w, a, b)
        return t.sle(w, b, a)

    def peel(self, st, env, I, i, op, w, a, b, work):
        """one state per small quotient of a division by a variable; -> whether other quotients remain"""
        W = 64 if w <= 32 else 128
        if op in ('sdiv', 'srem') and (self.feasible(st, t.slt(w, a, 0)) or self.feasible(st, t.slt(w, b, 0))):
            return True
        A, Bw = t.zext(a, w, W), t.zext(b, w, W)
        for q in range(self.opts['peel_div']):
            here = t.ult(W, A, t.mulc(W, Bw, q + 1))
            if self.feasible(st, here):
                s2 = st.fork()
                try:
                    s2.assume(here)
                    e2 = dict(env)
                    e2[I.dst] = q if op in ('udiv', 'sdiv') else t.sub(w, a, t.mulc(w, b, q))
                    work.append((s2, e2, i))
                except Infeasible:
                    pass
            over = t.not_(here)
            if not self.feasible(st, over):
                return False
            st.assume(over)
        return True

    def branch(self, fn, B, c, tt, ff, st, env, out):
        n = t.not_(c)
        ft = self.feasible(st, c)
        ff_ = self.feasible(st, n) if ft else True
        if ft and ff_:
            s2 = st.fork()
            try:
                s2.assume(n)
                self.goto(fn, B, ff, s2, dict(env), out)
            except Infeasible:
                pass
            try:
                st.assume(c)
                self.goto(fn, B, tt, st, env, out)
            except Infeasible:
                pass
        elif ft:
            self.goto(fn, B, tt, st, env, out)
        else:
            self.goto(fn, B, ff, st, env, out)

    def switch(self, fn, B, I, st, env, out):
        v = toint(self.val(I.ops[0], env))
        dflt, cases = I.x
        if isc(v):
            if isinstance(v, bool):
                v = int(v)
            for k, b in cases:
                if k == v:
                    self.goto(fn, B, b, st, env, out)
                    return
            self.goto(fn, B, dflt, st, env, out)
            return
        if v.w == 0:
            v = t.b2i(v, 8)
        neg = []
        bytgt = {}
        for k, b in cases:
            bytgt.setdefault(b, []).append(t.eq(v.w, v, k))
            neg.append(t.not_(t.eq(v.w, v, k)))
        for b, cs in bytgt.items():
            c = t.or_(*cs)
            if b == dflt:
                continue
            if self.feasible(st, c):
                s2 = st.fork()
                try:
                    s2.assume(c)
                    self.goto(fn, B, b, s2, dict(env), out)
                except Infeasible:
                    pass
        c = t.or_(t.and_(*neg), *bytgt.get(dflt, []))
        if self.feasible(st, c):
            s2 = st.fork()
            try:
                s2.assume(c)
                self.goto(fn, B, dflt, s2, dict(env), out)
            except Infeasible:
                pass

    # ------------------------------------------------------------ calls
    def do_call(self, fn, I, st, env):
        cv, dest, byval, aty = I.x
        args = []
        for o, bv in zip(I.ops, byval):
            v = self.val(o, env)
            if bv is not None:
                c = self.alloc(st, 'byval', bv.size, 'stack', max(bv.align, 16))
                self.memcpy(st, Ptr(c, 0), v, bv.size)
                v = Ptr(c, 0)
            args.append(v)
        if cv[0] == 'fn':
            return self.call1(st, cv[1], args, I)
        if cv[0] == 'asm':
            return [(st, None)]
        f = self.val(cv, env)
        al = alts(f)
        if len(al) == 1:
            if not isinstance(al[0][1], FnPtr):
                self.oblige(st, False, 'memory', 'call through invalid pointer')
            return self.call1(st, al[0][1].name, args, I)
        # indirect call with several targets: fork
        res = []
        bad = []
        for g, q in al:
            if not isinstance(q, FnPtr):
                bad.append(t.not_(g))
        if bad:
            self.oblige(st, t.and_(*bad), 'memory', 'call through invalid pointer')
        for g, q in al:
            if isinstance(q, FnPtr) and self.feasible(st, g):
                s2 = st.fork()
                try:
                    s2.assume(g)
                    res += self.call1(s2, q.name, args, I)
                except Infeasible:
                    pass
        if not res:
            raise Infeasible()
        return res

    def call1(self, st, name, args, I):
        r = self.call(st, name, args, I)
        if not r:
            raise Infeasible()
        return r

    # ------------------------------------------------------------ floating point
    def fpop(self, st, op, I, a):
        import math
        w = I.ty.width

        def rnd(x):
            if w == 32 and I.ty.kind == 'float':
                import struct
                return struct.unpack('f', struct.pack('f', x))[0]
            return x
        if op in ('sitofp', 'uitofp'):
            v = toint(a[0])
            if isc(v):
                return rnd(float(t.sgn(v, I.x.width) if op == 'sitofp' else v))
            return FT(op, v, I.x.width, w)
        if all(isinstance(x, float) for x in a):
            if op == 'fadd':
                return rnd(a[0] + a[1])
            if op == 'fsub':
                return rnd(a[0] - a[1])
            if op == 'fmul':
                return rnd(a[0] * a[1])
            if op == 'fdiv':
                if a[1] == 0:
                    return math.copysign(math.inf, a[0]) if a[0] else math.nan
                return rnd(a[0] / a[1])
            if op == 'fneg':
                return -a[0]
            if op in ('fpext', 'fptrunc'):
                return rnd(a[0])
            if op in ('fptosi', 'fptoui'):
                return int(a[0]) & t.M(w)
            if op == 'fcmp':
                p = I.x[0]
                x, y = a
                un = math.isnan(x) or math.isnan(y)
                r = {'eq': x == y, 'gt': x > y, 'ge': x >= y, 'lt': x < y, 'le': x <= y, 'ne': x != y}
                if p == 'ord':
                    return not un
                if p == 'uno':
                    return un
                if p[0] == 'o':
                    return (not un) and r[p[1:]]
                return un or r[p[1:]]
        if op in ('fptosi', 'fptoui'):
            return t.fresh('fp2i', w)
        if op == 'fcmp':
            return fcmp(I.x[0], fbits(a[0], I.x[1].width), fbits(a[1], I.x[1].width), I.x[1].width)
        return FT(op, *a)


def fcmp(p, a, b, w):
    """IEEE comparison of two values given by their bits"""
    mag = t.M(w - 1)
    inf = ((1 << 8) - 1) << 23 if w == 32 else ((1 << 11) - 1) << 52
    if w not in (32, 64):
        raise Unsupported('comparison of a %d-bit floating point value' % w)
    ma, mb = t.band(w, a, mag), t.band(w, b, mag)
    uno = t.or_(t.ult(w, inf, ma), t.ult(w, inf, mb))
    zero = t.and_(t.eq(w, ma, 0), t.eq(w, mb, 0))

    def key(x, m):  # signed order of the keys is the order of the values, except for the zeros
        return t.ite(t.slt(w, x, 0), t.bxor(w, x, mag), x, w)
    ka, kb = key(a, ma), key(b, mb)
    eq = t.or_(zero, t.eq(w, a, b))
    lt = t.and_(t.not_(zero), t.slt(w, ka, kb))
    if p in ('false', 'true'):
        return p == 'true'
    if p == 'ord':
        return t.not_(uno)
    if p == 'uno':
        return uno
    r = {'eq': eq, 'ne': t.not_(eq), 'lt': lt, 'ge': t.not_(lt), 'le': t.or_(lt, eq),
         'gt': t.not_(t.or_(lt, eq))}[p[1:]]
    return t.and_(t.not_(uno), r) if p[0] == 'o' else t.or_(uno, r)


class FT:
    """opaque symbolic floating point value"""
    def __init__(self, *a):
        self.a = a


def t_fite(c, a, b):
    if isinstance(a, float) and isinstance(b, float) and fbits(a, 64) == fbits(b, 64):
        return a
    return a if a is b else FT('fite', c, a, b)


def fbits(v, w):
    import struct
    if isinstance(v, float):
        return struct.unpack('<Q' if w == 64 else '<I', struct.pack('<d' if w == 64 else '<f', v))[0]
    if isinstance(v, FT):
        if v.a[0] == 'bits':
            return v.a[1]
        if v.a[0] == 'fite':
            return t.ite(v.a[1], fbits(v.a[2], w), fbits(v.a[3], w), w)
        x = getattr(v, '_bits', None)
        if x is None:
            x = t.fresh('fbits', w)
            v._bits = x
        return x
    raise Unsupported('fbits')


def unfbits(v, w):
    import struct
    if isc(v):
        return struct.unpack('<d' if w == 64 else '<f', struct.pack('<Q' if w == 64 else '<I', v))[0]
    f = FT('bits', v)
    f._bits = v
    return f


def nsw(op, w, a, b):
    """no signed wrap"""
    if isc(a) and isc(b):
        x, y = t.sgn(a, w), t.sgn(b, w)
        r = {'add': x + y, 'sub': x - y, 'mul': x * y}[op]
        return -(1 << (w - 1)) <= r < (1 << (w - 1))
    h = 1 << (w - 1)
    if op == 'add':
        if isc(a):
            a, b = b, a
        if isc(b):
            s = t.sgn(b, w)
            if s >= 0:
                if t.ub(a) + s < h:
                    return True
                return t.sle(w, a, (h - 1 - s) & t.M(w))
            return t.sle(w, (-h - s) & t.M(w), a)
        if t.ub(a) + t.ub(b) < h:
            return True
        r = t.add(w + 1, t.sext(a, w, w + 1), t.sext(b, w, w + 1))
    elif op == 'sub':
        if isc(b):
            s = t.sgn(b, w)
            if s >= 0:
                return t.sle(w, (-h + s) & t.M(w), a)
            return t.sle(w, a, (h - 1 + s) & t.M(w))
        if isinstance(a, T) and t.ub(a) < h and t.ub(b) < h:
            return True
        if isc(a) and a < h and t.ub(b) < h:
            return True
        r = t.sub(w + 1, t.sext(a, w, w + 1), t.sext(b, w, w + 1))
    else:
        if t.ub(a) * t.ub(b) < h:
            return True
        r = t.mul(2 * w, t.sext(a, w, 2 * w), t.sext(b, w, 2 * w))
        return t.eq(2 * w, r, t.sext(t.ext(r, 2 * w, w - 1, 0), w, 2 * w))
    x = t.ext(r, w + 1, w, w)
    y = t.ext(r, w + 1, w - 1, w - 1)
    return t.eq(1, x, y)


GHOST_MERGE = {}
