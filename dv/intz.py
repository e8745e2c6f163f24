"""The same constraints over mathematical integers.

A bit-vector of width w becomes an integer in [0, 2^w); sums that may wrap get an explicit wrap count.
Operations without a linear integer meaning become unconstrained integers of the right range, so the
translation only ever allows more: 'unsat' here implies 'unsat' for the bit-vectors.  When nothing had
to be relaxed the translation is exact.
"""
import z3

import term as t
from term import T, isc


class Tr:
    def __init__(self, cs):
        self.memo = {}
        self.side = []
        self.relaxed = False
        self.n = 0
        self.vb = {}
        self.ints = {}
        self.sb = {}
        self.smemo = {}
        self.pref = self.signs(cs)
        self.bounds(cs)
        self.out = [self.b(c) for c in cs]

    def signs(self, cs):
        """terms compared as signed numbers: translated to integers of both signs"""
        pref = set()
        uns = set()
        eqs = []
        seen = set()
        st = [c for c in cs if isinstance(c, T)]
        nodes = []
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            nodes.append(x)
            st.extend(t._children(x))

        def mark(x, pref):
            st = [x]
            while st:
                x = st.pop()
                if not isinstance(x, T) or x.id in pref:
                    continue
                pref.add(x.id)
                if x.op == 'ite':
                    st.extend(x.a[1:3])
                elif x.op == 'lin':
                    st.extend(y for _, y in x.a[1])
        for x in nodes:
            if x.op in ('slt', 'sle') and x.a[2]:
                mark(x.a[0], pref)
                mark(x.a[1], pref)
            elif x.op == 'eq':
                eqs.append(x)
            elif x.op not in ('ite', 'lin'):
                for y in t._children(x):
                    if y.w:
                        mark(y, uns)
        for _ in range(3):
            n = len(pref)
            for x in eqs:
                if any(isinstance(y, T) and y.id in pref for y in x.a[:2]):
                    mark(x.a[0], pref)
                    mark(x.a[1], pref)
            if len(pref) == n:
                break
        return pref - uns

    # ------------------------------------------------ interval facts from the top-level conjuncts
    def bounds(self, cs):
        rel = []

        def atom(c, pos):
            if c.op == 'not':
                return atom(c.a[0], not pos)
            if c.op == 'and' and c.w == 0 and pos:
                for x in c.a:
                    atom(x, True)
                return
            if c.op == 'or' and c.w == 0 and not pos:
                for x in c.a:
                    atom(x, False)
                return
            if c.op in ('ult', 'ule'):
                x, y = c.a[0], c.a[1]
                strict = c.op == 'ult'
                if not pos:
                    x, y, strict = y, x, not strict
                rel.append((x, y, strict))
            elif c.op in ('slt', 'sle') and c.a[2]:
                x, y = c.a[0], c.a[1]
                strict = c.op == 'slt'
                if not pos:
                    x, y, strict = y, x, not strict
                rel.append((x, y, strict, c.a[2]))
            elif c.op == 'eq' and pos:
                rel.append((c.a[0], c.a[1], False))
                rel.append((c.a[1], c.a[0], False))
        for c in cs:
            if isinstance(c, T):
                atom(c, True)
        key = lambda x: x.id
        for _ in range(6):
            ch = False
            for r in rel:
                x, y, strict = r[:3]
                if len(r) == 4:
                    w = r[3]
                    lx, hx = self.srng(x, w)
                    ly, hy = self.srng(y, w)
                    nh = hy - 1 if strict else hy
                    nl = lx + 1 if strict else lx
                    if isinstance(x, T) and nh < hx:
                        self.sbound(x, lx, max(nh, lx), w)
                        ch = True
                    if isinstance(y, T) and nl > ly:
                        self.sbound(y, min(nl, hy), hy, w)
                        ch = True
                    continue
                lx, hx = self.rng(x)
                ly, hy = self.rng(y)
                if isinstance(x, T):
                    nh = hy - 1 if strict else hy
                    if nh < hx:
                        self.vb[key(x)] = (lx, max(nh, 0))
                        ch = True
                if isinstance(y, T):
                    nl = lx + 1 if strict else lx
                    ly, hy = self.rng(y)
                    if nl > ly:
                        self.vb[key(y)] = (nl, max(hy, nl))
                        ch = True
            if not ch:
                break

    def sbound(self, x, lo, hi, w):
        self.sb[x.id] = (lo, hi)
        if lo >= 0:
            l, h = self.rng(x)
            self.vb[x.id] = (max(l, lo), min(h, hi)) if max(l, lo) <= min(h, hi) else (lo, hi)

    def srng(self, x, w):
        h = 1 << (w - 1)
        if isc(x):
            v = t.sgn(int(x), w)
            return v, v
        l, u = self.rng(x)
        if u < h:
            b = self.sb.get(x.id)
            return (l, u) if b is None or max(l, b[0]) > min(u, b[1]) else (max(l, b[0]), min(u, b[1]))
        b = self.sb.get(x.id)
        if b:
            return b
        if x.op == 'ite':
            p, q = self.srng(x.a[1], w), self.srng(x.a[2], w)
            return min(p[0], q[0]), max(p[1], q[1])
        if x.op == 'lin':
            lo, hi = self.linrng(x, w)
            if lo >= -h and hi < h:
                return lo, hi
        if x.op == 'sext':
            return self.srng(x.a[0], x.a[0].w)
        return -h, h - 1

    def linrng(self, x, w):
        lo = hi = t.sgn(x.a[0], w)
        for co, y in x.a[1]:
            c = t.sgn(co, w)
            l, h = self.srng(y, w)
            lo += c * (l if c > 0 else h)
            hi += c * (h if c > 0 else l)
        return lo, hi

    def rng(self, x):
        if isc(x):
            return int(x), int(x)
        b = self.vb.get(x.id)
        if b:
            return b
        o = x.op
        if o == 'zext':
            return self.rng(x.a[0])
        if o == 'lin':
            lo = hi = x.a[0]
            if lo >= 1 << (x.w - 1):
                lo = hi = lo - (1 << x.w)
            for co, y in x.a[1]:
                c = t.sgn(co, x.w)
                l, h = self.rng(y)
                lo += c * (l if c > 0 else h)
                hi += c * (h if c > 0 else l)
            if lo >= 0 and hi < (1 << x.w):
                return lo, hi
        if o == 'ite':
            a, b = self.rng(x.a[1]), self.rng(x.a[2])
            return min(a[0], b[0]), max(a[1], b[1])
        if o == 'ext' and x.a[2] == 0:
            l, h = self.rng(x.a[0])
            if h < (1 << x.w):
                return l, h
        return 0, t.ub(x)

    # ------------------------------------------------ terms
    def new(self, lo, hi, name='k'):
        self.n += 1
        v = z3.Int('%s!%d' % (name, self.n))
        self.side.append(v >= lo)
        self.side.append(v <= hi)
        return v

    def b(self, c):
        if isc(c):
            return z3.BoolVal(bool(c))
        return self.go(c)

    def v(self, x):
        if isc(x):
            return z3.IntVal(int(x))
        return self.memo[x.id]

    def go(self, root):
        st = [root]
        while st:
            x = st[-1]
            if x.id in self.memo:
                st.pop()
                continue
            ch = [c for c in t._children(x) if c.id not in self.memo]
            if ch:
                st.extend(ch)
                continue
            v = self.memo[x.id] = self.one(x)
            if x.id in self.sb and x.w and self.sb[x.id][0] >= 0:
                # the range was taken from a signed comparison, whose translation relies on it
                self.side.append(v < (1 << (x.w - 1)))
            st.pop()
        return self.memo[root.id]

    def wrap(self, e, lo, hi, w):
        """e modulo 2^w for an integer expression known to be in [lo, hi]"""
        m = 1 << w
        a, b = lo // m, hi // m
        if a == b:
            return e - a * m if a else e
        if b == a + 1:
            cut = b * m
            return z3.If(e >= cut, e - b * m, e - a * m if a else e)
        k = self.new(a, b)
        r = self.new(0, m - 1, 'r')
        self.side.append(e == k * m + r)
        return r

    def signed(self, x, w):
        if isc(x):
            return z3.IntVal(t.sgn(int(x), w))
        h = 1 << (w - 1)
        l, u = self.rng(x)
        if u < h:
            return self.v(x)
        if l >= h:
            return self.v(x) - (1 << w)
        r = self.smemo.get(x.id)
        if r is not None:
            return r
        if x.op == 'ite':
            r = z3.If(self.v(x.a[0]), self.signed(x.a[1], w), self.signed(x.a[2], w))
        elif x.op == 'lin' and x.id in self.pref:
            lo, hi = self.linrng(x, w)
            e = z3.IntVal(t.sgn(x.a[0], w))
            for co, y in x.a[1]:
                c = t.sgn(co, w)
                y = self.signed(y, w)
                e = e + (y if c == 1 else c * y)
            r = self.wrap(e + h, lo + h, hi + h, w) - h if lo < -h or hi >= h else e
        elif x.op == 'sext':
            r = self.signed(x.a[0], x.a[0].w)
        else:
            v = self.v(x)
            r = z3.If(v >= h, v - (1 << w), v)
        self.smemo[x.id] = r
        return r

    def relax(self, x):
        self.relaxed = True
        if x.w == 0:
            self.n += 1
            return z3.Bool('b!%d' % self.n)
        return self.new(0, t.ub(x), 'u')

    def div(self, x, n, rem):
        """quotient and remainder of an unsigned term by a positive constant"""
        l, h = self.rng(x)
        q = self.new(l // n, h // n, 'q')
        r = self.new(0, n - 1, 'm')
        self.side.append(self.v(x) == q * n + r)
        return r if rem else q

    def one(self, x):
        o, a, w = x.op, x.a, x.w
        if o == 'var':
            if w == 0:
                v = z3.Bool('i_' + a[0])
            else:
                v = z3.Int('i_' + a[0])
                self.ints[x] = v
                if x.id in self.pref and self.rng(x)[1] >= 1 << (w - 1):
                    h = 1 << (w - 1)
                    self.side.append(v >= -h)
                    self.side.append(v < h)
                    self.smemo[x.id] = v
                    return z3.If(v >= 0, v, v + 2 * h)
                self.side.append(v >= 0)
                self.side.append(v < (1 << w))
            return v
        if o == 'lin':
            e = None
            lo = hi = 0
            c0 = t.sgn(a[0], w)
            e = z3.IntVal(c0)
            lo = hi = c0
            for co, y in a[1]:
                c = t.sgn(co, w)
                l, h = self.rng(y)
                lo += c * (l if c > 0 else h)
                hi += c * (h if c > 0 else l)
                e = e + (self.v(y) if c == 1 else c * self.v(y))
            return self.wrap(e, lo, hi, w)
        if o == 'zext':
            return self.v(a[0])
        if o == 'sext':
            s = self.signed(a[0], a[0].w)
            if self.rng(a[0])[1] < (1 << (a[0].w - 1)):
                return s
            return z3.If(s < 0, s + (1 << w), s)
        if o == 'ext':
            y, hi, lo = a
            l, h = self.rng(y)
            if lo == 0:
                if h < (1 << w):
                    return self.v(y)
                return self.div(y, 1 << w, True)
            if h < (1 << (hi + 1)):
                return self.div(y, 1 << lo, False)
            q = self.new(0, h >> (hi + 1), 'q')
            m = self.new(0, (1 << w) - 1, 'm')
            r = self.new(0, (1 << lo) - 1, 'm')
            self.side.append(self.v(y) == q * (1 << (hi + 1)) + m * (1 << lo) + r)
            return m
        if o == 'cat':
            e = None
            for p, pw in a:
                pv = self.v(p)
                e = pv if e is None else e * (1 << pw) + pv
            return e
        if o == 'not':
            return z3.Not(self.v(a[0]))
        if w == 0 and o == 'and':
            return z3.And(*[self.b(y) if isc(y) else self.v(y) for y in a])
        if w == 0 and o == 'or':
            return z3.Or(*[self.b(y) if isc(y) else self.v(y) for y in a])
        if o == 'iff':
            return self.v(a[0]) == self.v(a[1])
        if o == 'iteb':
            bv = lambda y: z3.BoolVal(bool(y)) if isc(y) else self.v(y)
            return z3.If(self.v(a[0]), bv(a[1]), bv(a[2]))
        if o == 'ite':
            return z3.If(self.v(a[0]), self.v(a[1]), self.v(a[2]))
        if o == 'eq' and a[2] and any(isinstance(y, T) and y.id in self.pref for y in a[:2]):
            return self.signed(a[0], a[2]) == self.signed(a[1], a[2])
        if o == 'eq':
            return self.v(a[0]) == self.v(a[1])
        if o == 'ult':
            return self.v(a[0]) < self.v(a[1])
        if o == 'ule':
            return self.v(a[0]) <= self.v(a[1])
        if o == 'slt':
            return self.signed(a[0], a[2]) < self.signed(a[1], a[2])
        if o == 'sle':
            return self.signed(a[0], a[2]) <= self.signed(a[1], a[2])
        if o == 'app':
            args = [(a[i], a[i + 1]) for i in range(1, len(a), 2)]
            srt = [z3.BoolSort() if p[1] == 0 else z3.IntSort() for p in args]
            f = z3.Function('f_%s_%d_%s' % (a[0], w, '_'.join(str(p[1]) for p in args)), *srt,
                            z3.BoolSort() if w == 0 else z3.IntSort())
            e = f(*[(z3.BoolVal(bool(p)) if isc(p) else self.v(p)) if pw == 0 else self.v(p) for p, pw in args])
            if w:
                self.side.append(e >= 0)
                self.side.append(e < (1 << w))
            return e
        if o == 'and':
            for p, q in ((a[0], a[1]), (a[1], a[0])):
                if isc(q) and q & (q + 1) == 0 and isinstance(p, T):
                    if self.rng(p)[1] <= q:
                        return self.v(p)
                    return self.div(p, q + 1, True)
                if isc(q) and isinstance(p, T):
                    # ones followed by zeros: clears the low bits
                    inv = ((1 << w) - 1) ^ q
                    if inv & (inv + 1) == 0:
                        return self.v(p) - self.div(p, inv + 1, True)
        if o == 'lshr' and isc(a[1]) and isinstance(a[0], T):
            return self.div(a[0], 1 << a[1], False) if a[1] < w else z3.IntVal(0)
        if o == 'shl' and isc(a[1]) and isinstance(a[0], T) and a[1] < w:
            l, h = self.rng(a[0])
            return self.wrap(self.v(a[0]) * (1 << a[1]), l << a[1], h << a[1], w)
        if o in ('udiv', 'urem') and isc(a[1]) and a[1] and isinstance(a[0], T):
            return self.div(a[0], a[1], o == 'urem')
        if w and o in ('and', 'or', 'xor') and all(self.rng(y)[1] <= 1 for y in a):
            bs = [self.v(y) == 1 for y in a]
            e = z3.And(*bs) if o == 'and' else z3.Or(*bs) if o == 'or' else None
            if o == 'xor':
                e = bs[0]
                for y in bs[1:]:
                    e = z3.Xor(e, y)
            return z3.If(e, z3.IntVal(1), z3.IntVal(0))
        return self.relax(x)


def check(cs, ms, model=False, exact_only=False):
    """(answer, exact, {var: value})"""
    tr = Tr(cs)
    if exact_only and tr.relaxed:
        return z3.unknown, False, None
    s = z3.SolverFor('QF_UFLIA') if any(v.op == 'app' for v in t.vars_of(cs)) else z3.SolverFor('QF_LIA')
    s.set('timeout', int(ms))
    s.add(tr.side)
    s.add(tr.out)
    r = s.check()
    if r == z3.sat and model:
        m = s.model()
        vals = {}
        for x, v in tr.ints.items():
            e = m.eval(v, model_completion=True)
            if z3.is_int_value(e):
                vals[x] = e.as_long() % (1 << x.w)
        return r, not tr.relaxed, vals
    return r, not tr.relaxed, None
