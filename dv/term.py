"""Hash-consed bit-vector terms with light normalisation, translated to SMT on demand.

Concrete values are plain Python ints (bit-vectors, always reduced modulo 2^w) and
bools; symbolic ones are T.  Sums are kept in a linear normal form so that address
differences cancel syntactically.
"""
import z3


class T:
    __slots__ = ('op', 'a', 'w', 'id', 'z', '_ub', '__weakref__')

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError('symbolic term used as a Python bool')


_tab = {}
_cnt = [0]


def mk(op, w, *a):
    if op == 'cat':
        k = (op, w) + tuple(((p.id, 't') if isinstance(p, T) else p, pw) for p, pw in a)
    else:
        k = (op, w) + tuple((x.id, 't') if isinstance(x, T) else x for x in a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.w = w
        t.a = a
        t.z = None
        t._ub = None
        _cnt[0] += 1
        t.id = _cnt[0]
        _tab[k] = t
    return t


def mklin(w, c, terms):
    k = ('lin', w, c) + tuple((co, t.id) for co, t in terms)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = 'lin'
        t.w = w
        t.a = (c, terms)
        t.z = None
        t._ub = None
        _cnt[0] += 1
        t.id = _cnt[0]
        _tab[k] = t
    return t


_fresh = {}


def var(name, w):
    return mk('var', w, name)


def fresh(name, w):
    n = _fresh.get(name, 0)
    _fresh[name] = n + 1
    return var('%s!%d' % (name, n), w)


def M(w):
    return (1 << w) - 1


def isc(x):
    return not isinstance(x, T)


def sgn(x, w):
    return x - (1 << w) if x >> (w - 1) else x


# ---------------------------------------------------------------- linear sums
def _lin(x, w):
    if isinstance(x, T):
        if x.op == 'lin':
            return x.a
        return (0, ((1, x),))
    return (x, ())


def _mkl(w, c, d):
    if isinstance(d, _D):
        c += d.c
    c &= M(w)
    ts = tuple(sorted(((co & M(w), t) for t, co in d.items() if co & M(w)), key=lambda p: p[1].id))
    if not ts:
        return c
    if c == 0 and len(ts) == 1 and ts[0][0] == 1:
        return ts[0][1]
    return mklin(w, c, ts)


def add(w, a, b):
    if isc(a) and isc(b):
        return (a + b) & M(w)
    if isc(b) and b == 0:
        return a
    if isc(a) and a == 0:
        return b
    ca, ta = _lin(a, w)
    cb, tb = _lin(b, w)
    d = {}
    for co, t in ta:
        d[t] = co
    for co, t in tb:
        d[t] = d.get(t, 0) + co
    return _mkl(w, ca + cb, d)


def mulc(w, a, k):
    k &= M(w)
    if isc(a):
        return (a * k) & M(w)
    if k == 1:
        return a
    if k == 0:
        return 0
    c, ts = _lin(a, w)
    return _mkl(w, c * k, {t: co * k for co, t in ts})


def neg(w, a):
    return mulc(w, a, M(w))


def sub(w, a, b):
    if isc(a) and isc(b):
        return (a - b) & M(w)
    return add(w, a, mulc(w, b, M(w)))


def mul(w, a, b):
    if isc(b):
        return mulc(w, a, b)
    if isc(a):
        return mulc(w, b, a)
    if a.id > b.id:
        a, b = b, a
    return mk('mul', w, a, b)


# ---------------------------------------------------------------- upper bounds
def ub(x, w=None):
    """an unsigned upper bound"""
    if isc(x):
        return int(x)
    if x._ub is not None:
        return x._ub
    m = M(x.w)
    r = m
    o = x.op
    if o == 'zext':
        r = ub(x.a[0])
    elif o == 'ite':
        r = max(ub(x.a[1]), ub(x.a[2]))
    elif o == 'and':
        r = min(ub(x.a[0]), ub(x.a[1]))
    elif o == 'or' or o == 'xor':
        u = max(ub(x.a[0]), ub(x.a[1]))
        r = min(m, (1 << u.bit_length()) - 1)
    elif o == 'urem' and isc(x.a[1]) and x.a[1]:
        r = min(ub(x.a[0]), x.a[1] - 1)
    elif o == 'udiv' and isc(x.a[1]) and x.a[1]:
        r = ub(x.a[0]) // x.a[1]
    elif o == 'lin':
        s = x.a[0]
        for co, t in x.a[1]:
            s += co * ub(t)
            if s > m:
                break
        r = min(m, s)
        if s > m:
            r = m
    elif o == 'cat':
        r = 0
        for p in x.a:
            pw = p[1]
            r = (r << pw) | ub(p[0])
    x._ub = r
    return r


# ---------------------------------------------------------------- booleans
def not_(a):
    if isc(a):
        return not a
    if a.op == 'not':
        return a.a[0]
    if a.op == 'ult':
        return mk('ule', 0, a.a[1], a.a[0], a.a[2])
    if a.op == 'ule':
        return mk('ult', 0, a.a[1], a.a[0], a.a[2])
    if a.op == 'slt':
        return mk('sle', 0, a.a[1], a.a[0], a.a[2])
    if a.op == 'sle':
        return mk('slt', 0, a.a[1], a.a[0], a.a[2])
    return mk('not', 0, a)


def and_(*xs):
    out = {}
    for x in xs:
        if isc(x):
            if not x:
                return False
            continue
        if x.op == 'and' and x.w == 0:
            for y in x.a:
                out[y.id] = y
        else:
            out[x.id] = x
    if not out:
        return True
    for y in out.values():
        n = not_(y)
        if n.id in out:
            return False
    if len(out) == 1:
        return next(iter(out.values()))
    return mk('and', 0, *sorted(out.values(), key=lambda t: t.id))


def or_(*xs):
    out = {}
    for x in xs:
        if isc(x):
            if x:
                return True
            continue
        if x.op == 'or' and x.w == 0:
            for y in x.a:
                out[y.id] = y
        else:
            out[x.id] = x
    if not out:
        return False
    for y in out.values():
        n = not_(y)
        if n.id in out:
            return True
    if len(out) == 1:
        return next(iter(out.values()))
    return mk('or', 0, *sorted(out.values(), key=lambda t: t.id))


def implies(a, b):
    return or_(not_(a), b)


def xorb(a, b):
    if isc(a):
        return not_(b) if a else b
    if isc(b):
        return not_(a) if b else a
    if a is b:
        return False
    return mk('iff', 0, not_(a), b)


def eqb(a, b):
    return not_(xorb(a, b))


def ite(c, a, b, w):
    """w==0 : booleans"""
    if isc(c):
        return a if c else b
    if a is b:
        return a
    if isc(a) and isc(b) and a == b:
        return a
    if w == 0:
        if isc(a):
            return or_(c, b) if a else and_(not_(c), b)
        if isc(b):
            return or_(not_(c), a) if b else and_(c, a)
        return mk('iteb', 0, c, a, b)
    if c.op == 'not':
        c, a, b = c.a[0], b, a
    if isinstance(a, T) and a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if isinstance(b, T) and b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b or (isc(a) and isc(b) and a == b):
        return a
    # common linear part out
    if w > 1 and (isinstance(a, T) and isinstance(b, T)):
        d = sub(w, a, b)
        if isc(d) and not (a.op == 'ite' and b.op == 'ite'):
            base = b
            return add(w, base, mk('ite', w, c, d, 0)) if (b.op == 'lin' or a.op == 'lin') else mk('ite', w, c, a, b)
    return mk('ite', w, c, a, b)


# ---------------------------------------------------------------- comparisons
def eq(w, a, b):
    if isc(a) and isc(b):
        return a == b
    if w == 0:
        return eqb(a, b)
    if a is b:
        return True
    d = sub(w, a, b)
    if isc(d):
        return d == 0
    if isc(a):
        a, b = b, a
    if isc(b):
        if a.op == 'ite':
            x, y = a.a[1], a.a[2]
            if isc(x) or isc(y):
                return ite(a.a[0], eq(w, x, b), eq(w, y, b), 0)
        if a.op == 'zext':
            iw = a.a[0].w
            if b >> iw:
                return False
            return eq(iw, a.a[0], b)
        if a.op == 'sext':
            iw = a.a[0].w
            lo = b & M(iw)
            if sext_c(lo, iw, w) != b:
                return False
            return eq(iw, a.a[0], lo)
        if a.op == 'cat':
            cs = []
            sh = w
            for p, pw in a.a:
                sh -= pw
                cs.append(eq(pw, p, (b >> sh) & M(pw)))
            return and_(*cs)
        if ub(a) < b:
            return False
        if a.op == 'lin':
            # move the constant to the right
            c, ts = a.a
            if c:
                a2 = _mkl(w, 0, {t: co for co, t in ts})
                return eq(w, a2, (b - c) & M(w))
            if len(ts) == 1 and ts[0][0] == M(w):
                return eq(w, ts[0][1], (-b) & M(w))
            if len(ts) == 1 and ts[0][0] > 1:
                co, t = ts[0]
                tz = (co & -co).bit_length() - 1
                if tz and co == (1 << tz) and ub(t) < (1 << (w - tz)):
                    if b & M(tz):
                        return False
                    return eq(w, t, b >> tz)
        if a.op == 'b2i':
            return (a.a[0] if b == 1 else (not_(a.a[0]) if b == 0 else False))
        return mk('eq', 0, a, b, w)
    # both symbolic : canonical via difference when small
    if isinstance(d, T) and d.op == 'lin' and len(d.a[1]) <= 1 and (a.op == 'lin' or b.op == 'lin'):
        return eq(w, d, 0)
    if a.op == 'zext' and b.op == 'zext' and a.a[0].w == b.a[0].w:
        return eq(a.a[0].w, a.a[0], b.a[0])
    if a.op == 'sext' and b.op == 'sext' and a.a[0].w == b.a[0].w:
        return eq(a.a[0].w, a.a[0], b.a[0])
    if a.op == 'cat' and b.op == 'cat' and [p[1] for p in a.a] == [p[1] for p in b.a]:
        return and_(*[eq(p[1], p[0], q[0]) for p, q in zip(a.a, b.a)])
    if a.id > b.id:
        a, b = b, a
    return mk('eq', 0, a, b, w)


def ult(w, a, b):
    if isc(a) and isc(b):
        return a < b
    if a is b:
        return False
    if isc(b):
        if b == 0:
            return False
        if ub(a) < b:
            return True
        if b == 1:
            return eq(w, a, 0)
        if a.op == 'ite' and isc(a.a[1]) and isc(a.a[2]):
            return ite(a.a[0], a.a[1] < b, a.a[2] < b, 0)
    if isc(a):
        if a >= ub(b):
            return False
        if a == 0:
            return not_(eq(w, b, 0))
        if b.op == 'ite' and isc(b.a[1]) and isc(b.a[2]):
            return ite(b.a[0], a < b.a[1], a < b.a[2], 0)
    if isinstance(a, T) and isinstance(b, T) and a.op == 'zext' and b.op == 'zext' and a.a[0].w == b.a[0].w:
        return ult(a.a[0].w, a.a[0], b.a[0])
    return mk('ult', 0, a, b, w)


def ule(w, a, b):
    return not_(ult(w, b, a))


def slt(w, a, b):
    if isc(a) and isc(b):
        return sgn(a, w) < sgn(b, w)
    if a is b:
        return False
    h = 1 << (w - 1)
    if (isc(a) and a < h or isinstance(a, T) and ub(a) < h) and (isc(b) and b < h or isinstance(b, T) and ub(b) < h):
        return ult(w, a, b)
    if isc(b) and b == h:
        return False
    if isc(b) and b == 0 and isinstance(a, T) and ub(a) < h:
        return False
    if isc(b) and isinstance(a, T) and a.op == 'ite' and isc(a.a[1]) and isc(a.a[2]):
        return ite(a.a[0], slt(w, a.a[1], b), slt(w, a.a[2], b), 0)
    if isc(a) and isinstance(b, T) and b.op == 'ite' and isc(b.a[1]) and isc(b.a[2]):
        return ite(b.a[0], slt(w, a, b.a[1]), slt(w, a, b.a[2]), 0)
    if isinstance(a, T) and isinstance(b, T) and a.op == 'sext' and b.op == 'sext' and a.a[0].w == b.a[0].w:
        return slt(a.a[0].w, a.a[0], b.a[0])
    if isinstance(a, T) and a.op == 'sext' and isc(b):
        iw = a.a[0].w
        sb = sgn(b, w)
        if sb >= (1 << (iw - 1)):
            return True
        if sb <= -(1 << (iw - 1)):
            return False
        return slt(iw, a.a[0], sb & M(iw))
    if isinstance(b, T) and b.op == 'sext' and isc(a):
        iw = b.a[0].w
        sa = sgn(a, w)
        if sa >= (1 << (iw - 1)) - 1:
            return False
        if sa < -(1 << (iw - 1)):
            return True
        return slt(iw, sa & M(iw), b.a[0])
    return mk('slt', 0, a, b, w)


def sle(w, a, b):
    return not_(slt(w, b, a))


# ---------------------------------------------------------------- widths
def sext_c(x, w, nw):
    return sgn(x, w) & M(nw)


def zext(x, w, nw):
    if w == nw:
        return x
    if isc(x):
        return x
    if x.op == 'zext':
        return mk('zext', nw, x.a[0])
    if x.op == 'ite' and (isc(x.a[1]) or isc(x.a[2])):
        return ite(x.a[0], zext(x.a[1], w, nw), zext(x.a[2], w, nw), nw)
    if x.op == 'lin':
        s = x.a[0] + sum(co * ub(t) for co, t in x.a[1])
        if s <= M(w):
            return _mkl(nw, x.a[0], _merge([(zext(t, w, nw), co) for co, t in x.a[1]]))
    return mk('zext', nw, x)


def _merge(ps):
    d = {}
    for t, co in ps:
        d[t] = d.get(t, 0) + co
    return d


def sext(x, w, nw):
    if w == nw:
        return x
    if isc(x):
        return sext_c(x, w, nw)
    if x.op == 'zext':
        return mk('zext', nw, x.a[0])
    if x.op == 'sext':
        return mk('sext', nw, x.a[0])
    if ub(x) < (1 << (w - 1)):
        return zext(x, w, nw)
    if x.op == 'ite' and (isc(x.a[1]) or isc(x.a[2])):
        return ite(x.a[0], sext(x.a[1], w, nw), sext(x.a[2], w, nw), nw)
    return mk('sext', nw, x)


_ext = {}


def ext(x, w, hi, lo):
    """bits hi..lo (inclusive)"""
    nw = hi - lo + 1
    if nw == w:
        return x
    if isc(x):
        return (x >> lo) & M(nw)
    k = (x.id, hi, lo)
    r = _ext.get(k)
    if r is None:
        r = _ext[k] = _ext1(x, w, hi, lo, nw)
    return r


def _ext1(x, w, hi, lo, nw):
    o = x.op
    if o == 'ext':
        l2 = x.a[2]
        return ext(x.a[0], x.a[0].w, hi + l2, lo + l2)
    if o == 'zext':
        iw = x.a[0].w
        if lo >= iw:
            return 0
        if hi < iw:
            return ext(x.a[0], iw, hi, lo)
        return zext(ext(x.a[0], iw, iw - 1, lo), iw - lo, nw)
    if o == 'sext':
        iw = x.a[0].w
        if hi < iw:
            return ext(x.a[0], iw, hi, lo)
        if lo < iw:
            return sext(ext(x.a[0], iw, iw - 1, lo), iw - lo, nw)
    if o == 'cat':
        sh = w
        parts = []
        for p, pw in x.a:
            sh -= pw
            plo, phi = sh, sh + pw - 1
            l = max(lo, plo)
            h = min(hi, phi)
            if l <= h:
                parts.append((ext(p, pw, h - plo, l - plo), h - l + 1))
        return cat(parts)
    if o == 'ite':
        if isc(x.a[1]) or isc(x.a[2]) or nw <= 8 or True:
            return ite(x.a[0], ext(x.a[1], w, hi, lo), ext(x.a[2], w, hi, lo), nw)
    if o == 'and' or o == 'or' or o == 'xor':
        return {'and': band, 'or': bor, 'xor': bxor}[o](nw, ext(x.a[0], w, hi, lo), ext(x.a[1], w, hi, lo))
    if o == 'lin' and lo == 0:
        return _mkl(nw, x.a[0], _merge2([(ext(t, w, hi, 0), co) for co, t in x.a[1]], nw))
    if o == 'lin' and x.a[0] == 0 and len(x.a[1]) == 1:
        co, t = x.a[1][0]
        tz = (co & -co).bit_length() - 1
        if co == 1 << tz:
            # shifted left by tz
            if lo >= tz:
                return ext(t, w, hi - tz, lo - tz)
            if hi < tz:
                return 0
            return cat([(ext(t, w, hi - tz, 0), hi - tz + 1), (0, tz - lo)])
    return mk('ext', nw, x, hi, lo)


def _merge2(ps, w):
    d = {}
    const = 0
    for t, co in ps:
        if isc(t):
            const += t * co
        elif t.op == 'lin':
            const += t.a[0] * co
            for c2, t2 in t.a[1]:
                d[t2] = d.get(t2, 0) + c2 * co
        else:
            d[t] = d.get(t, 0) + co
    if const & M(w):
        return _D(d, const)
    return d


class _D(dict):
    def __init__(self, d, c):
        super().__init__(d)
        self.c = c


def trunc(x, w, nw):
    return ext(x, w, nw - 1, 0)


def cat(parts):
    """parts: [(term, width)] most significant first"""
    out = []
    for p, pw in parts:
        if pw == 0:
            continue
        if isinstance(p, T) and p.op == 'cat':
            sub_ = list(p.a)
        elif isinstance(p, T) and p.op == 'zext' and not (out and False):
            iw = p.a[0].w
            sub_ = [(0, pw - iw), (p.a[0], iw)]
        else:
            sub_ = [(p, pw)]
        for q, qw in sub_:
            if out:
                r, rw = out[-1]
                if isc(r) and isc(q):
                    out[-1] = ((r << qw) | q, rw + qw)
                    continue
                if isinstance(r, T) and isinstance(q, T) and r.op == 'ext' and q.op == 'ext' and \
                        r.a[0] is q.a[0] and r.a[2] == q.a[1] + 1:
                    out[-1] = (ext(r.a[0], r.a[0].w, r.a[1], q.a[2]), rw + qw)
                    continue
                if isinstance(r, T) and isinstance(q, T) and r.op == 'ext' and r.a[0] is q and r.a[2] == qw and False:
                    continue
            out.append((q, qw))
    if not out:
        return 0
    if len(out) == 1:
        return out[0][0]
    w = sum(p[1] for p in out)
    if len(out) == 2 and isc(out[0][0]) and out[0][0] == 0:
        return zext(out[1][0], out[1][1], w)
    # distribute over a common ite condition
    c0 = None
    for p, pw in out:
        if isinstance(p, T) and p.op == 'ite':
            if c0 is None:
                c0 = p.a[0]
            elif c0 is not p.a[0]:
                c0 = None
                break
        elif isc(p):
            continue
        else:
            c0 = None
            break
    if c0 is not None:
        return ite(c0, cat([(p.a[1] if isinstance(p, T) else p, pw) for p, pw in out]),
                   cat([(p.a[2] if isinstance(p, T) else p, pw) for p, pw in out]), w)
    return mk('cat', w, *out)


# ---------------------------------------------------------------- bitwise
def band(w, a, b):
    if isc(a) and isc(b):
        return a & b
    if isc(a):
        a, b = b, a
    if isc(b):
        if b == 0:
            return 0
        if b == M(w):
            return a
        k = b.bit_length()
        if b == M(k):
            if ub(a) <= b:
                return a
            return zext(ext(a, w, k - 1, 0), k, w)
        tz = (b & -b).bit_length() - 1
        hi = b.bit_length() - 1
        if b == (M(hi - tz + 1) << tz):      # contiguous mask
            return cat([(0, w - 1 - hi), (ext(a, w, hi, tz), hi - tz + 1), (0, tz)])
        if a.op == 'ite' and (isc(a.a[1]) and isc(a.a[2])):
            return ite(a.a[0], a.a[1] & b, a.a[2] & b, w)
        return mk('and', w, a, b)
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk('and', w, a, b)


def _bitparts(x, w):
    """as list of (term,width) msb first if x is a cat/zext/const/shifted"""
    if isc(x):
        return [(x, w)]
    if x.op == 'cat':
        return list(x.a)
    if x.op == 'zext':
        return [(0, w - x.a[0].w), (x.a[0], x.a[0].w)]
    if x.op == 'lin' and x.a[0] == 0 and len(x.a[1]) == 1:
        co, t = x.a[1][0]
        tz = (co & -co).bit_length() - 1
        if co == 1 << tz and tz:
            lowpart = ext(t, w, w - 1 - tz, 0)
            return _bitparts(lowpart, w - tz) + [(0, tz)]
    return [(x, w)]


def bor(w, a, b):
    if isc(a) and isc(b):
        return a | b
    if isc(a):
        a, b = b, a
    if isc(b):
        if b == 0:
            return a
        if b == M(w):
            return b
    if a is b:
        return a
    pa = _bitparts(a, w)
    pb = _bitparts(b, w)
    if len(pa) > 1 or len(pb) > 1:
        # split both at common boundaries, merge when one side is zero (or constant)
        cuts = set()
        s = w
        for p, pw in pa:
            cuts.add(s)
            s -= pw
        s = w
        for p, pw in pb:
            cuts.add(s)
            s -= pw
        cuts.add(0)
        cl = sorted(cuts, reverse=True)

        def at(ps, hi, lo):
            s = w
            for p, pw in ps:
                s -= pw
                if s <= lo and hi < s + pw:
                    return ext(p, pw, hi - s, lo - s)
            raise AssertionError
        out = []
        good = True
        for i in range(len(cl) - 1):
            hi, lo = cl[i] - 1, cl[i + 1]
            x = at(pa, hi, lo)
            y = at(pb, hi, lo)
            if isc(x) and x == 0:
                out.append((y, hi - lo + 1))
            elif isc(y) and y == 0:
                out.append((x, hi - lo + 1))
            elif isc(x) and isc(y):
                out.append((x | y, hi - lo + 1))
            elif isc(x) and x == M(hi - lo + 1) or isc(y) and y == M(hi - lo + 1):
                out.append((M(hi - lo + 1), hi - lo + 1))
            else:
                good = False
                break
        if good:
            return cat(out)
    if isinstance(a, T) and isinstance(b, T) and a.id > b.id:
        a, b = b, a
    return mk('or', w, a, b)


def bxor(w, a, b):
    if isc(a) and isc(b):
        return a ^ b
    if isc(a):
        a, b = b, a
    if isc(b):
        if b == 0:
            return a
        if b == M(w):
            return sub(w, M(w), a)     # ~a = -1 - a
        if a.op == 'xor' and isc(a.a[1]):
            return bxor(w, a.a[0], a.a[1] ^ b)
        return mk('xor', w, a, b)
    if a is b:
        return 0
    if a.id > b.id:
        a, b = b, a
    return mk('xor', w, a, b)


def shl(w, a, b):
    if isc(b):
        if b >= w:
            return 0
        return mulc(w, a, 1 << b)
    if isc(a) and a == 0:
        return 0
    return mk('shl', w, a, b)


def lshr(w, a, b):
    if isc(b):
        if b >= w:
            return 0
        if isc(a):
            return a >> b
        if b == 0:
            return a
        return zext(ext(a, w, w - 1, b), w - b, w)
    if isc(a) and a == 0:
        return 0
    return mk('lshr', w, a, b)


def ashr(w, a, b):
    if isc(b):
        b = min(b, w - 1)
        if isc(a):
            return (sgn(a, w) >> b) & M(w)
        if b == 0:
            return a
        return sext(ext(a, w, w - 1, b), w - b, w)
    if isc(a) and a == 0:
        return 0
    return mk('ashr', w, a, b)


def udiv(w, a, b):
    if isc(b) and b:
        if isc(a):
            return a // b
        if b & (b - 1) == 0:
            return lshr(w, a, b.bit_length() - 1)
        if ub(a) < b:
            return 0
        if a.op == 'lin':
            c, ts = a.a
            if c % b == 0 and all(co % b == 0 for co, t in ts) and c + sum(co * ub(t) for co, t in ts) <= M(w):
                return _mkl(w, c // b, {t: co // b for co, t in ts})
    return mk('udiv', w, a, b)


def urem(w, a, b):
    if isc(b) and b:
        if isc(a):
            return a % b
        if b & (b - 1) == 0:
            return band(w, a, b - 1)
        if ub(a) < b:
            return a
    return mk('urem', w, a, b)


def sdiv(w, a, b):
    if isc(a) and isc(b) and b:
        x, y = sgn(a, w), sgn(b, w)
        q = abs(x) // abs(y)
        return (q if (x < 0) == (y < 0) else -q) & M(w)
    if isc(b) and b == 1:
        return a
    if isc(b) and 0 < sgn(b, w) and isinstance(a, T) and ub(a) < (1 << (w - 1)):
        return udiv(w, a, b)
    return mk('sdiv', w, a, b)


def srem(w, a, b):
    if isc(a) and isc(b) and b:
        x, y = sgn(a, w), sgn(b, w)
        r = abs(x) % abs(y)
        return (r if x >= 0 else -r) & M(w)
    if isc(b) and b == 1:
        return 0
    if isc(b) and 0 < sgn(b, w) and isinstance(a, T) and ub(a) < (1 << (w - 1)):
        return urem(w, a, b)
    return mk('srem', w, a, b)


def b2i(c, w):
    if isc(c):
        return int(c)
    return mk('ite', w, c, 1, 0)


def i2b(x):
    """i1 as integer -> bool"""
    if isc(x):
        return bool(x)
    return eq(x.w, x, 1)


def app(name, rw, *args):
    """uninterpreted function; args are (value,width)"""
    return mk('app', rw, name, *[y for p in args for y in p])


# ---------------------------------------------------------------- show / z3
def show(t, d=0):
    if isc(t):
        return str(t)
    if d > 6:
        return '...'
    if t.op == 'var':
        return t.a[0]
    if t.op == 'lin':
        return '(' + ' + '.join([str(sgn(t.a[0], t.w))] * (t.a[0] != 0) +
                                ['%d*%s' % (sgn(c, t.w), show(x, d + 1)) for c, x in t.a[1]]) + ')'
    if t.op == 'cat':
        return '(cat ' + ' '.join('%s:%d' % (show(p, d + 1), w) for p, w in t.a) + ')'
    return '(%s %s)' % (t.op, ' '.join(show(x, d + 1) if isinstance(x, T) else str(x) for x in t.a))


_funs = {}


def zv(x, w):
    if isinstance(x, T):
        return z(x)
    if w == 0:
        return z3.BoolVal(bool(x))
    return z3.BitVecVal(x, w)


def _children(t):
    if t.op == 'lin':
        return [x for _, x in t.a[1]]
    if t.op == 'cat':
        return [p for p, _ in t.a if isinstance(p, T)]
    return [x for x in t.a if isinstance(x, T)]


def z(t):
    if t.z is not None:
        return t.z
    st = [t]
    while st:
        x = st[-1]
        if x.z is not None:
            st.pop()
            continue
        ch = [c for c in _children(x) if c.z is None]
        if ch:
            st.extend(ch)
            continue
        x.z = _z1(x)
        st.pop()
    return t.z


def _z1(t):
    o = t.op
    a = t.a
    w = t.w
    if o == 'var':
        return z3.Bool(a[0]) if w == 0 else z3.BitVec(a[0], w)
    if o == 'lin':
        c, ts = a
        r = None
        for co, x in ts:
            if co == 1:
                e = x.z
            elif co == M(w):
                e = -x.z
            elif co & (co - 1) == 0:
                k = co.bit_length() - 1
                e = z3.Concat(z3.Extract(w - 1 - k, 0, x.z), z3.BitVecVal(0, k))
            else:
                e = z3.BitVecVal(co, w) * x.z
            r = e if r is None else r + e
        if c:
            r = r + z3.BitVecVal(c, w)
        return r
    if o == 'cat':
        return z3.Concat(*[zv(p, pw) for p, pw in a])
    if o == 'ext':
        return z3.Extract(a[1], a[2], a[0].z)
    if o == 'zext':
        return z3.ZeroExt(w - a[0].w, a[0].z)
    if o == 'sext':
        return z3.SignExt(w - a[0].w, a[0].z)
    if o == 'not':
        return z3.Not(a[0].z)
    if o == 'and' and w == 0:
        return z3.And(*[x.z for x in a])
    if o == 'or' and w == 0:
        return z3.Or(*[x.z for x in a])
    if o == 'iff':
        return a[0].z == a[1].z
    if o == 'iteb':
        return z3.If(a[0].z, zv(a[1], 0), zv(a[2], 0))
    if o == 'ite':
        return z3.If(a[0].z, zv(a[1], w), zv(a[2], w))
    if o in ('eq', 'ult', 'ule', 'slt', 'sle'):
        x, y = zv(a[0], a[2]), zv(a[1], a[2])
        if o == 'eq':
            return x == y
        if o == 'ult':
            return z3.ULT(x, y)
        if o == 'ule':
            return z3.ULE(x, y)
        if o == 'slt':
            return x < y
        return x <= y
    if o == 'app':
        args = [(a[i], a[i + 1]) for i in range(1, len(a), 2)]
        key = (a[0], w, tuple(p[1] for p in args))
        f = _funs.get(key)
        if f is None:
            srt = [z3.BoolSort() if p[1] == 0 else z3.BitVecSort(p[1]) for p in args]
            f = z3.Function(a[0], *srt, z3.BoolSort() if w == 0 else z3.BitVecSort(w))
            _funs[key] = f
        return f(*[zv(x, xw) for x, xw in args])
    x, y = zv(a[0], w), zv(a[1], w)
    if o == 'mul':
        return x * y
    if o == 'and':
        return x & y
    if o == 'or':
        return x | y
    if o == 'xor':
        return x ^ y
    if o == 'shl':
        return x << y
    if o == 'lshr':
        return z3.LShR(x, y)
    if o == 'ashr':
        return x >> y
    if o == 'udiv':
        return z3.UDiv(x, y)
    if o == 'urem':
        return z3.URem(x, y)
    if o == 'sdiv':
        return x / y
    if o == 'srem':
        return z3.SRem(x, y)
    raise ValueError(o)


def vars_of(ts):
    """all var / app nodes below"""
    seen = set()
    out = {}
    st = [t for t in ts if isinstance(t, T)]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ('var', 'app'):
            out[x.id] = x
        st.extend(_children(x))
    return list(out.values())


def dag(x):
    """all nodes below"""
    seen = {}
    st = [x]
    while st:
        y = st.pop()
        if y.id not in seen:
            seen[y.id] = y
            st.extend(_children(y))
    return seen.values()


def subst(t, m, memo=None):
    """replace vars by terms/ints : m maps var T -> value"""
    if isc(t):
        return t
    if memo is None:
        memo = {}
    st = [t]
    while st:
        x = st[-1]
        if x.id in memo:
            st.pop()
            continue
        if x in m:
            memo[x.id] = m[x]
            st.pop()
            continue
        ch = [c for c in _children(x) if c.id not in memo]
        if ch:
            st.extend(ch)
            continue
        g = lambda y: memo[y.id] if isinstance(y, T) else y
        memo[x.id] = _rebuild(x, g)
        st.pop()
    return memo[t.id]


def _rebuild(x, g):
    o, a, w = x.op, x.a, x.w
    if o == 'var':
        return x
    if o == 'lin':
        r = a[0]
        for co, t in a[1]:
            r = add(w, r, mulc(w, g(t), co))
        return r
    if o == 'cat':
        return cat([(g(p), pw) for p, pw in a])
    if o == 'ext':
        return ext(g(a[0]), a[0].w, a[1], a[2])
    if o == 'zext':
        return zext(g(a[0]), a[0].w, w)
    if o == 'sext':
        return sext(g(a[0]), a[0].w, w)
    if o == 'not':
        return not_(g(a[0]))
    if w == 0 and o == 'and':
        return and_(*[g(y) for y in a])
    if w == 0 and o == 'or':
        return or_(*[g(y) for y in a])
    if o == 'iff':
        return eqb(g(a[0]), g(a[1]))
    if o == 'iteb' or o == 'ite':
        return ite(g(a[0]), g(a[1]), g(a[2]), w)
    if o in ('eq', 'ult', 'ule', 'slt', 'sle'):
        return {'eq': eq, 'ult': ult, 'ule': ule, 'slt': slt, 'sle': sle}[o](a[2], g(a[0]), g(a[1]))
    if o == 'app':
        return app(a[0], w, *[(g(a[i]), a[i + 1]) for i in range(1, len(a), 2)])
    f = {'mul': mul, 'and': band, 'or': bor, 'xor': bxor, 'shl': shl, 'lshr': lshr, 'ashr': ashr,
         'udiv': udiv, 'urem': urem, 'sdiv': sdiv, 'srem': srem}[o]
    return f(w, g(a[0]), g(a[1]))
