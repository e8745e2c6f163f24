"""Object based memory: every object has its own byte-addressed content.

Contents are persistent (immutable) nodes.  A read walks the chain of writes and
builds the read-over-write term, so no array theory and no quantifier is needed;
writes and copies of symbolic length are exact.
"""
import zlib

import term as t
from term import T, isc


class Unsupported(Exception):
    pass


_oid = [0]


class Obj:
    __slots__ = ('id', 'name', 'size', 'kind', 'align', 'addr', 'ro', 'init', 'site', 'tag')

    def __init__(self, name, size, kind, align=16, ro=False, init=None, site=None):
        _oid[0] += 1
        self.id = _oid[0]
        self.name = name
        self.size = size
        self.kind = kind
        self.align = align
        self.ro = ro
        self.init = init
        self.addr = None
        self.site = site
        self.tag = None

    def __repr__(self):
        return '<%s#%d>' % (self.name, self.id)

    def address(self):
        if self.addr is None:
            # aligned base : low bits zero, non-null, well below the top of the address space
            k = max(0, self.align.bit_length() - 1)
            v = t.var('addr_%s_%d' % (self.name, self.id), 46 - k)
            self.addr = t.cat([(1, 64 - 46), (v, 46 - k), (0, k)])
        return self.addr


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)


class PIte:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b

    def __repr__(self):
        return 'PIte(%s,%s,%s)' % (self.c, self.a, self.b)


class PInt:
    """pointer value used as an integer (ptrtoint)"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p

    def __repr__(self):
        return 'PInt(%s)' % (self.p,)


class FnPtr:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return '&' + self.name


class Agg:
    """first class aggregate / vector value"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Undef:
    __slots__ = ('ty',)

    def __init__(self, ty):
        self.ty = ty


NULL = Ptr(None, 0)
PTRS = (Ptr, PIte, FnPtr)


def same_ptr(a, b):
    if a is b:
        return True
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj is b.obj and (a.off is b.off or (isc(a.off) and isc(b.off) and a.off == b.off))
    if isinstance(a, FnPtr) and isinstance(b, FnPtr):
        return a.name == b.name
    if isinstance(a, PIte) and isinstance(b, PIte):
        return a.c is b.c and same_ptr(a.a, b.a) and same_ptr(a.b, b.b)
    return False


def pite(c, a, b):
    if isc(c):
        return a if c else b
    if same_ptr(a, b):
        return a
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj:
        return Ptr(a.obj, t.ite(c, a.off, b.off, 64))
    if isinstance(a, PIte) and a.c is c:
        a = a.a
    if isinstance(b, PIte) and b.c is c:
        b = b.b
    return PIte(c, a, b)


def padd(p, off):
    if isc(off) and off == 0:
        return p
    if isinstance(p, Ptr):
        return Ptr(p.obj, t.add(64, p.off, off))
    if isinstance(p, PIte):
        return PIte(p.c, padd(p.a, off), padd(p.b, off))
    raise Unsupported('arithmetic on function pointer')


def alts(p, g=True):
    """[(guard, Ptr|FnPtr)]"""
    if isinstance(p, PIte):
        return alts(p.a, t.and_(g, p.c)) + alts(p.b, t.and_(g, t.not_(p.c)))
    return [(g, p)]


def paddr(p):
    """integer address"""
    if isinstance(p, PIte):
        return t.ite(p.c, paddr(p.a), paddr(p.b), 64)
    if isinstance(p, FnPtr):
        return 0x400000 + (zlib.crc32(p.name.encode()) & 0xffff) * 16
    if p.obj is None:
        return p.off
    return t.add(64, p.obj.address(), p.off)


def peq(a, b):
    if isinstance(a, PIte):
        return t.ite(a.c, peq(a.a, b), peq(a.b, b), 0)
    if isinstance(b, PIte):
        return t.ite(b.c, peq(a, b.a), peq(a, b.b), 0)
    if isinstance(a, FnPtr) or isinstance(b, FnPtr):
        return same_ptr(a, b)
    if a.obj is b.obj:
        return t.eq(64, a.off, b.off)
    return False


def pcmp(pred, a, b):
    if isinstance(a, PIte):
        return t.ite(a.c, pcmp(pred, a.a, b), pcmp(pred, a.b, b), 0)
    if isinstance(b, PIte):
        return t.ite(b.c, pcmp(pred, a, b.a), pcmp(pred, a, b.b), 0)
    if a.obj is b.obj:
        x, y = a.off, b.off
    else:
        x, y = paddr(a), paddr(b)
    if pred in ('ult', 'slt'):
        return t.slt(64, x, y)
    if pred in ('ule', 'sle'):
        return t.sle(64, x, y)
    if pred in ('ugt', 'sgt'):
        return t.slt(64, y, x)
    return t.sle(64, y, x)


# ------------------------------------------------------------------ contents
class Node:
    __slots__ = ()


class Zero(Node):
    __slots__ = ()


class UndefC(Node):
    """uninitialised: fixed but arbitrary bytes"""
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name


class Bytes(Node):
    __slots__ = ('b',)

    def __init__(self, b):
        self.b = b


class FnC(Node):
    """content given by an uninterpreted function index -> element of ew bytes"""
    __slots__ = ('name', 'ew')

    def __init__(self, name, ew):
        self.name = name
        self.ew = ew


class DefC(Node):
    """content given by a Python function index term -> element term (ew bytes)"""
    __slots__ = ('fn', 'ew', 'key')

    def __init__(self, fn, ew, key=None):
        self.fn = fn
        self.ew = ew
        self.key = key


class Cells(Node):
    __slots__ = ('d', 'prev')

    def __init__(self, d, prev):
        self.d = d
        self.prev = prev


class SymStore(Node):
    __slots__ = ('off', 'n', 'v', 'prev')

    def __init__(self, off, n, v, prev):
        self.off = off
        self.n = n
        self.v = v
        self.prev = prev


class Copy(Node):
    __slots__ = ('off', 'len', 'src', 'soff', 'prev')

    def __init__(self, off, ln, src, soff, prev):
        self.off = off
        self.len = ln
        self.src = src
        self.soff = soff
        self.prev = prev


class SetN(Node):
    __slots__ = ('off', 'len', 'b', 'prev')

    def __init__(self, off, ln, b, prev):
        self.off = off
        self.len = ln
        self.b = b
        self.prev = prev


class IteN(Node):
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b


def vint(v, n):
    """value as an integer term of n bytes"""
    if isinstance(v, PTRS):
        if isinstance(v, Ptr) and v.obj is None:
            return v.off
        if isinstance(v, PIte):
            return PInt(v)
        return PInt(v)
    return v


def toint(v):
    if isinstance(v, PInt):
        return paddr(v.p)
    if isinstance(v, PTRS):
        return paddr(v)
    return v


def byte_of(v, n, i):
    v = toint(v)
    return t.ext(v, 8 * n, 8 * i + 7, 8 * i)


def assemble(bs):
    """little endian list of byte terms -> integer"""
    return t.cat([(b, 8) for b in reversed(bs)])


def vite(c, a, b, n):
    if isc(c):
        return a if c else b
    pa = isinstance(a, PTRS) or isinstance(a, PInt)
    pb = isinstance(b, PTRS) or isinstance(b, PInt)
    if pa or pb:
        a2 = toptr(a)
        b2 = toptr(b)
        if a2 is not None and b2 is not None:
            return pite(c, a2, b2)
        if n == 8:
            # the integer side is no usable address
            return pite(c, a2 if a2 is not None else Ptr(None, a), b2 if b2 is not None else Ptr(None, b))
        return t.ite(c, toint(a), toint(b), 8 * n)
    return t.ite(c, a, b, 8 * n)


def toptr(v):
    if isinstance(v, PTRS):
        return v
    if isinstance(v, PInt):
        return v.p
    if isc(v):
        return Ptr(None, v)
    if isinstance(v, T) and v.op == 'ite' and v.w == 64:
        a, b = toptr(v.a[1]), toptr(v.a[2])
        if a is not None and b is not None:
            return pite(v.a[0], a, b)
    return None


def umin(x):
    """a lower bound of the unsigned value of a 64-bit offset term"""
    if isc(x):
        return x
    if x.op == 'lin':
        c = x.a[0]
        hi = c
        for co, y in x.a[1]:
            if co >= 1 << 32 or not isinstance(y, T) or y.op != 'zext' or y.a[0].w > 30:
                return 0
            hi += co << y.a[0].w
        return c if hi < 1 << 63 else 0
    return 0


def has_obj(v):
    if isinstance(v, PInt):
        v = v.p
    if isinstance(v, PIte):
        return has_obj(v.a) or has_obj(v.b)
    return isinstance(v, FnPtr) or (isinstance(v, Ptr) and v.obj is not None)


def apart(off, n, woff, wlen):
    """no byte of [off,off+n) lies in [woff,woff+wlen) (ranges do not wrap)"""
    if isc(off) and umin(woff) >= off + n:
        return True
    return t.or_(t.ule(64, t.add(64, off, n), woff), t.ule(64, t.add(64, woff, wlen), off))


def through(node, off, n, wlen):
    """whole pointer behind a write of unknown position, else None"""
    if n != 8:
        return None
    pv = read(node.prev, off, n)
    if not has_obj(pv):
        return None
    c = apart(off, n, node.off, wlen)
    if isc(c) and c:
        return pv
    raw = assemble([toint(read(node, t.add(64, off, i), 1)) for i in range(n)])
    return pite(c, toptr(pv), Ptr(None, raw))




def read(node, off, n):
    """value of n bytes at off (int / T / Ptr)"""
    while True:
        k = type(node)
        if k is Cells:
            if isc(off):
                d = node.d
                c = d.get(off)
                if c is not None and c[0] == n:
                    return c[1]
                # any overlap?
                hit = [o for o in range(off - 15, off + n) if o in d and o + d[o][0] > off]
                if not hit:
                    node = node.prev
                    continue
                o = hit[0]
                if len(hit) == 1 and o <= off and o + d[o][0] >= off + n:
                    v = toint(d[o][1])
                    return t.ext(v, 8 * d[o][0], 8 * (off - o + n) - 1, 8 * (off - o))
                if n == 1:
                    raise Unsupported('cell overlap')
                return assemble_split(node, off, n, hit)
            # symbolic offset over concrete cells
            return _sym_over_cells(node, off, n)
        if k is SymStore:
            d = t.sub(64, off, node.off)
            if isc(d):
                if d == 0 and n == node.n:
                    return node.v
                ds = t.sgn(d, 64)
                if ds >= node.n or ds + n <= 0:
                    node = node.prev
                    continue
                if ds >= 0 and ds + n <= node.n:
                    return t.ext(toint(node.v), 8 * node.n, 8 * (ds + n) - 1, 8 * ds)
                return assemble([toint(read(node, t.add(64, off, i), 1)) for i in range(n)])
            if isc(off) and umin(node.off) >= off + n:
                node = node.prev
                continue
            if n == node.n and (n == 1 or _aligned(d, n)):
                return vite(t.eq(64, d, 0), node.v, read(node.prev, off, n), n)
            pv = through(node, off, n, node.n)
            if pv is not None:
                return pv
            if n == 1:
                inside = t.ult(64, d, node.n)
                v = toint(node.v)
                bv = 0
                for i in reversed(range(node.n)):
                    x = t.ext(v, 8 * node.n, 8 * i + 7, 8 * i)
                    bv = x if i == node.n - 1 else t.ite(t.eq(64, d, i), x, bv, 8)
                return vite(inside, bv, read(node.prev, off, 1), 1)
            if _aligned(d, node.n) and n > node.n and n % node.n == 0 or _aligned(d, n) and n < node.n and node.n % n == 0:
                # whole sub-units either hit or miss
                u = min(n, node.n)
                if n > node.n:
                    parts = [toint(read(node, t.add(64, off, i), u)) for i in range(0, n, u)]
                    return t.cat([(p, 8 * u) for p in reversed(parts)])
                v = toint(node.v)
                r = read(node.prev, off, n)
                for i in range(0, node.n, n):
                    r = vite(t.eq(64, d, i), t.ext(v, 8 * node.n, 8 * (i + n) - 1, 8 * i), r, n)
                return r
            return assemble([toint(read(node, t.add(64, off, i), 1)) for i in range(n)])
        if k is Copy:
            d = t.sub(64, off, node.off)
            # fully inside / outside decided syntactically
            if isc(d) and t.sgn(d, 64) + n <= 0:
                node = node.prev        # before the region
                continue
            if isc(d) and isc(node.len):
                ds = t.sgn(d, 64)
                if ds >= node.len:
                    node = node.prev
                    continue
                if ds >= 0 and ds + n <= node.len:
                    off = t.add(64, node.soff, d)
                    node = node.src
                    continue
            if isc(off) and umin(node.off) >= off + n:
                node = node.prev
                continue
            if not (isc(d) and isc(node.len)):
                pv = through(node, off, n, node.len)
                if pv is not None:
                    return pv
            if n == 1 or (_aligned(d, n) and _aligned(node.len, n)):
                inside = t.ult(64, d, node.len)
                if isc(inside):
                    if inside:
                        off = t.add(64, node.soff, d)
                        node = node.src
                    else:
                        node = node.prev
                    continue
                return vite(inside, read(node.src, t.add(64, node.soff, d), n), read(node.prev, off, n), n)
            return assemble([toint(read(node, t.add(64, off, i), 1)) for i in range(n)])
        if k is SetN:
            d = t.sub(64, off, node.off)
            if isc(d) and t.sgn(d, 64) + n <= 0:
                node = node.prev        # before the region
                continue
            if isc(d) and isc(node.len):
                ds = t.sgn(d, 64)
                if ds >= node.len:
                    node = node.prev
                    continue
                if ds >= 0 and ds + n <= node.len:
                    return assemble([node.b] * n)
            if isc(off) and umin(node.off) >= off + n:
                node = node.prev
                continue
            if not (isc(d) and isc(node.len)):
                pv = through(node, off, n, node.len)
                if pv is not None:
                    return pv
            if n == 1 or (_aligned(d, n) and _aligned(node.len, n)):
                inside = t.ult(64, d, node.len)
                return vite(inside, assemble([node.b] * n), read(node.prev, off, n), n)
            return assemble([toint(read(node, t.add(64, off, i), 1)) for i in range(n)])
        if k is IteN:
            return vite(node.c, read(node.a, off, n), read(node.b, off, n), n)
        if k is Zero:
            return 0
        if k is Bytes:
            if isc(off):
                if off + n <= len(node.b):
                    return int.from_bytes(node.b[off:off + n], 'little')
                return 0
            # table lookup
            if n == 1 or _aligned(off, n):
                r = 0
                L = len(node.b)
                if L // n > 4096:
                    raise Unsupported('symbolic index into large constant')
                for i in range(0, L - n + 1, n):
                    r = t.ite(t.eq(64, off, i), int.from_bytes(node.b[i:i + n], 'little'), r, 8 * n)
                return r
            return assemble([read(node, t.add(64, off, i), 1) for i in range(n)])
        if k is FnC or k is DefC:
            ew = node.ew
            f = (lambda ix: t.app(node.name, 8 * ew, (ix, 64))) if k is FnC else node.fn
            if ew == 1:
                if n == 1:
                    return f(off)
                return assemble([f(t.add(64, off, i)) for i in range(n)])
            q, r = _divmod(off, ew)
            if q is not None:
                if r == 0 and n == ew:
                    return f(q)
                if r + n <= ew:
                    return t.ext(f(q), 8 * ew, 8 * (r + n) - 1, 8 * r)
                return assemble([toint(read(node, t.add(64, off, i), 1)) for i in range(n)])
            # unknown alignment
            if n == 1:
                sh = ew.bit_length() - 1
                q = t.lshr(64, off, sh)
                r = t.band(64, off, ew - 1)
                return t.trunc(t.lshr(8 * ew, f(q), t.trunc(t.mulc(64, r, 8), 64, 8 * ew) if 8 * ew <= 64 else 0), 8 * ew, 8)
            return assemble([toint(read(node, t.add(64, off, i), 1)) for i in range(n)])
        if k is UndefC:
            if n == 1:
                return t.app(node.name, 8, (off, 64))
            return assemble([t.app(node.name, 8, (t.add(64, off, i), 64)) for i in range(n)])
        raise Unsupported('read from %s' % k)


def assemble_split(node, off, n, hit):
    d = node.d
    parts = []          # little-endian pieces (term,width)
    p = off
    end = off + n
    for o in sorted(hit):
        if o > p:
            v = toint(read(node.prev, p, o - p))
            parts.append((v, 8 * (o - p)))
            p = o
        cn, cv = d[o]
        e = min(end, o + cn)
        v = t.ext(toint(cv), 8 * cn, 8 * (e - o) - 1, 8 * (p - o))
        parts.append((v, 8 * (e - p)))
        p = e
    if p < end:
        parts.append((toint(read(node.prev, p, end - p)), 8 * (end - p)))
    return t.cat(list(reversed(parts)))


def _sym_over_cells(node, off, n):
    r = None
    if all(c[0] == n and o % n == 0 for o, c in node.d.items()) and _aligned(off, n):
        r = read(node.prev, off, n)
        for o, c in node.d.items():
            r = vite(t.eq(64, off, o), c[1], r, n)
        return r
    if n == 1:
        r = read(node.prev, off, 1)
        for o, c in node.d.items():
            for i in range(c[0]):
                e = t.eq(64, off, o + i)
                if isc(e) and not e:
                    continue
                r = vite(e, byte_of(c[1], c[0], i), r, 1)
        return r
    # wide cells of equal alignment: exact hits when both aligned
    if _aligned(off, n) and all(o % n == 0 and c[0] % n == 0 for o, c in node.d.items()):
        r = read(node.prev, off, n)
        for o, c in node.d.items():
            for i in range(0, c[0], n):
                r = vite(t.eq(64, off, o + i), t.ext(toint(c[1]), 8 * c[0], 8 * (i + n) - 1, 8 * i), r, n)
        return r
    return assemble([toint(read(node, t.add(64, off, i), 1)) for i in range(n)])


def _aligned(x, n):
    if isc(x):
        return x % n == 0
    if x.op == 'lin':
        return x.a[0] % n == 0 and all(co % n == 0 or _aligned(y, n) for co, y in x.a[1])
    if x.op == 'cat':
        p, pw = x.a[-1]
        return isc(p) and (1 << pw) >= n and p % n == 0 and (p & (n - 1)) == 0
    if x.op == 'ite':
        return _aligned(x.a[1], n) and _aligned(x.a[2], n)
    if x.op == 'mul':
        return _aligned(x.a[0], n) or _aligned(x.a[1], n)
    if x.op == 'zext':
        return _aligned(x.a[0], n)
    if x.op == 'sext':
        return _aligned(x.a[0], n)
    return False


def _divmod(off, ew):
    """(quotient term, const remainder) when off = ew*q + r syntactically and without wrap"""
    if isc(off):
        return off // ew, off % ew
    r = 0
    if off.op == 'lin':
        r = off.a[0] % ew
        x = t.sub(64, off, r)
        if isc(x):
            return x // ew, r
    else:
        x = off
    if _aligned(x, ew):
        sh = ew.bit_length() - 1
        if 1 << sh != ew:
            return None, None
        # exact quotient, correct modulo 2^64 because x is a multiple of ew: use a shift
        if x.op == 'lin' and all(co % ew == 0 for co, _ in x.a[1]):
            # offsets are small (object sizes < 2^47): treat as signed quotient
            q = 0
            for co, y in x.a[1]:
                q = t.add(64, q, t.mulc(64, y, (t.sgn(co, 64) // ew)))
            q = t.add(64, q, t.sgn(x.a[0], 64) // ew & t.M(64))
            return q, r
        return t.lshr(64, x, sh), r
    return None, None


MAXCELL = 512


def write(node, off, n, v):
    if isc(off):
        if type(node) is Cells:
            d = dict(node.d)
            prev = node.prev
        else:
            d = {}
            prev = node
        ov = None
        if not (off in d and d[off][0] == n):
            ov = [o for o in range(off - 15, off + n) if o in d and o + d[o][0] > off]
        if ov:
            for o in ov:
                cn, cv = d.pop(o)
                if o < off or o + cn > off + n:
                    iv = toint(cv)
                    if o < off:
                        d[o] = (off - o, t.ext(iv, 8 * cn, 8 * (off - o) - 1, 0))
                    if o + cn > off + n:
                        k = off + n - o
                        d[off + n] = (cn - k, t.ext(iv, 8 * cn, 8 * cn - 1, 8 * k))
        d[off] = (n, v)
        return Cells(d, prev)
    # symbolic
    if type(node) is SymStore and node.n == n and (node.off is off):
        return SymStore(off, n, v, node.prev)
    return SymStore(off, n, v, node)


def copy_range(dst, doff, ln, src, soff):
    """content of dst after copying ln bytes from src content (snapshot)"""
    if isc(ln) and ln == 0:
        return dst
    if isc(ln) and isc(doff) and isc(soff) and ln <= 4096:
        return _copy_cells(dst, doff, ln, src, soff)
    if isc(ln) and ln <= 16 and ln in (1, 2, 4, 8):
        return write(dst, doff, ln, read(src, soff, ln))
    return Copy(doff, ln, src, soff, dst)


def _flatbase(node):
    return type(node) in (Zero, UndefC, Bytes, FnC, DefC)


def _copy_cells(dst, doff, ln, src, soff):
    top = src
    if type(top) is Cells and (ln <= 256):
        # copy cell by cell, then the gaps
        d = top.d
        if type(top.prev) in (UndefC,) and ln <= 256:
            out = dst
            p = soff
            end = soff + ln
            cs = sorted(o for o in d if o < end and o + d[o][0] > soff)
            for o in cs:
                a = max(o, soff)
                e = min(o + d[o][0], end)
                if a > p:
                    out = _gap(out, doff + p - soff, a - p, top.prev, p)
                if a == o and e == o + d[o][0]:
                    out = write(out, doff + a - soff, e - a, d[o][1])
                else:
                    out = write(out, doff + a - soff, e - a, toint(read(top, a, e - a)))
                p = e
            if p < end:
                out = _gap(out, doff + p - soff, end - p, top.prev, p)
            return out
    if ln in (1, 2, 4, 8):
        return write(dst, doff, ln, read(src, soff, ln))
    if ln <= 64:
        out = dst
        p = 0
        while p < ln:
            step = 8
            while step > 1 and (p + step > ln or (doff + p) % step):
                step //= 2
            # respect cell boundaries of the source so that pointers stay whole
            if type(src) is Cells:
                for s in (8, 4, 2, 1):
                    if s <= step and (soff + p) in src.d and src.d[soff + p][0] == s:
                        step = s
                        break
            out = write(out, doff + p, step, read(src, soff + p, step))
            p += step
        return out
    return Copy(doff, ln, src, soff, dst)


def _gap(out, doff, n, src, soff):
    return Copy(doff, n, src, soff, out) if False else _undef_fill(out, doff, n, src, soff)


def _undef_fill(out, doff, n, src, soff):
    p = 0
    while p < n:
        step = 8
        while step > 1 and (p + step > n or (doff + p) % step):
            step //= 2
        out = write(out, doff + p, step, read(src, soff + p, step))
        p += step
    return out


def fill(node, off, ln, b):
    if isc(ln) and ln == 0:
        return node
    if isc(off) and isc(ln) and ln <= 256 and isc(b):
        out = node
        p = 0
        while p < ln:
            step = 8
            while step > 1 and (p + step > ln or (off + p) % step):
                step //= 2
            out = write(out, off + p, step, int.from_bytes(bytes([b]) * step, 'little'))
            p += step
        return out
    return SetN(off, ln, b, node)


def merge(c, a, b):
    """content ite(c, a, b)"""
    if a is b:
        return a
    if type(a) is Cells and type(b) is Cells and a.prev is b.prev:
        return _merge_cells(c, a, b, a.prev)
    if type(a) is Cells and a.prev is b:
        return _merge_cells(c, a, Cells({}, b), b)
    if type(b) is Cells and b.prev is a:
        return _merge_cells(c, Cells({}, a), b, a)
    return IteN(c, a, b)


def _merge_cells(c, a, b, prev):
    d = {}
    for o in set(a.d) | set(b.d):
        x = a.d.get(o)
        y = b.d.get(o)
        if x is not None and y is not None:
            if x[0] != y[0]:
                return IteN(c, a, b)
            if x[1] is y[1]:
                d[o] = x
                continue
            d[o] = (x[0], vite(c, x[1], y[1], x[0]))
        elif x is not None:
            if any(q < o + x[0] and q + b.d[q][0] > o for q in range(o - 15, o + x[0]) if q in b.d):
                return IteN(c, a, b)
            d[o] = (x[0], vite(c, x[1], read(prev, o, x[0]), x[0]))
        else:
            if any(q < o + y[0] and q + a.d[q][0] > o for q in range(o - 15, o + y[0]) if q in a.d):
                return IteN(c, a, b)
            d[o] = (y[0], vite(c, read(prev, o, y[0]), y[1], y[0]))
    return Cells(d, prev)
