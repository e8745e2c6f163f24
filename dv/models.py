"""Contracts for functions outside /repo (libc, libstdc++ internals, compiler intrinsics) and
the contract-language intrinsics.  Everything in this file is trusted; the evidence of each
run lists the entries that run actually used.
"""
import re

import mem as me
import term as t
from loops import Fact
from engine import GHOST_MERGE, Engine, Infeasible, State
from mem import FnPtr, NULL, Obj, PInt, PIte, Ptr, Agg, Unsupported, alts, padd, peq, toint
from term import T, isc

MAXSZ = 1 << 46
M64 = t.M(64)
EXACT = {}
PREFIX = []


def model(*names):
    def d(f):
        for n in names:
            EXACT[n] = f
        return f
    return d


def rx(*pats):
    def d(f):
        for p in pats:
            PREFIX.append((re.compile(p), f))
        return f
    return d


def cstr(en, st, p):
    """concrete C string behind a constant pointer"""
    if not isinstance(p, Ptr) or p.obj is None or not isc(p.off):
        return '?'
    out = b''
    off = p.off
    c = en.content(st, p.obj)
    while len(out) < 200:
        b = me.read(c, off, 1)
        if not isc(b) or b == 0:
            break
        out += bytes([b])
        off += 1
    return out.decode('latin1')


# ------------------------------------------------------------------ contract language
def _input(en, st, name, w):
    k = st.ghost.get(('cnt', name), 0)
    st.ghost[('cnt', name)] = k + 1
    nm = '%s#%d' % (name, k)
    v = t.var('in_' + nm, w)
    if ('s', nm) not in en.inputset:
        en.inputset[('s', nm)] = v
    return v


def _nd(w):
    def f(en, st, args, inst, name):
        return _input(en, st, cstr(en, st, args[0]), w)
    return f


EXACT['dv_u8'] = _nd(8)
EXACT['dv_u16'] = _nd(16)
EXACT['dv_u32'] = _nd(32)
EXACT['dv_u64'] = _nd(64)
EXACT['dv_bool'] = _nd(0)


@model('dv_assume')
def dv_assume(en, st, args, inst, name):
    c = args[0]
    if isc(c):
        if not c:
            raise Infeasible()
        return None
    st.assume(c)
    return None


@model('dv_assert')
def dv_assert(en, st, args, inst, name):
    en.oblige(st, args[0], 'contract', cstr(en, st, args[1]))
    return None


@model('dv_cover')
def dv_cover(en, st, args, inst, name):
    lab = cstr(en, st, args[0])
    en.covers.setdefault(lab, []).append(st.pc)
    return None


@model('dv_stop')
def dv_stop(en, st, args, inst, name):
    raise Infeasible()


@model('dv_fork')
def dv_fork(en, st, args, inst, name):
    s2 = st.fork()
    return [(st, True), (s2, False)]


@model('dv_split')
def dv_split(en, st, args, inst, name):
    """case split: the two branches are explored separately"""
    c = args[0]
    if isc(c):
        return c
    s2 = st.fork()
    k = st.ghost.get('split', ())
    st.ghost['split'] = k + (1,)
    s2.ghost['split'] = k + (0,)
    r = []
    for s, x in ((st, c), (s2, t.not_(c))):
        if en.feasible(s, x):
            s.assume(x)
            r.append((s, x is c))
    if not r:
        raise Infeasible()
    return r


@model('dv_skolem')
def dv_skolem(en, st, args, inst, name):
    nm = cstr(en, st, args[0])
    v = t.fresh('sk_' + nm, 64)
    st.assume(t.ult(64, v, args[1]))
    en.instantiate(st, v)
    return v


@model('dv_alloc')
def dv_alloc(en, st, args, inst, name):
    """dv_alloc(name, bytes, elem): heap block of arbitrary content"""
    nm = cstr(en, st, args[0])
    k = st.ghost.get(('cnt', nm), 0)
    st.ghost[('cnt', nm)] = k + 1
    nm = '%s#%d' % (nm, k)
    n, ew = args[1], args[2]
    if not isc(n):
        st.assume(t.ult(64, n, MAXSZ))
    o = en.alloc(st, nm, n, 'heap', init=me.FnC('in_' + nm, ew))
    en.inputset[('b', nm)] = (o, n, ew)
    return Ptr(o, 0)


@model('dv_is_concrete')
def dv_is_concrete(en, st, args, inst, name):
    return isc(args[0])


# ------------------------------------------------------------------ allocation
def _new(en, st, n, what, align=16):
    if not isc(n):
        en.oblige(st, t.ult(64, n, MAXSZ), 'alloc', 'allocation size is representable')
    elif n >= MAXSZ:
        en.oblige(st, False, 'alloc', 'allocation size is representable')
    o = en.alloc(st, what, n, 'heap', align)
    en.allocs = getattr(en, 'allocs', 0) + 1
    return Ptr(o, 0)


@model('_Znwm', '_Znam', 'malloc', '_ZnwmRKSt9nothrow_t', '_ZnamRKSt9nothrow_t', 'valloc')
def m_new(en, st, args, inst, name):
    return _new(en, st, args[0], 'heap')


@model('_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', '_ZnwmSt11align_val_tRKSt9nothrow_t')
def m_new_al(en, st, args, inst, name):
    return _new(en, st, args[0], 'heap', args[1] if isc(args[1]) else 16)


@model('aligned_alloc')
def m_al(en, st, args, inst, name):
    return _new(en, st, args[1], 'heap', args[0] if isc(args[0]) else 16)


@model('calloc')
def m_calloc(en, st, args, inst, name):
    p = _new(en, st, t.mul(64, args[0], args[1]), 'heap')
    st.mem[p.obj.id] = me.Zero()
    return p


@model('posix_memalign')
def m_pma(en, st, args, inst, name):
    al = args[1]
    p = _new(en, st, args[2], 'heap', al if isc(al) else 16)
    en.store(st, args[0], 8, p)
    return 0


@model('realloc')
def m_realloc(en, st, args, inst, name):
    p, n = args
    q = _new(en, st, n, 'heap')
    for g, a in alts(p):
        if a.obj is None:
            continue
        osz = en.size(st, a.obj)
        k = t.ite(t.ult(64, osz, n), osz, n, 64)
        c = me.copy_range(en.content(st, q.obj), 0, k, en.content(st, a.obj), 0)
        st.mem[q.obj.id] = me.merge(g, c, st.mem[q.obj.id]) if not (isc(g) and g) else c
    m_free(en, st, [p], inst, name)
    return q


@model('_ZdlPv', '_ZdaPv', '_ZdlPvm', '_ZdaPvm', 'free', '_ZdlPvSt11align_val_t', '_ZdlPvmSt11align_val_t',
       '_ZdaPvSt11align_val_t')
def m_free(en, st, args, inst, name):
    conds = []
    al = alts(args[0])
    for g, p in al:
        if isinstance(p, FnPtr):
            conds.append(t.not_(g))
        elif p.obj is None:
            conds.append(t.implies(g, t.eq(64, p.off, 0)))
        elif p.obj.id in st.freed or p.obj.kind != 'heap':
            conds.append(t.not_(g))
        else:
            conds.append(t.implies(g, t.eq(64, p.off, 0)))
    en.oblige(st, t.and_(*conds), 'memory', 'release of a live heap block')
    # with a single alternative the block is dead from here on; with several the
    # engine keeps them readable (use-after-free on such merged pointers is not detected)
    if len(al) == 1 and al[0][1].obj is not None:
        st.freed = st.freed | {al[0][1].obj.id}
        st.mem.pop(al[0][1].obj.id, None)
    return None


# ------------------------------------------------------------------ memory functions
@rx(r'^llvm\.memcpy\.', r'^llvm\.memmove\.')
def m_llvm_memcpy(en, st, args, inst, name):
    n = args[2]
    if name.endswith('i32'):
        n = t.zext(n, 32, 64)
    en.memcpy(st, args[0], args[1], n, 'copy')
    return None


@model('memcpy', 'memmove')
def m_memcpy(en, st, args, inst, name):
    en.memcpy(st, args[0], args[1], args[2], 'copy')
    return args[0]


@rx(r'^llvm\.memset\.')
def m_llvm_memset(en, st, args, inst, name):
    en.memset(st, args[0], args[1], args[2])
    return None


@model('memset')
def m_memset(en, st, args, inst, name):
    en.memset(st, args[0], t.trunc(args[1], 32, 8), args[2])
    return args[0]


def _rd1(en, st, al, off):
    v = None
    for g, q in reversed(al):
        x = toint(me.read(en.content(st, q.obj), t.add(64, q.off, off), 1))
        v = x if v is None else t.ite(g, x, v, 8)
    return v if v is not None else 0


@model('memcmp', 'bcmp')
def m_memcmp(en, st, args, inst, name):
    a, b, n = args
    aa = en.chk2(st, a, n, 'compare')
    bb = en.chk2(st, b, n, 'compare')
    if isc(n) and n == 0:
        return 0
    lim = n if isc(n) else None
    if lim is None and en.opts.get('smallcmp'):
        # is n bounded by a small constant on this path?
        for k in en.opts['smallcmp']:
            if not en.feasible(st, t.ult(64, k, n)):
                lim = k
                break
    if lim is not None and lim <= en.opts.get('cmpmax', 96):
        r = 0
        for i in reversed(range(lim)):
            x = _rd1(en, st, aa, i)
            y = _rd1(en, st, bb, i)
            e = t.eq(8, x, y)
            lt = t.ite(t.ult(8, x, y), t.M(32), 1, 32)
            here = t.ite(e, r, lt, 32)
            r = here if isc(n) else t.ite(t.ult(64, i, n), here, 0, 32)
        return r
    # arbitrary length: first mismatch position
    k = t.fresh('mism', 64)
    st.assume(t.ule(64, k, n))
    x = _rd1(en, st, aa, k)
    y = _rd1(en, st, bb, k)
    inn = t.ult(64, k, n)
    st.assume(t.implies(inn, t.not_(t.eq(8, x, y))))
    ca = [(g, en.content(st, q.obj), q.off) for g, q in aa]
    cb = [(g, en.content(st, q.obj), q.off) for g, q in bb]

    def at(cs, i):
        v = None
        for g, c, o in reversed(cs):
            z = toint(me.read(c, t.add(64, o, i), 1))
            v = z if v is None else t.ite(g, z, v, 8)
        return v if v is not None else 0
    en.add_fact(st, lambda i: t.implies(t.ult(64, i, k), t.eq(8, at(ca, i), at(cb, i))))
    return t.ite(inn, t.ite(t.ult(8, x, y), t.M(32), 1, 32), 0, 32)


@model('memchr')
def m_memchr(en, st, args, inst, name):
    p, c, n = args
    c = t.trunc(c, 32, 8)
    al = en.chk2(st, p, n, 'memchr')
    if isc(n) and n == 0:
        return NULL
    if isc(n) and n <= 64:
        r = NULL
        for i in reversed(range(n)):
            r = me.pite(t.eq(8, _rd1(en, st, al, i), c), padd(p, i), r)
        return r
    k = t.fresh('chr', 64)
    st.assume(t.ule(64, k, n))
    inn = t.ult(64, k, n)
    st.assume(t.implies(inn, t.eq(8, _rd1(en, st, al, k), c)))
    cs = [(g, en.content(st, q.obj), q.off) for g, q in al]

    def at(i):
        v = None
        for g, cc, o in reversed(cs):
            z = toint(me.read(cc, t.add(64, o, i), 1))
            v = z if v is None else t.ite(g, z, v, 8)
        return v
    en.add_fact(st, lambda i: t.implies(t.ult(64, i, k), t.not_(t.eq(8, at(i), c))))
    return me.pite(inn, padd(p, k), NULL)


@model('strlen')
def m_strlen(en, st, args, inst, name):
    p = args[0]
    al = alts(p)
    if len(al) > 1:
        r = None
        for g, q in reversed(al):
            x = _strlen1(en, st, q)
            r = x if r is None else t.ite(g, x, r, 64)
        return r
    return _strlen1(en, st, p)


def _strlen1(en, st, p):
    if not isinstance(p, Ptr) or p.obj is None:
        en.oblige(st, False, 'memory', 'strlen of null')
    c = en.content(st, p.obj)
    if isc(p.off) and isc(en.size(st, p.obj)):
        i = 0
        while p.off + i < en.size(st, p.obj):
            b = me.read(c, p.off + i, 1)
            if not isc(b):
                raise Unsupported('strlen of symbolic bytes')
            if b == 0:
                return i
            i += 1
        en.oblige(st, False, 'memory', 'unterminated string')
    raise Unsupported('strlen symbolic')


# ------------------------------------------------------------------ intrinsics
@rx(r'^llvm\.(uadd|usub|umul|sadd|ssub|smul)\.with\.overflow')
def m_ovf(en, st, args, inst, name):
    from engine import nsw
    k = name.split('.')[1]
    w = int(name.rsplit('.i', 1)[1])
    a, b = toint(args[0]), toint(args[1])
    op = k[1:]
    if k[0] == 's':
        r = {'add': t.add, 'sub': t.sub, 'mul': t.mul}[op](w, a, b)
        return Agg([r, t.not_(nsw(op, w, a, b))])
    if op == 'add':
        r = t.add(w, a, b)
        return Agg([r, t.ult(w, r, a)])
    if op == 'sub':
        return Agg([t.sub(w, a, b), t.ult(w, a, b)])
    r = t.mul(w, a, b)
    if isc(a):
        a, b = b, a
    if isc(b):
        if b == 0:
            return Agg([0, False])
        return Agg([r, t.ult(w, t.M(w) // b, a)])
    z = t.mul(2 * w, t.zext(a, w, 2 * w), t.zext(b, w, 2 * w))
    return Agg([r, t.not_(t.eq(w, t.ext(z, 2 * w, 2 * w - 1, w), 0))])


@rx(r'^llvm\.(s|u)(max|min)\.')
def m_minmax(en, st, args, inst, name):
    w = int(name.rsplit('.i', 1)[1])
    a, b = toint(args[0]), toint(args[1])
    lt = t.slt(w, a, b) if name[5] == 's' else t.ult(w, a, b)
    return t.ite(lt, b, a, w) if 'max' in name else t.ite(lt, a, b, w)


@rx(r'^llvm\.abs\.')
def m_abs(en, st, args, inst, name):
    w = int(name.rsplit('.i', 1)[1])
    return t.ite(t.slt(w, args[0], 0), t.neg(w, args[0]), args[0], w)


@rx(r'^llvm\.bswap\.')
def m_bswap(en, st, args, inst, name):
    w = int(name.rsplit('.i', 1)[1])
    x = args[0]
    return t.cat([(t.ext(x, w, 8 * i + 7, 8 * i), 8) for i in range(w // 8)])


@rx(r'^llvm\.ctpop\.')
def m_ctpop(en, st, args, inst, name):
    w = int(name.rsplit('.i', 1)[1])
    x = args[0]
    if isc(x):
        return bin(x).count('1')
    r = 0
    for i in range(w):
        r = t.add(w, r, t.zext(t.ext(x, w, i, i), 1, w))
    return r


@rx(r'^llvm\.(ctlz|cttz)\.')
def m_clz(en, st, args, inst, name):
    w = int(name.rsplit('.i', 1)[1])
    x = args[0]
    r = w
    rng = range(w) if 'ctlz' in name else reversed(range(w))
    for i in rng:
        r = t.ite(t.eq(1, t.ext(x, w, i, i), 1), (w - 1 - i) if 'ctlz' in name else i, r, w)
    return r


@rx(r'^llvm\.fsh[lr]\.')
def m_fsh(en, st, args, inst, name):
    w = int(name.rsplit('.i', 1)[1])
    a, b, s = args
    if not isc(s):
        raise Unsupported('symbolic funnel shift')
    s %= w
    z = t.cat([(a, w), (b, w)])
    if 'fshl' in name:
        return t.ext(z, 2 * w, 2 * w - 1 - s, w - s)
    return t.ext(z, 2 * w, w - 1 + s, s)


@rx(r'^llvm\.assume', r'^llvm\.stackrestore', r'^llvm\.prefetch', r'^llvm\.va_', r'^llvm\.invariant',
    r'^llvm\.launder', r'^llvm\.strip')
def m_nop(en, st, args, inst, name):
    if 'launder' in name or 'strip' in name:
        return args[0]
    return None


@rx(r'^llvm\.expect\.')
def m_expect(en, st, args, inst, name):
    return args[0]


@rx(r'^llvm\.is\.constant')
def m_isconst(en, st, args, inst, name):
    return False


@rx(r'^llvm\.objectsize')
def m_objsize(en, st, args, inst, name):
    return M64


@rx(r'^llvm\.stacksave')
def m_stacksave(en, st, args, inst, name):
    return NULL


@rx(r'^llvm\.eh\.typeid')
def m_typeid(en, st, args, inst, name):
    return 1


@rx(r'^llvm\.trap', r'^llvm\.ubsantrap')
def m_trap(en, st, args, inst, name):
    en.oblige(st, False, 'trap', 'trap reached')


@rx(r'^llvm\.(fabs|floor|ceil|sqrt|round|fmuladd|pow|log|exp)')
@model('log', 'log2', 'pow', 'exp', 'ceil', 'floor', 'sqrt', 'fabs', 'log10', 'round')
def m_fp(en, st, args, inst, name):
    import math
    from engine import FT
    n = name.split('.')[1] if '.' in name else name
    if all(isinstance(a, float) for a in args):
        if n == 'fmuladd':
            return args[0] * args[1] + args[2]
        try:
            return float(getattr(math, n)(*args))
        except (ValueError, OverflowError):
            return math.nan
    return FT(n, *args)


# ------------------------------------------------------------------ C++ runtime
@model('__cxa_guard_acquire')
def m_guard(en, st, args, inst, name):
    v = en.load(st, args[0], 1)
    if isc(v):
        return 0 if v else 1
    return 1


@model('__cxa_guard_release')
def m_guardr(en, st, args, inst, name):
    en.store(st, args[0], 1, 1)
    return None


@model('__cxa_atexit', '__cxa_guard_abort', '__cxa_end_catch', 'pthread_mutex_lock', 'pthread_mutex_unlock',
       'pthread_mutex_init', 'pthread_mutex_destroy', 'pthread_rwlock_rdlock', 'pthread_rwlock_wrlock',
       'pthread_rwlock_unlock', 'pthread_rwlock_destroy', 'pthread_rwlock_init',
       '_ZNSt18condition_variable10notify_oneEv',
       '_ZNSt18condition_variable10notify_allEv', '_ZNSt18condition_variableC1Ev', '_ZNSt18condition_variableD1Ev')
def m_zero(en, st, args, inst, name):
    return 0


@model('__cxa_begin_catch', '__cxa_get_exception_ptr')
def m_catch(en, st, args, inst, name):
    return args[0]


@model('__cxa_allocate_exception')
def m_exc(en, st, args, inst, name):
    return Ptr(en.alloc(st, 'exc', args[0], 'heap'), 0)


@model('__cxa_free_exception')
def m_excf(en, st, args, inst, name):
    return None


@model('__cxa_throw', '__cxa_rethrow', '_ZSt9terminatev', 'abort', '__cxa_pure_virtual', '__cxa_bad_cast',
       '__cxa_throw_bad_array_new_length', '__assert_fail', '_ZSt21__glibcxx_assert_failPKciS0_S0_',
       '__clang_call_terminate')
def m_throw(en, st, args, inst, name):
    lab = {'__cxa_throw': 'no exception escapes', '_ZSt21__glibcxx_assert_failPKciS0_S0_': 'standard library precondition',
           '__assert_fail': 'assertion'}.get(name, name)
    if name.startswith('_ZSt21__glibcxx'):
        lab += ': ' + cstr(en, st, args[3])
    en.oblige(st, False, 'exception', lab)
    raise Infeasible()


@rx(r'^_ZSt\d+__throw_', r'^_ZN3fmt.*throw', r'^_ZSt24__throw')
def m_throw2(en, st, args, inst, name):
    en.oblige(st, False, 'exception', 'no exception escapes (%s)' % name)
    raise Infeasible()


@model('__dynamic_cast')
def m_dyncast(en, st, args, inst, name):
    p, _, dst, _ = args
    outs = []
    for g, q in alts(p):
        if q.obj is None:
            outs.append((g, NULL))
            continue
        vp = en.load(st, q, 8)
        for g2, v in alts(vp):
            if not isinstance(v, Ptr) or v.obj is None or not v.obj.name.startswith('@_ZTV'):
                raise Unsupported('dynamic_cast of unknown object')
            # offset-to-top, typeinfo
            ti = en.load(st, padd(v, M64 - 7), 8)
            top = en.load(st, padd(v, M64 - 15), 8)
            if isinstance(top, Ptr):
                top = top.off if top.obj is None else 0
            r = _cast(en, st, ti, dst.obj.name, padd(q, top))
            outs.append((t.and_(g, g2), r))
    r = outs[-1][1]
    for g, x in reversed(outs[:-1]):
        r = me.pite(g, x, r)
    return r


def _cast(en, st, ti, want, p):
    if not isinstance(ti, Ptr) or ti.obj is None:
        raise Unsupported('typeinfo')
    nm = ti.obj.name
    if nm == want:
        return p
    kind = en.load(st, ti, 8)
    kn = kind.obj.name if isinstance(kind, Ptr) and kind.obj else ''
    if '__si_class' in kn:
        return _cast(en, st, en.load(st, padd(ti, 16), 8), want, p)
    if '__vmi_class' in kn:
        n = toint(en.load(st, padd(ti, 20), 4))
        for i in range(n):
            b = en.load(st, padd(ti, 24 + 16 * i), 8)
            fl = toint(en.load(st, padd(ti, 32 + 16 * i), 8))
            off = t.sgn(fl, 64) >> 8
            if fl & 1:
                raise Unsupported('virtual base cast')
            r = _cast(en, st, b, want, padd(p, off & M64))
            if not (isinstance(r, Ptr) and r.obj is None):
                return r
        return NULL
    return NULL


def mkstring(en, st, p, b):
    """build a std::string holding the concrete bytes b at p"""
    n = len(b)
    if n < 16:
        d = padd(p, 16)
    else:
        d = Ptr(en.alloc(st, 'str', n + 1, 'heap'), 0)
        en.store(st, padd(p, 16), 8, n)
    en.store(st, p, 8, d)
    en.store(st, padd(p, 8), 8, n)
    for i, c in enumerate(b + b'\0'):
        en.store(st, padd(d, i), 1, c)


@rx(r'^_ZN3fmt.*7vformat', r'^_ZN6paimon4util13StringBuilder')
def m_vformat(en, st, args, inst, name):
    mkstring(en, st, args[0], b'<text>')
    en.assumed['formatted message text is not modelled'] = 1
    return None


@model('_ZNSt6locale7classicEv')
def m_loc(en, st, args, inst, name):
    return NULL


@model('__errno_location')
def m_errno(en, st, args, inst, name):
    o = en.globals.get('errno')
    if o is None:
        o = Obj('errno', 4, 'global')
        o.init = me.Zero()
        en.globals['errno'] = o
    return Ptr(o, 0)


@model('strerror')
def m_strerror(en, st, args, inst, name):
    o = en.globals.get('strerror')
    if o is None:
        o = Obj('strerror', 6, 'global')
        o.init = me.Bytes(b'error\0')
        en.globals['strerror'] = o
    en.assumed['text of system error messages is not modelled'] = 1
    return Ptr(o, 0)


# ------------------------------------------------------------------ growable vectors of builtin elements
ESZ = {'a': 1, 'h': 1, 'c': 1, 's': 2, 't': 2, 'i': 4, 'j': 4, 'l': 8, 'm': 8, 'x': 8, 'y': 8, 'd': 8, 'f': 4}


@rx(r'^_ZNSt6vectorI[ahcstijlmxydf]SaI[ahcstijlmxydf]EE(9push_back|12emplace_back)')
def m_pushback(en, st, args, inst, name):
    """std::vector<builtin>::push_back / emplace_back: appends the element; storage is treated as
    one block that grows in place (iterator invalidation is not tracked)"""
    if not en.opts.get('growvec', True):
        return NotImplemented
    es = ESZ[name[len('_ZNSt6vectorI')]]
    v, x = args[0], args[1]
    val = en.load(st, x, es)
    return _push(en, st, v, es, lambda d: en.store(st, d, es, val))


def _push(en, st, v, es, put):
    b = en.load(st, v, 8)
    e = en.load(st, padd(v, 8), 8)
    b, e = me.toptr(b), me.toptr(e)
    if not isinstance(e, Ptr) or not isinstance(b, Ptr):
        return NotImplemented
    if e.obj is None:
        o = en.alloc(st, 'vec', 0, 'heap')
        o.tag = 'vec'
        st.osize[o.id] = 0
        b = e = Ptr(o, 0)
        en.store(st, v, 8, b)
    else:
        o = e.obj
        if o.tag != 'vec' and not (isc(e.off) and isc(en.size(st, o)) and e.off + es > en.size(st, o)):
            # block created by other means: it may have spare room or not
            cap = me.toptr(en.load(st, padd(v, 16), 8))
            if not (isinstance(cap, Ptr) and cap.obj is o):
                return NotImplemented
    off = e.off
    ne = t.add(64, off, es)
    osz = en.size(st, e.obj)
    if isc(ne) and isc(osz):
        nsz = max(ne, osz)
    else:
        nsz = ne if e.obj.tag == 'vec' else t.ite(t.ult(64, osz, ne), ne, osz, 64)
    if not isc(nsz):
        en.oblige(st, t.ult(64, nsz, MAXSZ), 'alloc', 'vector size is representable')
    st.osize[e.obj.id] = nsz
    put(Ptr(e.obj, off))
    np = Ptr(e.obj, ne)
    en.store(st, padd(v, 8), 8, np)
    en.store(st, padd(v, 16), 8, Ptr(e.obj, nsz))
    return me.Ptr(e.obj, off)


@rx(r'^_ZNSt6vectorI[ahcstijlmxydf]SaI[ahcstijlmxydf]EE7reserveEm')
def m_reserve(en, st, args, inst, name):
    """std::vector<builtin>::reserve: no observable effect on the contents"""
    if not en.opts.get('growvec', True):
        return NotImplemented
    es = ESZ[name[len('_ZNSt6vectorI')]]
    n = args[1]
    en.oblige(st, t.ule(64, n, ((1 << 63) - 1) // es), 'exception', 'no exception escapes (vector::reserve)')
    return None


# ------------------------------------------------------------------ engine extension points
def install(en):
    en.models.update(EXACT)
    en.prefix_models.extend(PREFIX)
    en.inputset = {}


def add_fact(self, st, f):
    if not isinstance(f, Fact):
        f = Fact(f)
    st.ghost['facts'] = st.ghost.get('facts', ()) + (f,)
    for v in st.ghost.get('sk', ()):
        st.assume(f(v))


def instantiate(self, st, v):
    st.ghost['sk'] = st.ghost.get('sk', ()) + (v,)
    for f in st.ghost.get('facts', ()):
        st.assume(f(v))


Engine.add_fact = add_fact
Engine.instantiate = instantiate


def _mfacts(c, a, b):
    a = a or ()
    b = b or ()
    com = 0
    while com < len(a) and com < len(b) and a[com] is b[com]:
        com += 1
    ra = tuple((lambda f: Fact(lambda i: t.implies(c, f(i))))(f) for f in a[com:])
    rb = tuple((lambda f: Fact(lambda i: t.implies(t.not_(c), f(i))))(f) for f in b[com:])
    return a[:com] + ra + rb


def _msk(c, a, b):
    a = a or ()
    b = b or ()
    return tuple(dict.fromkeys(a + b))


GHOST_MERGE['facts'] = _mfacts
GHOST_MERGE['sk'] = _msk
