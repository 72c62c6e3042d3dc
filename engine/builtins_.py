"""Contracts of the functions the verifier does not enter: LLVM intrinsics, the
C library's mem* family, allocation, exceptions, assertion failure and the
vp_* specification primitives.  Everything here is part of the trusted base."""
import re
import z3
from sym import *


class _T:
    pass


END = _T()
CONT = _T()

TBL = {}
PFX = []


def reg(*names):
    def d(f):
        for n in names:
            TBL[n] = f
        return f
    return d


def pfx(*names):
    def d(f):
        for n in names:
            PFX.append((n, f))
        return f
    return d


CACHE = {}


def lookup(name):
    if name in CACHE:
        return CACHE[name]
    f = TBL.get(name)
    if f is None:
        for p, g in PFX:
            if name.startswith(p):
                f = g
                break
    CACHE[name] = f
    return f


def width(ins):
    return ins.ty[1]


@pfx('llvm.lifetime', 'llvm.dbg', 'llvm.experimental.noalias', 'llvm.invariant', 'llvm.stackrestore', 'llvm.donothing',
     'llvm.prefetch', 'llvm.var.annotation')
def nop(E, st, fr, ins, a, work):
    return None


@pfx('llvm.stacksave')
def ssave(E, st, fr, ins, a, work):
    return NULL


@pfx('llvm.assume')
def l_assume(E, st, fr, ins, a, work):
    return None


@pfx('llvm.expect')
def l_expect(E, st, fr, ins, a, work):
    return a[0]


@pfx('llvm.is.constant')
def l_isc(E, st, fr, ins, a, work):
    return 0


@pfx('llvm.objectsize')
def l_os(E, st, fr, ins, a, work):
    return M64


@pfx('llvm.memcpy', 'llvm.memmove')
def l_memcpy(E, st, fr, ins, a, work):
    return None if E.memcpy(st, a[0], a[1], a[2]) else END


@reg('memcpy', 'memmove', '__memcpy_chk', '__memmove_chk')
def c_memcpy(E, st, fr, ins, a, work):
    return a[0] if E.memcpy(st, a[0], a[1], a[2]) else END


def do_memset(E, st, d, v, n):
    n = conc(n)
    if not isinstance(n, int):
        raise ForkValue(n, 64)
    if n == 0:
        return True
    o = E.bounds(st, d, n, 'write (fill)')
    if o is None:
        return False
    v = conc(v)
    if isinstance(d.off, int) and isinstance(v, int) and d.off == 0 and n == o.size and o.lanes is None and v == 0:
        o = st.wobj(d.obj)
        if st.writes is not None:
            st.writes.add((d.obj, 'all', 0))
        o.cells = {}
        o.table = None
        o.zero = True
        return True
    if o.lanes is not None:
        w = 4 if o.stride % 4 == 0 and n % 4 == 0 else 1
        if not isinstance(v, int):
            w = 1
        x = int.from_bytes(bytes([v]) * w, 'little') if isinstance(v, int) else v
        for k in range(0, n, w):
            E.store_raw(st, d.obj, E.padd(d, k).off, w, x)
        return True
    k = 0
    while k < n:
        w = 8 if n - k >= 8 else 4 if n - k >= 4 else 1
        if not isinstance(v, int):
            w = 1
        x = int.from_bytes(bytes([v]) * w, 'little') if isinstance(v, int) else v
        E.store_raw(st, d.obj, E.padd(d, k).off, w, x)
        k += w
    return True


@pfx('llvm.memset')
def l_memset(E, st, fr, ins, a, work):
    return None if do_memset(E, st, a[0], a[1], a[2]) else END


@reg('memset')
def c_memset(E, st, fr, ins, a, work):
    v = a[1] & 255 if isinstance(a[1], int) else conc(z3.Extract(7, 0, a[1]))
    return a[0] if do_memset(E, st, a[0], v, a[2]) else END


def cmpop(op):
    def h(E, st, fr, ins, a, work):
        w = width(ins)
        x, y = a[0], a[1]
        x, y = E.need(x, w), E.need(y, w)
        c = E.icmp(st, op, ('i', w), x, y)
        if isinstance(c, int):
            return x if c else y
        return z3.If(c, bv(x, w), bv(y, w))
    return h


for n, o in (('umin', 'ult'), ('umax', 'ugt'), ('smin', 'slt'), ('smax', 'sgt')):
    PFX.append(('llvm.%s.' % n, cmpop(o)))


@pfx('llvm.abs.')
def l_abs(E, st, fr, ins, a, work):
    w = width(ins)
    x = a[0]
    if isinstance(x, int):
        return abs(sgn(x, w)) & ((1 << w) - 1)
    return z3.If(x < 0, -x, x)


@pfx('llvm.ctpop.')
def l_ctpop(E, st, fr, ins, a, work):
    w = width(ins)
    if isinstance(a[0], int):
        return bin(a[0]).count('1')
    r = z3.BitVecVal(0, w)
    for i in range(w):
        r = r + z3.ZeroExt(w - 1, z3.Extract(i, i, a[0]))
    return r


@pfx('llvm.ctlz.')
def l_ctlz(E, st, fr, ins, a, work):
    w = width(ins)
    if isinstance(a[0], int):
        return w - a[0].bit_length()
    r = z3.BitVecVal(w, w)
    for i in range(w):
        r = z3.If(z3.Extract(i, i, a[0]) == 1, z3.BitVecVal(w - 1 - i, w), r)
    return r


@pfx('llvm.cttz.')
def l_cttz(E, st, fr, ins, a, work):
    w = width(ins)
    if isinstance(a[0], int):
        return (a[0] & -a[0]).bit_length() - 1 if a[0] else w
    r = z3.BitVecVal(w, w)
    for i in range(w - 1, -1, -1):
        r = z3.If(z3.Extract(i, i, a[0]) == 1, z3.BitVecVal(i, w), r)
    return r


@pfx('llvm.bswap.')
def l_bswap(E, st, fr, ins, a, work):
    w = width(ins)
    if isinstance(a[0], int):
        return int.from_bytes(a[0].to_bytes(w // 8, 'little'), 'big')
    return z3.Concat(*[z3.Extract(8 * i + 7, 8 * i, a[0]) for i in range(w // 8)])


@pfx('llvm.fshl.', 'llvm.fshr.')
def l_fsh(E, st, fr, ins, a, work):
    w = width(ins)
    left = 'fshl' in ins.a[0][1]
    x, y, s = [bv(E.need(v, w), w) for v in a]
    s = z3.URem(s, z3.BitVecVal(w, w))
    cc = z3.Concat(x, y)
    sh = z3.ZeroExt(w, s)
    if left:
        return conc(z3.Extract(2 * w - 1, w, cc << sh))
    return conc(z3.Extract(w - 1, 0, z3.LShR(cc, sh)))


@pfx('llvm.usub.sat.')
def l_usubs(E, st, fr, ins, a, work):
    w = width(ins)
    x, y = bv(a[0], w), bv(a[1], w)
    return conc(z3.If(z3.ULT(x, y), z3.BitVecVal(0, w), x - y))


@pfx('llvm.uadd.sat.')
def l_uadds(E, st, fr, ins, a, work):
    w = width(ins)
    x, y = bv(a[0], w), bv(a[1], w)
    return conc(z3.If(z3.ULT(x + y, x), z3.BitVecVal((1 << w) - 1, w), x + y))


@pfx('llvm.umul.with.overflow', 'llvm.uadd.with.overflow', 'llvm.usub.with.overflow',
     'llvm.smul.with.overflow', 'llvm.sadd.with.overflow', 'llvm.ssub.with.overflow')
def l_ovf(E, st, fr, ins, a, work):
    nm = ins.a[0][1].split('.')[1]
    w = ins.ty[2][0][1]
    x, y = [bv(E.need(v, w), w) for v in a[:2]]
    sg = nm[0] == 's'
    ext = (lambda v: z3.SignExt(w, v)) if sg else (lambda v: z3.ZeroExt(w, v))
    f = {'mul': lambda p, q: p * q, 'add': lambda p, q: p + q, 'sub': lambda p, q: p - q}[nm[1:]]
    wide = f(ext(x), ext(y))
    res = f(x, y)
    return [conc(res), conc(wide != ext(res))]


@pfx('llvm.trap', 'llvm.debugtrap', 'llvm.ubsantrap')
def l_trap(E, st, fr, ins, a, work):
    E.oblige(st, 0, 'no-undefined-behaviour', 'trap')
    return END


@pfx('llvm.eh.typeid.for')
def l_tid(E, st, fr, ins, a, work):
    return E.tid(a[0])


# ------------------------------------------------------------------ C library
@reg('memcmp', 'bcmp', '__builtin_memcmp', 'wmemcmp')
def c_memcmp(E, st, fr, ins, a, work):
    wide = 4 if ins.a[0][1] == 'wmemcmp' else 1
    n = conc(a[2])
    if not isinstance(n, int):
        raise ForkValue(n, 64)
    if n == 0:
        return 0
    if E.bounds(st, a[0], n * wide, 'read') is None or E.bounds(st, a[1], n * wide, 'read') is None:
        return END
    r = 0
    w = 8 * wide
    for k in range(n - 1, -1, -1):
        x = E.load(st, E.padd(a[0], k * wide), ('i', w))
        y = E.load(st, E.padd(a[1], k * wide), ('i', w))
        x, y = E.need(x, w), E.need(y, w)
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                r = (1 if x > y else -1) & 0xffffffff
            continue
        x, y = bv(x, w), bv(y, w)
        r = z3.If(x == y, bv(r, 32), z3.If(z3.UGT(x, y), z3.BitVecVal(1, 32), z3.BitVecVal(-1, 32)))
    return conc(r)


@reg('memchr', 'wmemchr')
def c_memchr(E, st, fr, ins, a, work):
    wide = 4 if ins.a[0][1] == 'wmemchr' else 1
    w = 8 * wide
    n = conc(a[2])
    if not isinstance(n, int):
        raise ForkValue(n, 64)
    c = a[1]
    if wide == 1:
        c = c & 255 if isinstance(c, int) else z3.Extract(7, 0, c)
    if n and E.bounds(st, a[0], n * wide, 'read') is None:
        return END
    idx = z3.BitVecVal(n, 64)
    for k in range(n - 1, -1, -1):
        x = E.need(E.load(st, E.padd(a[0], k * wide), ('i', w)), w)
        idx = z3.If(bv(x, w) == bv(c, w), z3.BitVecVal(k, 64), idx)
    idx = conc(idx)
    if not isinstance(idx, int):
        raise ForkValue(idx, 64)
    return NULL if idx == n else E.padd(a[0], idx * wide)


@reg('strlen', 'wcslen')
def c_strlen(E, st, fr, ins, a, work):
    wide = 4 if ins.a[0][1] == 'wcslen' else 1
    k = 0
    while True:
        x = E.load(st, E.padd(a[0], k * wide), ('i', 8 * wide))
        if x is None:
            return END
        x = conc(x)
        if not isinstance(x, int):
            raise Unsupported('strlen of symbolic string')
        if x == 0:
            return k
        k += 1


@reg('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t')
def c_new(E, st, fr, ins, a, work):
    n = conc(a[0])
    if not isinstance(n, int):
        raise ForkValue(n, 64)
    oid = E.alloc(st, n, 'heap')
    st.mem[oid].heap = True
    return Ptr(oid, 0)


@reg('_ZdlPv', '_ZdlPvm', '_ZdaPv', '_ZdaPvm', 'free', '_ZdlPvmSt11align_val_t', '_ZdlPvSt11align_val_t')
def c_delete(E, st, fr, ins, a, work):
    p = a[0]
    if isinstance(p, Ptr) and p.obj != 0:
        o = st.mem.get(p.obj)
        if o is None or not o.alive or not (o.heap or o.lanes is not None):
            E.oblige(st, 0, 'memory-safety', 'delete of non-heap or freed object')
            return END
        if not (isinstance(p.off, int) and p.off == 0):
            E.oblige(st, E.icmp(st, 'eq', ('i', 64), p.off, 0), 'memory-safety', 'delete of interior pointer')
        o = st.wobj(p.obj)
        o.alive = False
        o.cells = {}
    return None


@reg('__assert_fail')
def c_assert(E, st, fr, ins, a, work):
    E.oblige(st, 0, 'assertions-of-the-code-hold', 'assert in ' + short(E.dem.get(fr.f.name, fr.f.name)))
    return END


@reg('_ZSt21__glibcxx_assert_failPKciS0_S0_', 'abort', '_ZSt9terminatev', '__cxa_pure_virtual')
def c_abort(E, st, fr, ins, a, work):
    E.oblige(st, 0, 'no-abort', 'abort or library assertion in ' + short(E.dem.get(fr.f.name, fr.f.name)))
    return END


# ------------------------------------------------------------------ exceptions
@reg('__cxa_allocate_exception')
def x_alloc(E, st, fr, ins, a, work):
    n = conc(a[0])
    return Ptr(E.alloc(st, max(n, 16), 'exc'), 0)


@reg('__cxa_free_exception', '__cxa_end_catch', '__cxa_guard_release', '__cxa_guard_abort', '__cxa_atexit')
def x_nop(E, st, fr, ins, a, work):
    return 0 if ins.ty[0] == 'i' else None


@reg('__cxa_guard_acquire')
def x_guard(E, st, fr, ins, a, work):
    return 1


@reg('__cxa_begin_catch')
def x_begin(E, st, fr, ins, a, work):
    return a[0]


@reg('__cxa_throw')
def x_throw(E, st, fr, ins, a, work):
    st.exc = (a[0], a[1])
    # the frame that executes the throw may itself be an invoke
    return unw(E, st, work)


@reg('__cxa_rethrow')
def x_rethrow(E, st, fr, ins, a, work):
    return unw(E, st, work)


def unw(E, st, work):
    r = E.unwind(st, work)
    return END if r is False else CONT


@reg('_Unwind_Resume')
def x_resume(E, st, fr, ins, a, work):
    st.frames.pop()
    return unw(E, st, work)


@pfx('_ZSt20__throw_', '_ZSt19__throw_', '_ZSt17__throw_', '_ZSt16__throw_', '_ZSt24__throw_', '_ZSt21__throw_',
     '_ZSt28__throw_', '_ZSt26__throw_', '_ZSt25__throw_', '_ZSt27__throw_', '_ZSt18__throw_', '_ZSt22__throw_', '_ZSt23__throw_')
def x_stdthrow(E, st, fr, ins, a, work):
    oid = E.alloc(st, 16, 'exc')
    st.exc = (Ptr(oid, 0), ('std', ins.a[0][1]))
    return unw(E, st, work)


@reg('_ZNSt11range_errorC1EPKc', '_ZNSt11range_errorD1Ev', '_ZNSt16invalid_argumentC1EPKc', '_ZNSt16invalid_argumentD1Ev', '_ZNSt12out_of_rangeC1EPKc', '_ZNSt12out_of_rangeD1Ev',
     '_ZNSt9exceptionD2Ev', '_ZNSt12length_errorC1EPKc', '_ZNSt13runtime_errorC1EPKc', '_ZNSt13runtime_errorD1Ev',
     '_ZNSt11logic_errorC1EPKc', '_ZNSt11logic_errorD1Ev', '_ZNSt12length_errorD1Ev')
def x_ctor(E, st, fr, ins, a, work):
    return None


@reg('_ZNSt8ios_base4InitC1Ev', '_ZNSt8ios_base4InitD1Ev')
def ios(E, st, fr, ins, a, work):
    return None


# ------------------------------------------------------------------ specification primitives
@pfx('vp_nondet_')
def vp_nondet(E, st, fr, ins, a, work):
    w = width(ins)
    nm = ins.a[0][1][len('vp_nondet_'):]
    v = E.sym(w, 'nd_' + nm)
    st.nd = st.nd + ((nm, v),)
    return v


@reg('vp_assume')
def vp_assume(E, st, fr, ins, a, work):
    c = conc(E.need(a[0], 1))
    if isinstance(c, int):
        return None if c & 1 else END
    c = tob(c)
    if not E.lazy and E.check(st.pc, c) == 'unsat':
        return END
    st.pc = st.pc + (c,)
    return None


def cstr(E, st, p):
    o = st.mem[p.obj]
    r = bytearray()
    k = p.off
    while True:
        x = E.load_raw(st, o, k, 1, ('i', 8))
        if not isinstance(x, int) or x == 0:
            break
        r.append(x)
        k += 1
    return r.decode('utf-8', 'replace')


@reg('vp_assert')
def vp_assert(E, st, fr, ins, a, work):
    lab = cstr(E, st, a[1])
    if not E.oblige(st, E.need(a[0], 1), lab, 'assertion'):
        return END
    return None


@reg('vp_lemma')
def vp_lemma(E, st, fr, ins, a, work):
    """an auxiliary obligation of the induction (not part of the property): its refutation leaves the proof open"""
    E.oblige(st, E.need(a[0], 1), 'lemma: ' + cstr(E, st, a[1]), 'lemma')
    return None


@reg('vp_uf32')
def vp_uf32(E, st, fr, ins, a, work):
    """uninterpreted function number a[0] (concrete)"""
    k = conc(a[0])
    f = z3.Function('uf%d' % k, z3.BitVecSort(32), z3.BitVecSort(32))
    return conc(z3.simplify(f(bv(E.need(a[1], 32), 32))))


@reg('vp_peek32')
def vp_peek32(E, st, fr, ins, a, work):
    """specification read of the 32-bit field at a[3] of element a[1] (total: no memory-safety obligation)"""
    o = st.mem[a[0].obj]
    if o.lanes is None:
        raise Unsupported('vp_peek32 outside an array')
    return conc(z3.simplify(z3.Select(E.lane(o, conc(a[3]), 4), bv(E.need(a[1], 64), 64))))


@reg('vp_cover')
def vp_cover(E, st, fr, ins, a, work):
    if not E.muted:
        lab = cstr(E, st, a[0])
        if not E.covers.get(lab):
            E.covers[lab] = E.check(st.pc) == 'sat'
    return None


@reg('vp_new_array')
def vp_new_array(E, st, fr, ins, a, work):
    """fresh array of a[0] elements of a[1] bytes with arbitrary content; capacity in elements a[0] (symbolic)"""
    n = a[0]
    s = conc(a[1])
    E.fresh += 1
    size = n * s if isinstance(n, int) else conc(bv(n, 64) * z3.BitVecVal(s, 64))
    oid = E.alloc(st, size, 'arr%d' % E.fresh)
    o = st.mem[oid]
    o.lanes = {}
    o.stride = s
    o.count = n
    o.heap = True
    st.nd = st.nd + (('array', (oid, o.name, n, s)),)
    return Ptr(oid, 0)


@reg('vp_same')
def vp_same(E, st, fr, ins, a, work):
    """byte-wise equality of two objects, bytes undefined on either side ignored"""
    n = conc(a[2])
    p, q = a[0], a[1]
    po, qo = st.mem[p.obj], st.mem[q.obj]
    conds = []
    k = 0
    ch = sorted(set([c for c, _ in E.chunks(po, p.off, n)] + [c for c, _ in E.chunks(qo, q.off, n)]) | {0, n})
    for x, y in zip(ch, ch[1:]):
        w = y - x
        v1 = E.gather(po, p.off + x, w) if po.cells.get(p.off + x, (0,))[0] != w else po.cells[p.off + x][1]
        v2 = E.gather(qo, q.off + x, w) if qo.cells.get(q.off + x, (0,))[0] != w else qo.cells[q.off + x][1]
        if v1 is UNDEF or v2 is UNDEF:
            continue
        if isinstance(v1, (Ptr, Fn)) or isinstance(v2, (Ptr, Fn)):
            c = E.pcmp(st, 'eq', v1, v2)
            conds.append(tob(c))
            continue
        conds.append(bv(v1, 8 * w) == bv(v2, 8 * w))
    if not conds:
        return 1
    return conc(z3.And(*conds))


@reg('vp_covered')
def vp_covered(E, st, fr, ins, a, work):
    """object a[0] equals object a[1] wherever the latter is defined (an undefined byte stands for any value)"""
    n = conc(a[2])
    p, q = a[0], a[1]
    po, qo = st.mem[p.obj], st.mem[q.obj]
    conds = []
    ch = sorted(set([c for c, _ in E.chunks(po, p.off, n)] + [c for c, _ in E.chunks(qo, q.off, n)]) | {0, n})
    for x, y in zip(ch, ch[1:]):
        w = y - x
        v1 = E.gather(po, p.off + x, w) if po.cells.get(p.off + x, (0,))[0] != w else po.cells[p.off + x][1]
        v2 = E.gather(qo, q.off + x, w) if qo.cells.get(q.off + x, (0,))[0] != w else qo.cells[q.off + x][1]
        if v2 is UNDEF:
            continue
        if v1 is UNDEF:
            return 0
        if isinstance(v1, (Ptr, Fn)) or isinstance(v2, (Ptr, Fn)):
            conds.append(tob(E.pcmp(st, 'eq', v1, v2)))
            continue
        conds.append(bv(v1, 8 * w) == bv(v2, 8 * w))
    if not conds:
        return 1
    return conc(z3.And(*conds))


@reg('vp_is_defined')
def vp_is_defined(E, st, fr, ins, a, work):
    n = conc(a[1])
    o = st.mem[a[0].obj]
    for k in range(n):
        if E.gather(o, a[0].off + k, 1) is UNDEF:
            return 0
    return 1


@reg('vp_concretize')
def vp_concretize(E, st, fr, ins, a, work):
    v = conc(a[0])
    if isinstance(v, int):
        return v
    raise ForkValue(v, v.size())


@reg('vp_end')
def vp_end(E, st, fr, ins, a, work):
    return END


@reg('vp_havoc_lane')
def vp_havoc_lane(E, st, fr, ins, a, work):
    """forget the content of a symbolic array"""
    o = st.wobj(a[0].obj)
    for k in list(o.lanes):
        E.fresh += 1
        o.lanes[k] = z3.Array('h%d' % E.fresh, z3.BitVecSort(64), z3.BitVecSort(8 * k[1]))
    return None
