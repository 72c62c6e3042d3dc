"""Loop contracts.  A loop is cut at its header:

  1. frame condition: the set of locations the body may change is computed as a
     fixpoint (start with none, run the body, add every location whose value at a
     back edge is not provably its value at the header);
  2. invariants: candidates (supplied `vpp_inv_*` specification functions over the
     ghost state, and templates over the changed locations) are filtered to the
     largest inductive subset (Houdini);
  3. the loop is then replaced by: changed locations arbitrary, invariants assumed;
     every back edge is an obligation, every exit edge continues.

Locations are SSA registers and memory cells, never source names, so renaming,
reordering or extracting code does not matter."""
import re
import z3
from sym import *
import ll


class Cut:
    def __init__(self, pat, invs=(), auto=True, maxh=24):
        self.pat = pat
        self.invs = list(invs)
        self.auto = auto
        self.maxh = maxh


def leaf_values(x, acc, budget):
    """constants at the leaves of an if-then-else term; False when it has other leaves"""
    if isinstance(x, int):
        acc.add(x)
        return True
    if not is_sym(x):
        return False
    if z3.is_bv_value(x):
        acc.add(x.as_long())
        return len(acc) <= budget
    if z3.is_true(x) or z3.is_false(x):
        acc.add(1 if z3.is_true(x) else 0)
        return True
    if z3.is_app_of(x, z3.Z3_OP_ITE):
        return leaf_values(x.arg(1), acc, budget) and leaf_values(x.arg(2), acc, budget)
    if z3.is_bool(x):
        acc.update((0, 1))
        return True
    if z3.is_app_of(x, z3.Z3_OP_ZERO_EXT) or z3.is_app_of(x, z3.Z3_OP_CONCAT):
        return False
    return False


def header_phis(fr, h):
    r = []
    for ins in fr.f.blocks[h]:
        if ins.op != 'phi':
            break
        r.append((ins.dst, ins.ty))
    return r


def get(E, st, depth, loc):
    k = loc[0]
    if k == 'reg':
        return st.frames[depth].regs.get(loc[1], UNDEF)
    o = st.mem.get(loc[1])
    if o is None:
        raise Unsupported('object freed in loop')
    if k == 'cell':
        off, n = loc[2], loc[3]
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return c[1]
        return E.gather(o, off, n)
    if k == 'lane':
        return o.lanes.get((loc[2], loc[3]))
    raise Unsupported(str(loc))


def put(E, st, depth, loc, v):
    k = loc[0]
    if k == 'reg':
        st.frames[depth].regs[loc[1]] = v
        return
    o = st.wobj(loc[1])
    if k == 'cell':
        E.store_cell(o, loc[2], loc[3], v)
        if st.writes is not None:
            st.writes.add((loc[1], loc[2], loc[3]))
    elif k == 'lane':
        E.lane(o, loc[2], loc[3])
        o.lanes[(loc[2], loc[3])] = v
        if st.writes is not None:
            st.writes.add((loc[1], ('lane', loc[2], loc[3]), loc[3]))


def wid(loc, v, ty=None):
    if loc[0] == 'cell':
        return 8 * loc[3]
    if is_sym(v):
        return 1 if z3.is_bool(v) else v.size()
    if ty is not None and ty[0] == 'i':
        return ty[1]
    return 64


def fresh_like(E, st, loc, v, ty):
    """arbitrary value of the same shape"""
    if loc[0] == 'lane':
        E.fresh += 1
        return z3.Array('hl!%d' % E.fresh, z3.BitVecSort(64), z3.BitVecSort(8 * loc[3]))
    if isinstance(v, Ptr):
        if v.obj == 0:
            raise Unsupported('null pointer changes in loop')
        o = st.mem.get(v.obj)
        s = o.stride if o is not None and o.lanes is not None else 1
        if s == 1 and o is not None and o.table is not None:
            s = o.table[0]
        if s == 1 and o is not None and o.cells:
            ws = {c[0] for c in o.cells.values()}
            s = min(ws)
        off = v.off
        base = off % s if isinstance(off, int) else 0
        if not isinstance(off, int):
            lin = linear(off)
            base = lin[0] % s
        if s != 1:
            # offset = base + k*s with k small enough not to wrap (an obligation on every back edge)
            w = 64 - max(1, (s - 1).bit_length())
            k = z3.ZeroExt(64 - w, E.sym(w, 'hp'))
            e = k * z3.BitVecVal(s, 64)
            E.ptr_shape[loc] = (s, base, w)
        else:
            e = E.sym(64, 'hp')
            E.ptr_shape.pop(loc, None)
        if base:
            e = e + z3.BitVecVal(base, 64)
        return Ptr(v.obj, e)
    if isinstance(v, Fn) or isinstance(v, list) or isinstance(v, float):
        raise Unsupported('loop-carried aggregate or function pointer')
    w = wid(loc, v, ty)
    return E.sym(w, 'h')


def same(E, st, a, b, loc):
    """is a provably equal to b under st.pc"""
    if a is b:
        return True
    if a is UNDEF or b is UNDEF:
        return a is b
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.obj != b.obj:
            raise Unsupported('loop-carried pointer changes object')
        a, b = a.off, b.off
    if isinstance(a, (Ptr, Fn, list)) or isinstance(b, (Ptr, Fn, list)):
        if isinstance(a, Fn) and isinstance(b, Fn):
            return a.name == b.name
        if isinstance(a, list) and isinstance(b, list):
            return all(same(E, st, x, y, loc) for x, y in zip(a, b))
        raise Unsupported('loop-carried value changes kind')
    if isinstance(a, float) or isinstance(b, float):
        return a == b
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if loc[0] == 'lane':
        return a.eq(b)
    w = wid(loc, a if is_sym(a) else b)
    if (is_sym(a) and z3.is_bool(a)) or (is_sym(b) and z3.is_bool(b)):
        ne = z3.Xor(tob(a), tob(b))
    else:
        ne = bv(a, w) != bv(b, w)
    ne = z3.simplify(ne)
    if z3.is_false(ne):
        return True
    return E.check(st.pc, ne) == 'unsat'


def norm(E, st, v):
    """value -> BV/Bool term for templates, or None"""
    if isinstance(v, Ptr):
        if v.obj == 0:
            return None
        return bv(v.off, 64)
    if isinstance(v, (Fn, list, float)) or v is UNDEF or v is None:
        return None
    return v


def run_body(E, st, depth, body, h, rec):
    """one muted pass through the body; back-edge states end up in rec['backs']"""
    rec['discover'] = True
    rec['exits'] = []
    rec['backs'] = []
    E.muted += 1
    try:
        E.explore([st], stop=lambda x: len(x.frames) <= depth or
                  (len(x.frames) == depth + 1 and x.frames[depth].block not in body), limit=4000)
    except MergeFail:
        raise Unsupported('too many paths through a loop body')
    finally:
        E.muted -= 1
    return rec['backs']


def exit_decided(E, st0, fr, h, body):
    """does the first iteration decide some exit branch concretely? then the loop
    counts something concrete and is unrolled instead"""
    st = st0.clone()
    depth = len(st.frames) - 1
    rec = {'discover': True, 'exits': [], 'backs': [], 'br': {}, 'probe': True}
    st.frames[-1].cuts[h] = rec
    E.probe.append((depth, fr.f.name, body, rec))
    try:
        run_body(E, st, depth, body, h, rec)
    finally:
        E.probe.pop()
    return any(len(v) == 1 and None not in v for v in rec['br'].values())


def at_header(E, st, fr, h, body, cut, work):
    rec = fr.cuts.get(h)
    if rec is not None:
        if rec.get('unroll'):
            c = fr.visits.get(h, 0) + 1
            fr.visits[h] = c
            if c > E.unroll:
                raise Unsupported('loop in %s not unrolled within %d iterations' % (short(E.dem[fr.f.name]), E.unroll))
            return True
        if rec.get('discover'):
            rec['backs'].append(st.clone())
            return False
        # back edge of the contract run: the invariants are obligations
        depth = len(st.frames) - 1
        vals = {l: get(E, st, depth, l) for l in rec['H']}
        for l, hv in rec['frame'].items():
            v = get(E, st, depth, l)
            if not same(E, st, v, hv, l):
                E.oblige(st, 0, 'loop-frame', 'location changed outside the frame')
        for l, (s, base, w) in rec['shape'].items():
            x = bv(vals[l].off, 64) - z3.BitVecVal(base, 64)
            t = (x & (s - 1)) == 0 if s & (s - 1) == 0 else z3.And(z3.URem(x, z3.BitVecVal(s, 64)) == 0, z3.ULE(x, z3.BitVecVal(((1 << w) - 1) * s, 64)))
            E.oblige(st, z3.simplify(t), 'loop-invariant-preserved', 'pointer-stride')
        for nm, c in rec['C']:
            t = c(E, st, vals)
            if t is None:
                raise Unsupported('invariant not evaluable')
            E.oblige(st, t, 'loop-invariant-preserved', nm)
        if rec.get('rank') is not None:
            l, sign = rec['rank']
            a, b = norm(E, st, vals[l]), norm(E, st, rec['hv'][l])
            E.oblige(st, z3.UGT(bv(a, 64), bv(b, 64)) if sign > 0 else z3.ULT(bv(a, 64), bv(b, 64)), 'loop-progress', '')
        return False

    depth = len(st.frames) - 1
    if cut.auto:
        if exit_decided(E, st, fr, h, body):
            fr.cuts[h] = {'unroll': True}
            return True

    outer = st.writes
    phis = dict(header_phis(fr, h))
    H = []
    init = {}
    frame = {}
    base_pc = st.pc
    rounds = 0
    obs = {}
    while True:
        rounds += 1
        if rounds > 30:
            raise Unsupported('frame fixpoint')
        s = st.clone()
        s.writes = set()
        wr = s.writes
        rec = {}
        s.frames[depth].cuts[h] = rec
        hv = {}
        shape = {}
        for l in H:
            v = fresh_like(E, s, l, init[l], phis.get(l[1]) if l[0] == 'reg' else None)
            hv[l] = v
            if isinstance(v, Ptr) and l in E.ptr_shape:
                shape[l] = E.ptr_shape[l]
            put(E, s, depth, l, v)
        hdr = s.clone()
        backs = run_body(E, s, depth, body, h, rec)
        cand = [('reg', p) for p in phis]
        for oid, off, n in wr:
            if oid not in hdr.mem:
                continue
            o = hdr.mem[oid]
            if off == 'all':
                for bk in backs:
                    ob = bk.mem.get(oid)
                    if ob is None:
                        raise Unsupported('object freed in loop')
                    for b, c in ob.cells.items():
                        cand.append(('cell', oid, b, c[0]))
            elif isinstance(off, tuple):
                cand.append(('lane', oid, off[1], off[2]))
            else:
                cand.append(('cell', oid, off, n))
        cand = [c for c in dict.fromkeys(cand)]
        added = False
        fr_now = {}
        for l in H:
            ob = obs.setdefault(l, set())
            for bk in backs:
                x = get(E, bk, depth, l)
                if is_sym(x):
                    x = conc(x)
                if isinstance(x, int):
                    ob.add(x)
                elif is_sym(x) and same(E, bk, x, hv[l], l):
                    pass
                else:
                    leafs = set()
                    if leaf_values(x, leafs, 12):
                        ob |= leafs
                    else:
                        ob.add(None)
        for l in cand:
            if l in hv:
                continue
            if l[0] == 'lane':
                E.lane(hdr.mem[l[1]], l[2], l[3])
            v0 = get(E, hdr, depth, l)
            changed = False
            for bk in backs:
                ob = bk.mem.get(l[1]) if l[0] != 'reg' else True
                if ob is None or (ob is not True and not ob.alive):
                    raise Unsupported('object freed in loop')
                if not same(E, bk, get(E, bk, depth, l), v0, l):
                    changed = True
                    break
            if changed:
                H.append(l)
                iv = v0
                if iv is UNDEF:
                    # undefined at entry: any defined value may come round
                    for bk in backs:
                        x = get(E, bk, depth, l)
                        if x is not UNDEF:
                            iv = x
                            break
                    init[l] = iv if not isinstance(iv, int) else iv
                else:
                    init[l] = iv
                added = True
            else:
                fr_now[l] = v0
        if not added:
            frame = fr_now
            break
        if len(H) > cut.maxh * 4:
            raise Unsupported('loop changes too many locations')

    # a cell and a different-width cell overlapping: refuse
    cells = sorted([l for l in H if l[0] == 'cell'], key=lambda l: (l[1], l[2]))
    for a, b in zip(cells, cells[1:]):
        if a[1] == b[1] and a[2] + a[3] > b[2]:
            raise Unsupported('overlapping loop locations')

    # ---------------------------------------------------------------- candidates
    C = []
    given = list(cut.invs) + [n for n in E.m.funcs if n.startswith('vpp_inv_') and n not in cut.invs]

    def val_of(vals, l):
        return norm(E, None, vals[l])

    scal = [l for l in H if l[0] != 'lane' and norm(E, st, init[l]) is not None]
    width = {}
    for l in scal:
        v = norm(E, st, hv[l])
        width[l] = 1 if z3.is_bool(v) else v.size()

    def mk(nm, f):
        C.append((nm, f))

    for inv in given:
        def f(E, s, vals, inv=inv):
            fn = E.m.funcs.get(inv)
            if fn is None:
                return None
            E.muted += 1
            try:
                r = E.try_merge(s, fn, [])
            finally:
                E.muted -= 1
            return None if r is None else tob(r[0])
        mk(inv, f)
    # specification functions over the changed registers themselves: vpp_regW_*(x), vpp_pairW_*(x, y)
    def spec(E, s, fn, args):
        E.muted += 1
        try:
            r = E.try_merge(s, fn, args)
        finally:
            E.muted -= 1
        return None if r is None else tob(r[0])
    axs = []
    for nm, fn in E.m.funcs.items():
        k = re.match(r'vpp_(reg|pair|ax)(\d+)_', nm)
        if not k:
            continue
        w = int(k.group(2))
        ls = [l for l in scal if width[l] == w and not isinstance(init[l], Ptr)]
        if k.group(1) == 'ax':
            axs += [(fn, l) for l in ls]
        elif k.group(1) == 'reg':
            for l in ls:
                mk(nm, lambda E, s, vals, l=l, fn=fn, w=w: spec(E, s, fn, [bv(val_of(vals, l), w)]))
        else:
            for a in ls:
                for b in ls:
                    if a != b:
                        mk(nm, lambda E, s, vals, a=a, b=b, fn=fn, w=w: spec(E, s, fn, [bv(val_of(vals, a), w), bv(val_of(vals, b), w)]))

    def axioms(E, s):
        for fn, l in axs:
            t = spec(E, s, fn, [bv(val_of(hv, l), width[l])])
            if t is not None:
                s.pc = s.pc + (t,)
    for l in scal:
        w = width[l]
        if w == 1:
            continue
        i0 = norm(E, st, init[l])
        mk('mono+', lambda E, s, vals, l=l, i0=i0, w=w: z3.UGE(bv(val_of(vals, l), w), bv(i0, w)))
        mk('mono-', lambda E, s, vals, l=l, i0=i0, w=w: z3.ULE(bv(val_of(vals, l), w), bv(i0, w)))
        for k in (1, 3, 7) if E.ints is None else ():
            mk('mod %d' % (k + 1), lambda E, s, vals, l=l, i0=i0, k=k, w=w: (bv(val_of(vals, l), w) & k) == (bv(i0, w) & k))
        ks = [1, 3, 7, 15, 255]
        if w >= 16:
            ks += [0x7FFF, 0x10FFFF]
        if w >= 64:
            ks += [0xFFFFFFFF, 1 << 40, 1 << 60]
        for k in ks:
            mk('<=%d' % k, lambda E, s, vals, l=l, k=k, w=w: z3.ULE(bv(val_of(vals, l), w), z3.BitVecVal(k, w)))
    # finite-state locations: value sets and pairwise exclusions
    fin = []
    for l in scal:
        o = set(obs.get(l, ()))
        i0 = norm(E, st, init[l])
        i0 = conc(i0) if is_sym(i0) else i0
        if None in o or not isinstance(i0, int):
            if width[l] == 1:
                o = {0, 1}
            else:
                continue
        else:
            o.add(i0)
        if len(o) <= 10:
            fin.append((l, sorted(o)))

    def eqv(v, u, w):
        return tob(v) if w == 1 and u else z3.Not(tob(v)) if w == 1 else bv(v, w) == z3.BitVecVal(u, w)
    for l, o in fin:
        mk('in-set', lambda E, s, vals, l=l, o=o: z3.Or(*[eqv(val_of(vals, l), u, width[l]) for u in o]))
    if len(fin) <= 12:
        for i, (a, oa) in enumerate(fin):
            for b, ob in fin[i + 1:]:
                for u in oa:
                    for v in ob:
                        mk('not(a=u,b=v)', lambda E, s, vals, a=a, b=b, u=u, v=v:
                           z3.Not(z3.And(eqv(val_of(vals, a), u, width[a]), eqv(val_of(vals, b), v, width[b]))))
    # bounds by values that do not change: registers of the frame, and cells of reachable objects
    consts = {}
    for nm, v in fr.regs.items():
        if nm in phis:
            continue
        x = v.off if isinstance(v, Ptr) else v
        if is_sym(x) and not z3.is_bool(x) and x.size() == 64:
            consts[x.get_id()] = (x, v.obj if isinstance(v, Ptr) else None)
    for oid, o in st.mem.items():
        if o.cells and len(o.cells) < 64 and o.lanes is None and not o.ro:
            for off, (n, v) in o.cells.items():
                if ('cell', oid, off, n) in hv:
                    continue
                x = v.off if isinstance(v, Ptr) else v
                if is_sym(x) and not z3.is_bool(x) and x.size() == 64:
                    consts[x.get_id()] = (x, v.obj if isinstance(v, Ptr) else None)
    for oid, o in st.mem.items():
        if o.lanes is not None and is_sym(o.size):
            consts[o.size.get_id()] = (o.size, oid)
    cl = list(consts.values())[:40]
    for l in scal:
        if width[l] != 64:
            continue
        po = init[l].obj if isinstance(init[l], Ptr) else None
        for x, ob in cl:
            if po is not None and ob is not None and po != ob:
                continue
            mk('<=const', lambda E, s, vals, l=l, x=x: z3.ULE(bv(val_of(vals, l), 64), x))
            mk('>=const', lambda E, s, vals, l=l, x=x: z3.UGE(bv(val_of(vals, l), 64), x))
    for i, a in enumerate(scal):
        for b in scal[i + 1:]:
            if width[a] != width[b]:
                continue
            w = width[a]
            if w == 1:
                mk('a=b', lambda E, s, vals, a=a, b=b: tob(val_of(vals, a)) == tob(val_of(vals, b)))
                mk('a=!b', lambda E, s, vals, a=a, b=b: tob(val_of(vals, a)) != tob(val_of(vals, b)))
                continue
            a0, b0 = norm(E, st, init[a]), norm(E, st, init[b])
            mk('a=b', lambda E, s, vals, a=a, b=b, w=w: bv(val_of(vals, a), w) == bv(val_of(vals, b), w))
            mk('a-a0=b-b0', lambda E, s, vals, a=a, b=b, w=w, a0=a0, b0=b0:
               bv(val_of(vals, a), w) - bv(a0, w) == bv(val_of(vals, b), w) - bv(b0, w))
            mk('a+b', lambda E, s, vals, a=a, b=b, w=w, a0=a0, b0=b0:
               bv(val_of(vals, a), w) + bv(val_of(vals, b), w) == bv(a0, w) + bv(b0, w))
            mk('a<=b', lambda E, s, vals, a=a, b=b, w=w: z3.ULE(bv(val_of(vals, a), w), bv(val_of(vals, b), w)))
            mk('b<=a', lambda E, s, vals, a=a, b=b, w=w: z3.ULE(bv(val_of(vals, b), w), bv(val_of(vals, a), w)))
            # strides: pointer offsets advance k bytes per element
            if w == 64:
                for k in (2, 4, 8, 12, 16, 20, 24):
                    mk('ka=b', lambda E, s, vals, a=a, b=b, k=k, a0=a0, b0=b0:
                       (bv(val_of(vals, a), 64) - bv(a0, 64)) * k == bv(val_of(vals, b), 64) - bv(b0, 64))
                    mk('a=kb', lambda E, s, vals, a=a, b=b, k=k, a0=a0, b0=b0:
                       bv(val_of(vals, a), 64) - bv(a0, 64) == (bv(val_of(vals, b), 64) - bv(b0, 64)) * k)

    # hold at entry?
    e = st.clone()
    vals0 = {l: get(E, e, depth, l) for l in H}
    ok = []
    for nm, c in C:
        try:
            t = c(E, e, vals0)
        except (Unsupported, AttributeError, TypeError, z3.Z3Exception):
            t = None
        if not isinstance(t, z3.ExprRef):
            continue
        t = z3.simplify(t)
        if z3.is_true(t) or (not z3.is_false(t) and E.check(e.pc, z3.Not(t)) == 'unsat'):
            ok.append((nm, c))
    C = ok
    # Houdini
    while True:
        s = st.clone()
        s.writes = set()
        rec = {}
        s.frames[depth].cuts[h] = rec
        for l in H:
            put(E, s, depth, l, hv[l])
        axioms(E, s)
        for nm, c in C:
            s.pc = s.pc + (c(E, s, hv),)
        if E.check(s.pc) == 'unsat':
            break
        backs = run_body(E, s, depth, body, h, rec)
        drop = set()
        for bk in backs:
            if E.check(bk.pc) == 'unsat':
                continue
            vals = {l: get(E, bk, depth, l) for l in H}
            ts = []
            for i, (nm, c) in enumerate(C):
                if i in drop:
                    continue
                t = c(E, bk, vals)
                if t is None:
                    drop.add(i)
                else:
                    ts.append((i, t))
            while ts:
                r = E.check(bk.pc, z3.Not(z3.And(*[t for _, t in ts])))
                if r == 'unsat':
                    break
                if r == 'sat' and E.model is not None:
                    m = E.model
                    bad = [i for i, t in ts if z3.is_false(m.eval(t, model_completion=True))]
                    if not bad:
                        bad = [i for i, t in ts if E.check(bk.pc, z3.Not(t)) != 'unsat']
                else:
                    bad = [i for i, t in ts if E.check(bk.pc, z3.Not(t)) != 'unsat']
                if not bad:
                    break
                drop.update(bad)
                ts = [(i, t) for i, t in ts if i not in drop]
        if not drop:
            break
        C = [c for i, c in enumerate(C) if i not in drop]
    # progress measure (termination evidence, optional)
    rank = None
    for l in scal:
        if width[l] != 64 or not backs:
            continue
        for sign in (1, -1):
            if all(E.check(bk.pc, z3.Not(z3.UGT(bv(norm(E, bk, get(E, bk, depth, l)), 64), bv(norm(E, bk, hv[l]), 64)) if sign > 0
                   else z3.ULT(bv(norm(E, bk, get(E, bk, depth, l)), 64), bv(norm(E, bk, hv[l]), 64)))) == 'unsat' for bk in backs):
                rank = (l, sign)
                break
        if rank:
            break
    if not E.muted:
        E.loopinfo.append({'function': short(E.dem.get(fr.f.name, fr.f.name)), 'header': h, 'changed': len(H),
                           'invariants': len(C), 'given': [nm for nm, _ in C if nm in given or nm.startswith('vpp_')], 'progress_measure': rank is not None,
                           'names': [nm for nm, _ in C][:30]})
    # contract run
    if outer is not None:
        for l in H:
            if l[0] == 'cell':
                outer.add((l[1], l[2], l[3]))
            elif l[0] == 'lane':
                outer.add((l[1], ('lane', l[2], l[3]), l[3]))
    st.writes = outer
    for l in H:
        put(E, st, depth, l, hv[l])
    axioms(E, st)
    for nm, c in C:
        t = c(E, st, hv)
        st.pc = st.pc + (t,)
    st.nd = st.nd + (('#cut', None),)
    st.frames[depth].cuts[h] = {'H': H, 'hv': dict(hv), 'C': C, 'frame': frame, 'rank': rank,
                                  'shape': shape}
    if E.check(st.pc) == 'unsat':
        return False
    return True
