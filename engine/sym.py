"""Deductive verifier for LLVM IR: generates verification conditions by
symbolic execution of the compiled code, function bodies either entered or
replaced by a contract stub, loops either unrolled to exhaustion (complete when
the exit is forced) or cut at their header with inductive invariants (given
templates, filtered by Houdini).  Every obligation goes to z3, then cvc5."""
import os, re, subprocess, sys, time, tempfile
import z3
import ll

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Ptr:
    __slots__ = ('obj', 'off')

    def __init__(self, obj, off=0):
        self.obj = obj
        self.off = off

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj, self.off)


class Fn:
    __slots__ = ('name',)

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Fn(%s)' % self.name


NULL = Ptr(0, 0)
M64 = (1 << 64) - 1


def is_sym(v):
    return isinstance(v, z3.ExprRef)


def bv(v, w):
    """value -> z3 BitVec of width w"""
    if isinstance(v, int):
        return z3.BitVecVal(v, w)
    if z3.is_bool(v):
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    return v


def tob(v):
    """i1 value -> z3 Bool"""
    if isinstance(v, int):
        return z3.BoolVal(bool(v & 1))
    if z3.is_bool(v):
        return v
    return v == z3.BitVecVal(1, v.size())


def conc(v):
    """try to make concrete"""
    if isinstance(v, int) or not is_sym(v):
        return v
    s = z3.simplify(v)
    if z3.is_bv_value(s):
        return s.as_long()
    if z3.is_true(s):
        return 1
    if z3.is_false(s):
        return 0
    return s


def sgn(v, w):
    return v - (1 << w) if v >> (w - 1) else v


class Obj:
    __slots__ = ('id', 'size', 'cells', 'lanes', 'stride', 'zero', 'own', 'name', 'alive', 'table', 'heap', 'ro', 'havoc', 'count')

    def __init__(self, id, size, name='', zero=False):
        self.id = id
        self.size = size
        self.cells = {}
        self.lanes = None       # for strided symbolic arrays: (fieldoff,nbytes) -> z3 Array
        self.stride = 0
        self.zero = zero
        self.own = None
        self.name = name
        self.alive = True
        self.table = None       # (elem bytes, [ints])
        self.heap = False
        self.ro = False
        self.havoc = False
        self.count = None

    def copy(self):
        o = Obj.__new__(Obj)
        o.id = self.id
        o.size = self.size
        o.cells = dict(self.cells)
        o.lanes = dict(self.lanes) if self.lanes is not None else None
        o.stride = self.stride
        o.zero = self.zero
        o.name = self.name
        o.alive = self.alive
        o.table = self.table
        o.heap = self.heap
        o.ro = self.ro
        o.havoc = self.havoc
        o.count = self.count
        return o


class Frame:
    __slots__ = ('f', 'regs', 'block', 'ip', 'prev', 'dst', 'norm', 'unw', 'allocas', 'visits', 'cuts', 'rety', 'hook')

    def __init__(self, f):
        self.f = f
        self.regs = {}
        self.block = f.entry
        self.ip = 0
        self.prev = None
        self.dst = None
        self.norm = None
        self.unw = None
        self.allocas = []
        self.visits = {}
        self.cuts = {}
        self.rety = None
        self.hook = None

    def copy(self):
        n = Frame.__new__(Frame)
        n.f = self.f
        n.regs = dict(self.regs)
        n.block = self.block
        n.ip = self.ip
        n.prev = self.prev
        n.dst = self.dst
        n.norm = self.norm
        n.unw = self.unw
        n.allocas = list(self.allocas)
        n.visits = dict(self.visits)
        n.cuts = dict(self.cuts)
        n.rety = self.rety
        n.hook = self.hook
        return n


class State:
    uid = 0

    def __init__(self):
        self.frames = []
        self.mem = {}
        self.pc = ()            # tuple of z3 Bools
        self.nd = ()            # nondet log
        self.id = State.newid()
        self.writes = None      # set of (obj, off, n) while recording
        self.exc = None
        self.trace = ()

    @staticmethod
    def newid():
        State.uid += 1
        return State.uid

    def clone(self):
        s = State.__new__(State)
        s.frames = [f.copy() for f in self.frames]
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.nd = self.nd
        s.id = State.newid()
        self.id = State.newid()
        s.writes = self.writes
        s.exc = self.exc
        s.trace = self.trace
        return s

    def wobj(self, oid):
        o = self.mem[oid]
        if o.own != self.id:
            o = o.copy()
            o.own = self.id
            self.mem[oid] = o
        return o


def demangle(names):
    names = list(names)
    p = subprocess.run(['llvm-cxxfilt-18'], input='\n'.join(names), capture_output=True, text=True)
    out = p.stdout.split('\n')
    return dict(zip(names, out))


class Obl:
    """aggregate of obligation instances sharing one label"""
    def __init__(self, label):
        self.label = label
        self.n = 0
        self.proved = 0
        self.status = 'proved'
        self.solvers = {}
        self.cex = None
        self.replayable = False
        self.info = ''


class Engine:
    def __init__(self, mod, cfg=None):
        self.m = mod
        cfg = cfg or {}
        self.stubs = {}              # mangled name -> stub function name or python callable
        self.cuts = cfg.get('cuts', [])   # list of Cut
        self.unroll = cfg.get('unroll', 2000)
        self.timeout = cfg.get('timeout', 20000)      # ms per obligation (z3)
        self.deadline = cfg.get('deadline', 600)
        self.feas = cfg.get('feas', 0)
        self.lazy = cfg.get('lazy', False)     # assumptions are not checked for satisfiability as they are made
        self.fresh_first = cfg.get('fresh', False)
        self.ints = None
        self.by = 'z3'
        if cfg.get('ints'):
            import ints
            self.ints = ints.Ints(self.timeout)
        self.automerge = cfg.get('automerge', True)
        self.dem = demangle(list(mod.funcs) + list(mod.decls))
        self.nextobj = 1
        self.fresh = 0
        self.globals = {}
        self.gobjs = {}
        self.solver = None
        self.sstack = []
        self.obls = {}
        self.covers = {}
        self.muted = 0
        self.solver_time = 0.0
        self.nchecks = 0
        self.npaths = 0
        self.ninstr = 0
        self.entered = set()
        self.used_stubs = set()
        self.notes = set()
        self.tables = {}
        self.tblfun = {}
        self.lemmas = cfg.get('lemmas', {})
        self.tmpl = cfg.get('tmpl', [])
        self.stop_on_first = cfg.get('stop_on_first', False)
        self.fail_limit = cfg.get('fail_limit', 3)
        self.nfail = 0
        self.t0 = time.time()
        self.merge_cache = {}
        self.nomerge = set()
        self.stub_pats = cfg.get('stubs', [])
        for pat, target in self.stub_pats:
            rx = re.compile(pat)
            hit = False
            for mn, dn in self.dem.items():
                if rx.search(dn):
                    self.stubs[mn] = target
        self.maxmerge = cfg.get('maxmerge', 400)
        self.loopinfo = []
        self.probe = []
        self.ptr_shape = {}
        self.lane_init = {}

    # ------------------------------------------------------------ symbols
    def sym(self, w, name='s'):
        self.fresh += 1
        if w == 1:
            return z3.Bool('%s!%d' % (name, self.fresh))
        return z3.BitVec('%s!%d' % (name, self.fresh), w)

    def need(self, v, w):
        """force undef to a fresh symbol"""
        if v is UNDEF:
            return self.sym(w, 'undef')
        return v

    # ------------------------------------------------------------ solver
    def _sync(self, pc):
        s = self.solver
        if s is None:
            s = self.solver = z3.Solver()
            s.set('timeout', self.timeout)
            self.sstack = []
        st = self.sstack
        k = 0
        n = min(len(st), len(pc))
        while k < n and st[k] is pc[k]:
            k += 1
        if k < len(st):
            s.pop(len(st) - k)
            del st[k:]
        for c in pc[k:]:
            s.push()
            s.add(c)
            st.append(c)
        return s

    def check(self, pc, extra=None, ms=None):
        """sat/unsat/unknown of pc and extra"""
        if time.time() - self.t0 > self.deadline:
            raise Budget('deadline')
        t = time.time()
        self.nchecks += 1
        if self.ints is not None:
            r = self.ints.check(pc, extra, ms)
            if r != 'unknown' or ms:
                self.model = None
                self.by = 'z3 (integers)'
                self.solver_time += time.time() - t
                return r
        self.by = 'z3'
        s = self._sync(pc)
        if extra is None:
            r = s.check()
        else:
            s.push()
            s.add(extra)
            r = s.check()
            if r == z3.sat:
                self.model = s.model()
            s.pop()
        if extra is None and r == z3.sat:
            self.model = s.model()
        self.solver_time += time.time() - t
        return str(r)

    def feasible(self, pc, c):
        """may pc and c hold together?  With cfg `feas` (ms) the question is only asked that long; no answer counts as yes"""
        if not self.feas:
            return self.check(pc, c) != 'unsat'
        if self.ints is not None:
            return self.check(pc, c, self.feas) != 'unsat'
        s = self._sync(pc)
        s.set('timeout', self.feas)
        try:
            return self.check(pc, c) != 'unsat'
        finally:
            s.set('timeout', self.timeout)

    def hard_check(self, pc, extra):
        """second and third attempts when the incremental solver gives up"""
        t = time.time()
        try:
            s = z3.SolverFor('QF_AUFBV')
            s.set('timeout', self.timeout * 2)
            for c in pc:
                s.add(c)
            s.add(extra)
            r = str(s.check())
            if r == 'sat':
                self.model = s.model()
            if r != 'unknown':
                return r, 'z3-fresh'
            r = cvc5_check(s.to_smt2(), self.timeout * 2 // 1000 + 1)
            self.model = None
            return r, 'cvc5'
        finally:
            self.solver_time += time.time() - t

    def may(self, st, cond):
        """is cond possible under the path condition?"""
        if isinstance(cond, int):
            return bool(cond)
        r = self.check(st.pc, cond)
        return r != 'unsat'

    def add_pc(self, st, cond):
        if isinstance(cond, int):
            if not cond:
                st.pc = st.pc + (z3.BoolVal(False),)
            return
        st.pc = st.pc + (cond,)

    # ------------------------------------------------------------ obligations
    def oblige(self, st, cond, label, info=''):
        """prove cond under the path condition; afterwards assume it"""
        cond = conc(cond) if not isinstance(cond, int) else cond
        if self.muted:
            if isinstance(cond, int):
                return bool(cond)
            # in discovery passes the condition is just assumed
            self.add_pc(st, tob(cond))
            return self.check(st.pc) != 'unsat'
        o = self.obls.get(label)
        if o is None:
            o = self.obls[label] = Obl(label)
        o.n += 1
        if isinstance(cond, int) and cond & 1:
            o.proved += 1
            o.solvers['simplifier'] = o.solvers.get('simplifier', 0) + 1
            return True
        neg = z3.Not(tob(cond)) if not isinstance(cond, int) else z3.BoolVal(True)
        by = 'z3'
        if self.fresh_first:
            r, by = self.hard_check(st.pc, neg)
        else:
            r = self.check(st.pc, neg)
            by = self.by
        if r == 'unknown' and not self.fresh_first:
            r, by = self.hard_check(st.pc, neg)
        if r == 'unsat':
            o.proved += 1
            o.solvers[by] = o.solvers.get(by, 0) + 1
            if isinstance(cond, int):
                return False      # infeasible path
            self.add_pc(st, tob(cond))
            return True
        if r == 'sat':
            o.status = 'refuted'
            if o.cex is None:
                o.cex, o.replayable = self.cex_of(st, neg)
                o.info = info + ' in ' + '/'.join(short(self.dem.get(f.f.name, f.f.name)) for f in st.frames[-4:])
            if not label.startswith('lemma: '):
                self.nfail += 1
            if self.nfail >= self.fail_limit:
                raise Budget('failure limit')
            if isinstance(cond, int):
                return False
            self.add_pc(st, tob(cond))
            return self.check(st.pc) != 'unsat'
        if o.status == 'proved':
            o.status = 'unknown'
            o.info = info
        if isinstance(cond, int):
            return False
        self.add_pc(st, tob(cond))
        return True

    def cex_of(self, st, neg):
        """concrete nondeterministic choices of the failing path"""
        if any(nm.startswith('#') for nm, _ in st.nd) or self.ints is not None:
            return [('note', 0)], False
        arrs = [v for nm, v in st.nd if nm == 'array']
        small = []
        for (oid, name, n, s) in arrs:
            if is_sym(n):
                small.append(z3.ULE(n, z3.BitVecVal(24, 64)))
        if self.model is None or small:
            r = self.check(st.pc, z3.And(neg, *small))
            if r != 'sat':
                return [('note', 0)], False
        mdl = self.model
        vals = []
        for nm, v in st.nd:
            if nm == 'array':
                oid, name, n, s = v
                cnt = mdl.eval(n, model_completion=True).as_long() if is_sym(n) else n
                if cnt > 4096:
                    return [('note', 0)], False
                buf = bytearray(cnt * s)
                for (f, w), a in self.lane_init.get(name, {}).items():
                    for i in range(cnt):
                        x = mdl.eval(z3.Select(a, z3.BitVecVal(i, 64)), model_completion=True)
                        buf[i * s + f:i * s + f + w] = x.as_long().to_bytes(w, 'little')
                vals.append(('array', buf.hex() or '-'))
                continue
            x = mdl.eval(v, model_completion=True) if is_sym(v) else v
            if isinstance(x, int):
                vals.append((nm, x))
            elif z3.is_bool(x):
                vals.append((nm, 1 if z3.is_true(x) else 0))
            else:
                vals.append((nm, x.as_long()))
        return vals, True

    # ------------------------------------------------------------ memory
    def alloc(self, st, size, name='', zero=False):
        oid = self.nextobj
        self.nextobj += 1
        o = Obj(oid, size, name, zero)
        o.own = st.id
        st.mem[oid] = o
        return oid

    def global_ptr(self, st, name):
        g = self.m.globals.get(name)
        if g is None:
            if name in self.m.funcs or name in self.m.decls:
                return Fn(name)
            raise Unsupported('global ' + name)
        if 'alias' in g:
            return self.const(st, ('ptr',), g['alias'])
        oid = self.gobjs.get(name)
        if oid is None:
            oid = self.nextobj
            self.nextobj += 1
            self.gobjs[name] = oid
        if oid not in st.mem:
            o = self.globals.get(name)
            if o is None:
                t = g['type']
                o = Obj(oid, self.m.size(t), '@' + name)
                o.ro = g['const']
                self.globals[name] = o
                st.mem[oid] = o
                if not g['ext']:
                    init = ll.global_init(self.m, name)
                    tb = self.as_table(t, init) if g['const'] else None
                    if tb:
                        o.table = tb
                    else:
                        self.init_mem(st, o, 0, t, init)
                else:
                    self.notes.add('external global ' + name)
            else:
                st.mem[oid] = o
        return Ptr(oid, 0)

    def as_table(self, t, init):
        """constant integer arrays (possibly wrapped in one-field structs)"""
        t = self.m.resolve(t)
        while t[0] == 'struct' and len(t[2]) == 1 and init[0] == 'agg':
            t2, init = init[1][0]
            t = self.m.resolve(t2)
        if t[0] == 'arr' and t[2][0] == 'i' and t[2][1] in (8, 16, 32, 64) and t[1] > 8:
            if init[0] == 'str':
                return (1, list(init[1]))
            if init[0] == 'agg' and all(v[1][0] == 'c' for v in init[1]):
                w = t[2][1]
                return (w // 8, [v[1][1] & ((1 << w) - 1) for v in init[1]])
        return None

    def init_mem(self, st, o, off, t, v):
        t = self.m.resolve(t)
        k = v[0]
        if k == 'zero' and t[0] in ('arr', 'struct', 'vec'):
            if off == 0 and o.size == self.m.size(t) and not o.cells:
                o.zero = True
                return
            if t[0] == 'arr':
                s = self.m.size(t[2])
                for i in range(t[1]):
                    self.init_mem(st, o, off + i * s, t[2], ('zero',))
            else:
                for f, fo in zip(t[2], self.m.offsets(t)):
                    self.init_mem(st, o, off + fo, f, ('zero',))
            return
        if k == 'undef':
            return
        if k == 'str':
            for i, b in enumerate(v[1]):
                o.cells[off + i] = (1, b)
            return
        if k == 'agg':
            if t[0] == 'arr':
                s = self.m.size(t[2])
                for i, (et, ev) in enumerate(v[1]):
                    self.init_mem(st, o, off + i * s, et, ev)
            else:
                for (et, ev), fo in zip(v[1], self.m.offsets(t)):
                    self.init_mem(st, o, off + fo, et, ev)
            return
        val = self.const(st, t, v)
        o.cells[off] = (self.m.size(t), val)

    def bounds(self, st, p, n, what):
        """memory-safety obligation for an access of n bytes at p; returns Obj or None"""
        if not isinstance(p, Ptr):
            if p is UNDEF:
                self.oblige(st, 0, 'memory-safety', '%s through undefined pointer' % what)
                return None
            raise Unsupported('%s through non-pointer %r' % (what, p))
        if p.obj == 0:
            self.oblige(st, 0, 'memory-safety', 'null %s' % what)
            return None
        o = st.mem.get(p.obj)
        if o is None or not o.alive:
            self.oblige(st, 0, 'memory-safety', '%s of freed object' % what)
            return None
        off = p.off
        if isinstance(off, int) and isinstance(o.size, int):
            soff = sgn(off, 64)
            if soff < 0 or soff + n > o.size:
                self.oblige(st, 0, 'memory-safety', 'out of bounds %s of %s (offset %d, size %d)' % (what, o.name, soff, o.size))
                return None
            return o
        off = bv(off, 64)
        size = bv(o.size, 64)
        nn = z3.BitVecVal(n, 64)
        ok = z3.And(z3.ULE(off, size), z3.ULE(nn, size - off))
        if o.lanes is not None and is_sym(o.size) and getattr(o, 'count', None) is not None:
            # element index below the element count, field inside the element: implies the above (the count is far below 2^64/stride)
            lin = linear(off)
            if lin is not None and lin[0] % o.stride + n <= o.stride:
                x = self.div_off(off - z3.BitVecVal(lin[0] % o.stride, 64), o.stride)
                if x is not None:
                    ok = z3.ULT(x, bv(o.count, 64))
        if not self.oblige(st, ok, 'memory-safety', 'out of bounds %s of %s' % (what, o.name)):
            return None
        return o

    def load(self, st, p, t):
        t = self.m.resolve(t)
        if t[0] in ('struct', 'arr'):
            # aggregate load
            r = []
            if t[0] == 'arr':
                s = self.m.size(t[2])
                offs = [i * s for i in range(t[1])]
                ts = [t[2]] * t[1]
            else:
                offs = self.m.offsets(t)
                ts = t[2]
            for fo, ft in zip(offs, ts):
                r.append(self.load(st, self.padd(p, fo), ft))
            return r
        n = self.m.size(t)
        o = self.bounds(st, p, n, 'read')
        if o is None:
            return None
        return self.load_raw(st, o, p.off, n, t)

    def tbl_load(self, st, o, off, n):
        eb, vals = o.table
        if isinstance(off, int):
            if n == eb and off % eb == 0:
                return vals[off // eb]
            b = bytearray()
            for k in range(off, off + n):
                b.append((vals[k // eb] >> (8 * (k % eb))) & 255)
            return int.from_bytes(b, 'little')
        if n != eb:
            raise Unsupported('mixed-width table access')
        idx = self.div_off(off, eb)
        if idx is None:
            raise Unsupported('table stride')
        if len(vals) <= 512:
            w = 8 * n
            # group equal neighbours to keep the expression small
            r = z3.BitVecVal(vals[-1], w)
            for i in range(len(vals) - 2, -1, -1):
                if vals[i] == vals[i + 1]:
                    continue
                r = z3.If(z3.ULE(idx, z3.BitVecVal(i, 64)), z3.BitVecVal(vals[i], w), r)
            return r
        key = o.name
        f = self.tblfun.get(key)
        if f is None:
            f = z3.Function('tbl' + key, z3.BitVecSort(64), z3.BitVecSort(8 * n))
            self.tblfun[key] = f
            self.tables[key] = (min(vals), max(vals))
        v = f(idx)
        lo, hi = self.tables[key]
        self.add_pc(st, z3.And(z3.ULE(z3.BitVecVal(lo, 8 * n), v), z3.ULE(v, z3.BitVecVal(hi, 8 * n))))
        for pat, lem in self.lemmas.items():
            if re.search(pat, key):
                self.add_pc(st, lem(idx, v))
        return v

    def div_off(self, off, s):
        """off / s as BV64 when syntactically a multiple of s"""
        if isinstance(off, int):
            return z3.BitVecVal(off // s, 64) if off % s == 0 else None
        r = linear(off)
        if r is None:
            return None
        c, terms = r
        if c % s:
            return None
        acc = z3.BitVecVal(c // s, 64)
        for k, x in terms:
            if k % s:
                return None
            q = k // s
            acc = acc + (x if q == 1 else x * z3.BitVecVal(q & M64, 64))
        return z3.simplify(acc)

    def load_raw(self, st, o, off, n, t):
        if o.table is not None:
            return self.from_bits(self.tbl_load(st, o, off, n), t)
        if o.lanes is not None:
            return self.from_bits(self.lane_load(st, o, off, n), t)
        if not isinstance(off, int):
            off2 = conc(off)
            if isinstance(off2, int):
                off = off2
            else:
                return self.sym_load(st, o, off, n, t)
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return self.from_bits(c[1], t)
        return self.from_bits(self.gather(o, off, n), t)

    def gather(self, o, off, n):
        """assemble n bytes at concrete off"""
        parts = []      # low to high : (value,width bits) ; undef -> None
        k = off
        end = off + n
        anyd = False
        while k < end:
            hit = None
            for b in range(k, k - 16, -1):
                c = o.cells.get(b)
                if c is not None:
                    if b + c[0] > k:
                        hit = (b, c)
                    break
            if hit is None:
                if o.zero:
                    parts.append((0, 8))
                    anyd = True
                else:
                    parts.append((UNDEF, 8))
                k += 1
                continue
            b, c = hit
            lo = k - b
            hi = min(b + c[0], end) - b
            v = c[1]
            if isinstance(v, (Ptr, Fn)):
                if lo == 0 and hi == c[0] and n == 8:
                    return v
                raise Unsupported('partial pointer read')
            if isinstance(v, list) or isinstance(v, float):
                raise Unsupported('partial read of aggregate/float')
            w = (hi - lo) * 8
            if v is UNDEF:
                parts.append((UNDEF, w))
            elif isinstance(v, int):
                parts.append(((v >> (8 * lo)) & ((1 << w) - 1), w))
                anyd = True
            else:
                v = bv(v, c[0] * 8)
                if w != c[0] * 8:
                    v = z3.Extract(8 * hi - 1, 8 * lo, v)
                parts.append((v, w))
                anyd = True
            k = b + hi
        if not anyd:
            return UNDEF
        if all(isinstance(v, int) for v, _ in parts):
            r = 0
            sh = 0
            for v, w in parts:
                r |= v << sh
                sh += w
            return r
        es = []
        for v, w in reversed(parts):
            if v is UNDEF:
                es.append(self.sym(w, 'undef') if w > 1 else bv(self.sym(1), 1))
            else:
                es.append(bv(v, w))
        r = es[0] if len(es) == 1 else z3.Concat(*es)
        return conc(r)

    def from_bits(self, v, t):
        """bits in memory -> SSA value of type t"""
        if v is UNDEF:
            return UNDEF
        if t[0] == 'i':
            w = t[1]
            if isinstance(v, (Ptr, Fn)):
                return v        # pointer loaded as integer keeps its provenance
            if isinstance(v, int):
                return v & ((1 << w) - 1)
            if isinstance(v, float):
                raise Unsupported('float as int')
            if w == 1:
                if z3.is_bool(v):
                    return v
                return conc(z3.Extract(0, 0, v) == z3.BitVecVal(1, 1))
            v = bv(v, max(8, w))
            if v.size() > w:
                v = conc(z3.Extract(w - 1, 0, v))
            return v
        if t[0] == 'ptr':
            if isinstance(v, (Ptr, Fn)):
                return v
            if isinstance(v, int):
                if v == 0:
                    return NULL
                return v if v else NULL
            return v
        if t[0] == 'fp':
            if isinstance(v, float):
                return v
            if isinstance(v, int):
                import struct
                if t[1] == 'double':
                    return struct.unpack('<d', struct.pack('<Q', v))[0]
                if t[1] == 'float':
                    return struct.unpack('<f', struct.pack('<I', v))[0]
            return UNDEF
        raise Unsupported('load type %r' % (t,))

    def sym_load(self, st, o, off, n, t):
        cand = []
        lin = linear(off)
        for b, c in o.cells.items():
            if c[0] != n:
                if c[1] is UNDEF:
                    continue
                raise_if = True
                if self.may(st, z3.And(z3.UGT(off + n, b), z3.ULT(off, b + c[0]))):
                    # mixed-size access: split into bytes
                    return self.sym_load_bytes(st, o, off, n, t)
                continue
            if lin is not None and not congruent(lin, b, n):
                continue
            cand.append((b, c[1]))
        if len(cand) > 600:
            raise Unsupported('large symbolic read')
        if o.zero:
            dflt = z3.BitVecVal(0, 8 * n)
        elif o.havoc:
            raise Unsupported('havoc object read')
        else:
            dflt = None
        feas = []
        for b, v in cand:
            if v is UNDEF:
                continue
            feas.append((b, v))
        if any(isinstance(v, (Ptr, Fn)) for _, v in feas):
            raise ForkOffset(o, off, sorted(b for b, _ in feas))
        if not feas and dflt is None:
            return UNDEF
        r = dflt if dflt is not None else bv(feas[-1][1], 8 * n)
        for b, v in feas:
            r = z3.If(off == z3.BitVecVal(b, 64), bv(v, 8 * n), r)
        return self.from_bits(r, t)

    def sym_load_bytes(self, st, o, off, n, t):
        if not isinstance(o.size, int) or o.size > 64:
            raise ForkOffset(o, off, None)
        es = []
        for k in range(n):
            r = None
            for b in range(o.size):
                try:
                    v = self.gather(o, b, 1)
                except Unsupported:
                    raise ForkOffset(o, off, None)
                if v is UNDEF:
                    continue
                r = bv(v, 8) if r is None else z3.If(off + k == b, bv(v, 8), r)
            if r is None:
                return UNDEF
            es.append(r)
        r = es[0] if n == 1 else z3.Concat(*reversed(es))
        return self.from_bits(r, t)

    def lane_split(self, o, off):
        """off -> (index expr, field offset)"""
        s = o.stride
        if isinstance(off, int):
            return z3.BitVecVal(off // s, 64), off % s
        lin = linear(off)
        if lin is None:
            raise Unsupported('non-linear offset')
        c, terms = lin
        cs = sgn(c & M64, 64)
        f = cs % s
        acc = z3.BitVecVal(((cs - f) // s) & M64, 64)
        for k, x in terms:
            if k % s:
                raise Unsupported('offset not a multiple of the element size %d: %s' % (s, off))
            q = (k // s) & M64
            acc = acc + (x if q == 1 else x * z3.BitVecVal(q, 64))
        return z3.simplify(acc), f

    def lane(self, o, f, n):
        a = o.lanes.get((f, n))
        if a is None:
            for (f2, n2) in o.lanes:
                if f2 < f + n and f < f2 + n2:
                    return None
            a = z3.Array('%s.%d.%d' % (o.name, f, n), z3.BitVecSort(64), z3.BitVecSort(8 * n))
            # lazily created initial content is shared by every state
            o.lanes[(f, n)] = a
            self.lane_init.setdefault(o.name, {})[(f, n)] = a
        return a

    def lane_load(self, st, o, off, n):
        if n > o.stride:
            raise Unsupported('wide array read')
        idx, f = self.lane_split(o, off)
        if f + n > o.stride:
            raise Unsupported('straddling array read')
        a = self.lane(o, f, n)
        if a is not None:
            return z3.simplify(z3.Select(a, idx))
        # mixed widths: combine or extract existing lanes
        parts = []
        for (f2, n2), a2 in sorted(o.lanes.items()):
            if f2 <= f and f + n <= f2 + n2:
                v = z3.Select(a2, idx)
                return z3.simplify(z3.Extract(8 * (f + n - f2) - 1, 8 * (f - f2), v))
        k = f
        es = []
        while k < f + n:
            hit = None
            for (f2, n2), a2 in sorted(o.lanes.items()):
                if f2 <= k < f2 + n2:
                    hit = (f2, n2, a2)
                    break
            if hit is None:
                # hole: create the lane for the hole up to the next lane
                nx = min([f2 for (f2, _) in o.lanes if f2 > k] + [f + n])
                w = 1
                while w * 2 <= nx - k and k % (w * 2) == 0:
                    w *= 2
                a2 = self.lane(o, k, w)
                hit = (k, w, a2)
            f2, n2, a2 = hit
            if f2 != k or f2 + n2 > f + n:
                raise Unsupported('mixed-width array read')
            es.append(z3.Select(a2, idx))
            k = f2 + n2
        return z3.simplify(z3.Concat(*reversed(es)))

    def lane_store(self, st, o, off, n, v):
        idx, f = self.lane_split(o, off)
        if f + n > o.stride:
            raise Unsupported('straddling array write')
        if isinstance(v, (Ptr, Fn)):
            raise Unsupported('pointer stored in symbolic array')
        a = self.lane(o, f, n)
        if v is UNDEF:
            v = self.sym(8 * n, 'undef')
        v = bv(v, 8 * n)
        if z3.is_bv(v) and v.size() != 8 * n:
            v = z3.ZeroExt(8 * n - v.size(), v)
        if a is not None:
            o.lanes[(f, n)] = z3.Store(a, idx, v)
            return
        k = f
        while k < f + n:
            hit = None
            for (f2, n2), a2 in sorted(o.lanes.items()):
                if f2 <= k < f2 + n2:
                    hit = (f2, n2, a2)
                    break
            if hit is None:
                nx = min([f2 for (f2, _) in o.lanes if f2 > k] + [f + n])
                w = 1
                while w * 2 <= nx - k and k % (w * 2) == 0:
                    w *= 2
                hit = (k, w, self.lane(o, k, w))
            f2, n2, a2 = hit
            if f2 != k or f2 + n2 > f + n:
                raise Unsupported('mixed-width array write')
            o.lanes[(f2, n2)] = z3.Store(a2, idx, z3.Extract(8 * (k - f + n2) - 1, 8 * (k - f), v))
            k = f2 + n2

    def store(self, st, p, t, v):
        t = self.m.resolve(t)
        if t[0] in ('struct', 'arr'):
            if v is UNDEF:
                return
            if t[0] == 'arr':
                s = self.m.size(t[2])
                offs = [i * s for i in range(t[1])]
                ts = [t[2]] * t[1]
            else:
                offs = self.m.offsets(t)
                ts = t[2]
            for fo, ft, fv in zip(offs, ts, v):
                self.store(st, self.padd(p, fo), ft, fv)
            return True
        n = self.m.size(t)
        o = self.bounds(st, p, n, 'write')
        if o is None:
            return None
        if o.ro:
            self.oblige(st, 0, 'memory-safety', 'write to constant ' + o.name)
            return None
        if t[0] == 'i' and is_sym(v):
            if z3.is_bool(v):
                v = bv(v, 8)
            elif v.size() < 8 * n:
                v = z3.ZeroExt(8 * n - v.size(), v)
        self.store_raw(st, p.obj, p.off, n, v)
        return True

    def store_raw(self, st, oid, off, n, v):
        o = st.wobj(oid)
        if o.lanes is not None:
            if st.writes is not None:
                idx, f = self.lane_split(o, off)
                st.writes.add((oid, ('lane', f, n), n))
            self.lane_store(st, o, off, n, v)
            return
        if o.table is not None:
            eb, vals = o.table
            o.table = None
            for i, x in enumerate(vals):
                o.cells[i * eb] = (eb, x)
        if not isinstance(off, int):
            off = conc(off)
        if isinstance(off, int):
            if st.writes is not None:
                st.writes.add((oid, off, n))
            self.store_cell(o, off, n, v)
            return
        if st.writes is not None:
            st.writes.add((oid, 'all', 0))
        # symbolic offset in a cell object
        if isinstance(v, (Ptr, Fn)):
            raise ForkOffset(o, off, None)
        lin = linear(off)
        if not isinstance(o.size, int) or o.size > 1024:
            raise ForkOffset(o, off, None)
        for b in list(o.cells):
            c = o.cells[b]
            if c[0] != n:
                if self.may(st, z3.And(z3.UGT(off + n, b), z3.ULT(off, b + c[0]))):
                    raise ForkOffset(o, off, None)
        for b in range(0, o.size - n + 1):
            if lin is not None and not congruent(lin, b, n):
                continue
            if lin is None and b % n:
                if self.may(st, off == b):
                    raise ForkOffset(o, off, None)
                continue
            c = o.cells.get(b)
            if c is None:
                old = self.gather(o, b, n)
            else:
                old = c[1]
            if isinstance(old, (Ptr, Fn)):
                raise ForkOffset(o, off, None)
            if old is UNDEF:
                # content undefined unless written
                old = self.sym(8 * n, 'undef')
            o.cells[b] = (n, z3.If(off == z3.BitVecVal(b, 64), bv(self.need(v, 8 * n), 8 * n), bv(old, 8 * n)))

    def store_cell(self, o, off, n, v):
        cells = o.cells
        c = cells.get(off)
        if c is not None and c[0] == n:
            cells[off] = (n, v)
            return
        # split overlapping cells
        for b in range(off - 15, off + n):
            c = cells.get(b)
            if c is None or b + c[0] <= off:
                continue
            e = b + c[0]
            cv = c[1]
            del cells[b]
            if cv is UNDEF:
                continue
            if b < off:
                if isinstance(cv, (Ptr, Fn, float)):
                    cells[b] = (off - b, UNDEF)
                else:
                    self.put_part(cells, b, c[0], cv, 0, off - b)
            if e > off + n:
                if isinstance(cv, (Ptr, Fn, float)):
                    cells[off + n] = (e - off - n, UNDEF)
                else:
                    self.put_part(cells, b, c[0], cv, off + n - b, c[0])
        cells[off] = (n, v)

    def put_part(self, cells, b, n, v, lo, hi):
        w = 8 * (hi - lo)
        if isinstance(v, int):
            x = (v >> (8 * lo)) & ((1 << w) - 1)
        else:
            x = z3.simplify(z3.Extract(8 * hi - 1, 8 * lo, bv(v, 8 * n)))
        cells[b + lo] = (hi - lo, x)

    def padd(self, p, k):
        if p is UNDEF:
            return UNDEF
        if isinstance(k, int) and k == 0:
            return p
        if not isinstance(p, Ptr):
            if isinstance(p, int):
                if isinstance(k, int):
                    return (p + k) & M64
                return p + k
            raise Unsupported('gep on %r' % (p,))
        off = p.off
        if isinstance(off, int) and isinstance(k, int):
            return Ptr(p.obj, (off + k) & M64)
        return Ptr(p.obj, conc(bv(off, 64) + bv(k, 64)))

    def memcpy(self, st, d, s, n, move=False):
        if not isinstance(n, int):
            n = conc(n)
        if not isinstance(n, int):
            raise ForkValue(n, 64)
        if n == 0:
            return True
        so = self.bounds(st, s, n, 'read (copy)')
        if so is None:
            return None
        do = self.bounds(st, d, n, 'write (copy)')
        if do is None:
            return None
        if so.lanes is not None or do.lanes is not None or not isinstance(s.off, int) or not isinstance(d.off, int):
            # element-wise with the widest convenient chunks
            vals = []
            if so.lanes is not None:
                _, f = self.lane_split(so, s.off)
                offs = []
                k = 0
                while k < n:
                    cur = (f + k) % so.stride
                    w = None
                    for (f2, n2) in sorted(so.lanes):
                        if f2 == cur and n2 <= n - k:
                            w = n2
                            break
                    if w is None:
                        nx = min([f2 for (f2, _) in so.lanes if f2 > cur] + [so.stride])
                        w = 1
                        while w * 2 <= min(nx - cur, n - k, 8) and cur % (w * 2) == 0:
                            w *= 2
                    offs.append((k, w))
                    k += w
            elif isinstance(s.off, int):
                offs = self.chunks(so, s.off, n)
            else:
                w = do.lanes and min(n2 for (_, n2) in do.lanes) or 1
                sizes = {c[0] for c in so.cells.values()}
                w = so.table[0] if so.table else (max(sizes) if sizes else 1)
                if n % w:
                    w = 1
                offs = [(k, w) for k in range(0, n, w)]
            for k, w in offs:
                vals.append((k, w, self.load_raw(st, so, self.padd(s, k).off, w, ('i', 8 * w))))
            for k, w, v in vals:
                if v is UNDEF and do.lanes is None and isinstance(d.off, int):
                    pass
                self.store_raw(st, d.obj, self.padd(d, k).off, w, v)
            return True
        vals = []
        if so.table is not None:
            eb = so.table[0]
            w = eb if s.off % eb == 0 and n % eb == 0 else 1
            for k in range(0, n, w):
                vals.append((k, w, self.tbl_load(st, so, s.off + k, w)))
        else:
            for k, w in self.chunks(so, s.off, n):
                c = so.cells.get(s.off + k)
                if c is not None and c[0] == w:
                    vals.append((k, w, c[1]))
                else:
                    vals.append((k, w, self.gather(so, s.off + k, w)))
        if do.ro:
            self.oblige(st, 0, 'memory-safety', 'write to constant ' + do.name)
            return None
        for k, w, v in vals:
            self.store_raw(st, d.obj, d.off + k, w, v)
        return True

    def chunks(self, o, off, n):
        """split [off,off+n) along the cells of o"""
        r = []
        k = off
        end = off + n
        while k < end:
            c = o.cells.get(k)
            if c is not None and k + c[0] <= end:
                r.append((k - off, c[0]))
                k += c[0]
                continue
            if c is None:
                inside = False
                for b in range(k - 1, k - 16, -1):
                    cc = o.cells.get(b)
                    if cc is not None:
                        inside = b + cc[0] > k
                        break
                if not inside:
                    # hole
                    w = 1
                    while w < 8 and k + w < end and (k + w) not in o.cells:
                        w += 1
                    p = 1
                    while p * 2 <= w:
                        p *= 2
                    r.append((k - off, p))
                    k += p
                    continue
            r.append((k - off, 1))
            k += 1
        return r

    # ------------------------------------------------------------ constants/operands
    def const(self, st, t, v):
        k = v[0]
        if k == 'c':
            return v[1] & ((1 << t[1]) - 1) if t[0] == 'i' else v[1]
        if k == 'null':
            return NULL
        if k == 'undef':
            t = self.m.resolve(t)
            if t[0] == 'struct':
                return [UNDEF] * len(t[2])
            if t[0] == 'arr':
                return [UNDEF] * t[1]
            return UNDEF
        if k == 'zero':
            return self.zero(t)
        if k == 'glob':
            return self.global_ptr(st, v[1])
        if k == 'agg':
            return [self.const(st, et, ev) for et, ev in v[1]]
        if k == 'str':
            return list(v[1])
        if k == 'fpc':
            x = v[1]
            if isinstance(x, str):
                import struct
                if x.startswith('0xK'):
                    return 0.0
                x = struct.unpack('<d', struct.pack('<Q', int(x, 16)))[0]
            return x
        if k == 'ce':
            if v[1] == 'gep':
                base = self.const(st, ('ptr',), v[3])
                return self.gep(st, v[2], base, [(it, self.const(st, it, iv)) for it, iv in v[4]])
            if v[1] in ('bitcast', 'ptrtoint', 'inttoptr', 'addrspacecast'):
                return self.const(st, v[2], v[3])
            if v[1] == 'bin':
                a = self.const(st, v[3], v[4])
                b = self.const(st, v[3], v[5])
                return self.binop(st, v[2], v[3][1], a, b)
            if v[1] == 'icmp':
                a = self.const(st, v[3], v[4])
                b = self.const(st, v[3], v[5])
                return self.icmp(st, v[2], v[3], a, b)
            if v[1] in ('zext', 'trunc', 'sext'):
                x = self.const(st, v[2], v[3])
                return self.cast(st, v[1], v[2], x, v[4])
        raise Unsupported('const %r' % (v,))

    def zero(self, t):
        t = self.m.resolve(t)
        if t[0] == 'i':
            return 0
        if t[0] == 'ptr':
            return NULL
        if t[0] == 'fp':
            return 0.0
        if t[0] == 'arr':
            return [self.zero(t[2]) for _ in range(t[1])]
        if t[0] == 'struct':
            return [self.zero(x) for x in t[2]]
        raise Unsupported('zero %r' % (t,))

    def val(self, st, t, v):
        if v[0] == 'loc':
            return st.frames[-1].regs[v[1]]
        if v[0] == 'c':
            return v[1] & ((1 << t[1]) - 1)
        return self.const(st, t, v)

    def gep(self, st, t, base, idx):
        off = 0
        symoff = None
        first = True
        cur = t
        for it, iv in idx:
            if iv is UNDEF:
                iv = self.sym(64, 'undef')
            if first:
                s = self.m.size(cur)
                first = False
            else:
                rc = self.m.resolve(cur)
                if rc[0] == 'struct':
                    fo = self.m.offsets(cur)
                    off += fo[iv]
                    cur = rc[2][iv]
                    continue
                s = self.m.size(rc[2])
                cur = rc[2]
            if isinstance(iv, int):
                off += sgn(iv, it[1]) * s
            elif isinstance(iv, Ptr):
                raise Unsupported('gep by pointer value')
            else:
                e = bv(iv, it[1])
                if e.size() < 64:
                    e = z3.SignExt(64 - e.size(), e)
                if s != 1:
                    e = e * z3.BitVecVal(s, 64)
                symoff = e if symoff is None else symoff + e
        if symoff is None:
            return self.padd(base, off & M64)
        if off:
            symoff = symoff + z3.BitVecVal(off & M64, 64)
        return self.padd(base, symoff)

    # ------------------------------------------------------------ operations
    def binop(self, st, op, w, a, b):
        if op[0] == 'f':
            if isinstance(a, float) and isinstance(b, float):
                return {'fadd': lambda: a + b, 'fsub': lambda: a - b, 'fmul': lambda: a * b,
                        'fdiv': lambda: a / b if b else float('inf')}[op]()
            return UNDEF
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            return self.ptr_arith(st, op, w, a, b)
        if isinstance(a, int) and isinstance(b, int):
            mask = (1 << w) - 1
            if op == 'add':
                return (a + b) & mask
            if op == 'sub':
                return (a - b) & mask
            if op == 'mul':
                return (a * b) & mask
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & mask if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'ashr':
                return (sgn(a, w) >> min(b, w - 1)) & mask
            if op in ('udiv', 'urem', 'sdiv', 'srem') and b == 0:
                self.oblige(st, 0, 'no-division-by-zero', op)
                raise PathEnd()
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            sa, sb = sgn(a, w), sgn(b, w)
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0):
                q = -q
            if op == 'sdiv':
                return q & mask
            if op == 'srem':
                return (sa - q * sb) & mask
        if a is UNDEF and b is UNDEF:
            return UNDEF
        # cheap absorbing cases
        if op == 'and' and (a == 0 if isinstance(a, int) else False):
            return 0
        if op == 'and' and (b == 0 if isinstance(b, int) else False):
            return 0
        a = self.need(a, w)
        b = self.need(b, w)
        if isinstance(a, Fn) or isinstance(b, Fn):
            raise Unsupported('function pointer arithmetic')
        if w == 1:
            a, b = tob(a), tob(b)
            if op == 'and':
                return z3.And(a, b)
            if op == 'or':
                return z3.Or(a, b)
            if op in ('xor', 'add', 'sub'):
                return z3.Xor(a, b)
            raise Unsupported('i1 ' + op)
        if isinstance(b, int) and b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
            return a
        a, b = bv(a, w), bv(b, w)
        if op == 'add':
            return a + b
        if op == 'sub':
            return a - b
        if op == 'mul':
            return a * b
        if op == 'and':
            return conc(a & b)
        if op == 'or':
            return conc(a | b)
        if op == 'xor':
            return a ^ b
        if op in ('shl', 'lshr', 'ashr'):
            if not z3.is_bv_value(b):
                if not self.oblige(st, z3.ULT(b, z3.BitVecVal(w, w)), 'shift-in-range', op):
                    raise PathEnd()
            if op == 'shl':
                return conc(a << b)
            if op == 'lshr':
                return conc(z3.LShR(a, b))
            return a >> b
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if not z3.is_bv_value(b):
                if not self.oblige(st, b != 0, 'no-division-by-zero', op):
                    raise PathEnd()
            if op in ('udiv', 'sdiv') and z3.is_bv_value(bv(b, 64)) and a.size() == 64:
                # s*x / s with x small enough for the product not to wrap
                k = bv(b, 64).as_long()
                lin = linear(a)
                if lin is not None and 0 < k < 4096 and lin[0] % k == 0 and lin[0] < (1 << 50) and len(lin[1]) == 1 and lin[1][0][0] == k:
                    x = lin[1][0][1]
                    c0 = x.arg(0) if x.decl().kind() == z3.Z3_OP_CONCAT else None
                    if (c0 is not None and z3.is_bv_value(c0) and c0.as_long() == 0 and c0.size() >= 13) or \
                            (x.decl().kind() == z3.Z3_OP_ZERO_EXT and x.size() - x.arg(0).size() >= 13):
                        return x if not lin[0] else conc(x + z3.BitVecVal(lin[0] // k, 64))
            return {'udiv': z3.UDiv, 'urem': z3.URem, 'sdiv': lambda x, y: x / y, 'srem': z3.SRem}[op](a, b)
        raise Unsupported(op)

    def ptr_arith(self, st, op, w, a, b):
        if op == 'sub' and isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj == b.obj:
                if isinstance(a.off, int) and isinstance(b.off, int):
                    return (a.off - b.off) & M64
                return conc(bv(a.off, 64) - bv(b.off, 64))
            if a.obj == 0 and b.obj == 0:
                return 0
            raise Unsupported('difference of pointers to different objects')
        if op in ('add', 'sub') and isinstance(a, Ptr) and not isinstance(b, Ptr):
            if op == 'sub':
                b = (-b) & M64 if isinstance(b, int) else -b
            return self.padd(a, b)
        if op == 'add' and isinstance(b, Ptr):
            return self.padd(b, a)
        if op == 'and' and isinstance(b, int) and isinstance(a, Ptr):
            # alignment tests: objects are 16-byte aligned
            if b < 16 and isinstance(a.off, int):
                return a.off & b
        raise Unsupported('pointer arithmetic %s' % op)

    def icmp(self, st, pred, t, a, b):
        if isinstance(a, (Ptr, Fn)) or isinstance(b, (Ptr, Fn)):
            return self.pcmp(st, pred, a, b)
        w = t[1] if t[0] == 'i' else 64
        if isinstance(a, int) and isinstance(b, int):
            if pred == 'eq':
                return int(a == b)
            if pred == 'ne':
                return int(a != b)
            if pred[0] == 's':
                a, b = sgn(a, w), sgn(b, w)
            p = pred[1:]
            return int(a > b if p == 'gt' else a >= b if p == 'ge' else a < b if p == 'lt' else a <= b)
        if a is UNDEF or b is UNDEF:
            return self.sym(1, 'undef')
        if w == 1:
            a, b = tob(a), tob(b)
            if pred == 'eq':
                return conc(a == b)
            if pred == 'ne':
                return conc(a != b)
            raise Unsupported('i1 compare')
        a, b = bv(a, w), bv(b, w)
        r = {'eq': lambda: a == b, 'ne': lambda: a != b,
             'ugt': lambda: z3.UGT(a, b), 'uge': lambda: z3.UGE(a, b), 'ult': lambda: z3.ULT(a, b),
             'ule': lambda: z3.ULE(a, b), 'sgt': lambda: a > b, 'sge': lambda: a >= b,
             'slt': lambda: a < b, 'sle': lambda: a <= b}[pred]()
        return conc(r)

    def pcmp(self, st, pred, a, b):
        if isinstance(a, int) and a == 0:
            a = NULL
        if isinstance(b, int) and b == 0:
            b = NULL
        if isinstance(a, Fn) or isinstance(b, Fn):
            same = isinstance(a, Fn) and isinstance(b, Fn) and a.name == b.name
            if pred == 'eq':
                return int(same)
            if pred == 'ne':
                return int(not same)
            raise Unsupported('fn ptr order')
        if a is UNDEF or b is UNDEF:
            return self.sym(1, 'undef')
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)):
            raise Unsupported('pointer compared with integer')
        if a.obj == b.obj:
            return self.icmp(st, pred, ('i', 64), a.off, b.off)
        if pred == 'eq':
            return 0
        if pred == 'ne':
            return 1
        if a.obj == 0 or b.obj == 0:
            # null is below everything
            lt = a.obj == 0
            return int({'ult': lt, 'ule': lt, 'ugt': not lt, 'uge': not lt}[pred])
        # order of distinct objects is arbitrary but consistent
        lt = a.obj < b.obj
        return int({'ult': lt, 'ule': lt, 'ugt': not lt, 'uge': not lt}[pred])

    def cast(self, st, op, t, a, dt):
        if op in ('bitcast', 'addrspacecast'):
            if t[0] == dt[0] or (t[0] == 'ptr' and dt[0] == 'ptr'):
                return a
            raise Unsupported('bitcast %r %r' % (t, dt))
        if op == 'ptrtoint':
            if isinstance(a, Ptr) and a.obj == 0:
                return a.off
            return a
        if op == 'inttoptr':
            if isinstance(a, int) and a == 0:
                return NULL
            return a
        if op in ('uitofp', 'sitofp'):
            if isinstance(a, int):
                return float(a if op[0] == 'u' else sgn(a, t[1]))
            return UNDEF
        if op in ('fptoui', 'fptosi'):
            if isinstance(a, float):
                return int(a) & ((1 << dt[1]) - 1)
            return self.sym(dt[1], 'fp')
        if op in ('fpext', 'fptrunc'):
            return a
        sw, dw = t[1], dt[1]
        if isinstance(a, int):
            if op == 'sext':
                return sgn(a, sw) & ((1 << dw) - 1)
            return a & ((1 << dw) - 1)
        if a is UNDEF:
            if op == 'trunc':
                return UNDEF
            a = self.sym(sw, 'undef')
        if isinstance(a, (Ptr, Fn)):
            if op in ('zext', 'sext'):
                return a
            raise Unsupported('truncated pointer')
        if op == 'trunc':
            if dw == 1:
                return conc(z3.Extract(0, 0, bv(a, sw)) == z3.BitVecVal(1, 1))
            return conc(z3.Extract(dw - 1, 0, a))
        if sw == 1:
            a = tob(a)
            one = (1 << dw) - 1 if op == 'sext' else 1
            return z3.If(a, z3.BitVecVal(one, dw), z3.BitVecVal(0, dw))
        if op == 'zext':
            return z3.ZeroExt(dw - sw, a)
        return z3.SignExt(dw - sw, a)

    # ------------------------------------------------------------ execution
    def enter(self, st, f, args, dst=None, norm=None, unw=None, rety=None):
        ll.parse_body(self.m, f)
        self.entered.add(f.name)
        fr = Frame(f)
        fr.dst, fr.norm, fr.unw, fr.rety = dst, norm, unw, rety
        for (t, nm, at), v in zip(f.params, args):
            if 'byval' in at and isinstance(v, Ptr):
                bt = at['byval']
                n = self.m.size(bt)
                oid = self.alloc(st, n, 'byval')
                self.memcpy(st, Ptr(oid, 0), v, n)
                v = Ptr(oid, 0)
            fr.regs[nm] = v
        st.frames.append(fr)
        if len(st.frames) > 200:
            raise Unsupported('recursion depth')
        return fr

    def run_entry(self, name, init=None):
        """explore every path of the harness entry"""
        st = State()
        f = self.m.funcs[name]
        if init:
            init(self, st)
        self.enter(st, f, [])
        self.explore([st])

    def explore(self, work, stop=None, limit=None):
        """depth-first; stop(st) -> True when a state is finished for the caller"""
        done = []
        while work:
            st = work.pop()
            try:
                r = self.run(st, work, stop)
                if r is not None:
                    done.append(r)
            except PathEnd:
                pass
            if limit is not None and len(done) + len(work) > limit:
                raise MergeFail()
            if not self.muted and stop is None:
                self.npaths += 1
        return done

    def fork(self, st, cond):
        """returns (true state, false state); either may be None"""
        c = tob(cond)
        c = z3.simplify(c)
        if z3.is_true(c):
            return st, None
        if z3.is_false(c):
            return None, st
        nc = z3.Not(c)
        ct = self.feasible(st.pc, c)
        cf = True if not ct else self.feasible(st.pc, nc)
        if ct and cf:
            s2 = st.clone()
            st.pc = st.pc + (c,)
            s2.pc = s2.pc + (nc,)
            return st, s2
        if ct:
            return st, None
        return None, st

    def run(self, st, work, stop):
        """run one state until it ends; pushes forks to work"""
        while True:
            if stop is not None and stop(st):
                return st
            fr = st.frames[-1]
            ins = fr.f.blocks[fr.block][fr.ip]
            self.ninstr += 1
            if self.ninstr & 0x3fff == 0 and time.time() - self.t0 > self.deadline:
                raise Budget('deadline')
            try:
                r = self.step(st, fr, ins, work)
            except ForkOffset as fo:
                self.do_fork_offset(st, fo, work)
                continue
            except ForkValue as fv:
                self.do_fork_value(st, fv, work)
                continue
            if r is False:
                return None

    def do_fork_value(self, st, fv, work):
        """replace a symbolic scalar by its possible values"""
        e = fv.e
        vals = []
        pc = st.pc
        while True:
            if self.check(pc) == 'unsat':
                break
            r = self.check(pc)
            if r != 'sat':
                raise Unsupported('cannot enumerate values')
            v = self.model.eval(e, model_completion=True).as_long()
            vals.append(v)
            if len(vals) > 70:
                raise Unsupported('too many values of a symbolic size')
            pc = pc + (e != z3.BitVecVal(v, e.size()),)
        if not vals:
            raise PathEnd()
        for v in vals[1:]:
            s2 = st.clone()
            s2.pc = s2.pc + (e == z3.BitVecVal(v, e.size()),)
            subst_state(s2, e, v)
            work.append(s2)
        st.pc = st.pc + (e == z3.BitVecVal(vals[0], e.size()),)
        subst_state(st, e, vals[0])

    def do_fork_offset(self, st, fo, work):
        self.do_fork_value(st, ForkValue(fo.off, 64), work)

    def jump(self, st, fr, target, work):
        """take the edge fr.block -> target; returns False when the path ends here"""
        f = fr.f
        prev = fr.block
        lp = ll.loops(f)
        # leaving loops: forget their counters
        if lp:
            for h in list(fr.visits):
                if target not in lp[h]:
                    del fr.visits[h]
            for h in list(fr.cuts):
                if target not in lp[h]:
                    if fr.cuts[h].get('discover'):
                        fr.cuts[h]['exits'].append(st.clone())
                        return False
                    del fr.cuts[h]
        fr.prev = prev
        fr.block = target
        fr.ip = 0
        # phis in parallel
        blk = f.blocks[target]
        k = 0
        new = {}
        while k < len(blk) and blk[k].op == 'phi':
            ins = blk[k]
            new[ins.dst] = self.val(st, ins.ty, ins.a[0][prev])
            k += 1
        fr.regs.update(new)
        fr.ip = k
        if target in lp:
            cut = self.find_cut(f, target)
            if cut is not None:
                return self.at_header(st, fr, target, lp[target], cut, work)
            c = fr.visits.get(target, 0) + 1
            fr.visits[target] = c
            if c > self.unroll:
                raise Unsupported('loop in %s not unrolled within %d iterations' % (short(self.dem[f.name]), self.unroll))
        return True

    def probe_branch(self, st, fr, ins, concrete):
        depth, fname, body, rec = self.probe[-1]
        if len(st.frames) == depth + 1 and fr.f.name == fname and fr.block in body:
            out = ins.a[2] if ins.a[1] in body else ins.a[1]
            if (ins.a[1] in body) != (ins.a[2] in body) and out in ll.returning(fr.f):
                rec['br'].setdefault(id(ins), set()).add(concrete)

    def find_cut(self, f, header):
        dn = self.dem.get(f.name, f.name)
        for c in self.cuts:
            if re.search(c.pat, dn):
                return c
        return None

    # -------------------------------------------------------- loop contracts
    def at_header(self, st, fr, h, body, cut, work):
        import loops
        return loops.at_header(self, st, fr, h, body, cut, work)

    def step(self, st, fr, ins, work):
        op = ins.op
        regs = fr.regs
        if op == 'bin':
            bop, a, b = ins.a
            t = ins.ty
            if t[0] == 'vec':
                raise Unsupported('vector op')
            w = t[1] if t[0] == 'i' else 0
            regs[ins.dst] = self.binop(st, bop, w, self.val(st, t, a), self.val(st, t, b))
        elif op == 'load':
            p = self.val(st, ('ptr',), ins.a[0])
            v = self.load(st, p, ins.ty)
            if v is None:
                return False
            regs[ins.dst] = v
        elif op == 'store':
            v = self.val(st, ins.ty, ins.a[0])
            p = self.val(st, ('ptr',), ins.a[1])
            if self.store(st, p, ins.ty, v) is None and v is not UNDEF:
                return False
        elif op == 'gep':
            b = self.val(st, ('ptr',), ins.a[0])
            regs[ins.dst] = self.gep(st, ins.ty, b, [(it, self.val(st, it, iv)) for it, iv in ins.a[1]])
        elif op == 'icmp':
            pred, a, b = ins.a
            regs[ins.dst] = self.icmp(st, pred, ins.ty, self.val(st, ins.ty, a), self.val(st, ins.ty, b))
        elif op == 'br':
            return self.jump(st, fr, ins.a[0], work)
        elif op == 'cbr':
            c = self.val(st, ('i', 1), ins.a[0])
            if c is UNDEF:
                c = self.sym(1, 'undef')
            c = conc(c)
            if self.probe:
                self.probe_branch(st, fr, ins, c & 1 if isinstance(c, int) else None)
            if isinstance(c, int):
                return self.jump(st, fr, ins.a[1] if c & 1 else ins.a[2], work)
            s1, s2 = self.fork(st, c)
            if s1 is not None and s2 is not None:
                if self.jump(s2, s2.frames[-1], ins.a[2], work) is not False:
                    work.append(s2)
                return self.jump(st, fr, ins.a[1], work)
            if s1 is not None:
                return self.jump(st, fr, ins.a[1], work)
            return self.jump(st, fr, ins.a[2], work)
        elif op == 'call':
            return self.call(st, fr, ins, work)
        elif op == 'ret':
            v = self.val(st, ins.ty, ins.a[0]) if ins.a[0] is not None else None
            return self.do_ret(st, fr, v, work)
        elif op == 'alloca':
            n = self.val(st, ('i', 64), ins.a[0])
            if not isinstance(n, int):
                raise Unsupported('variable alloca')
            oid = self.alloc(st, n * self.m.size(ins.ty), short(self.dem.get(fr.f.name, '')) + '%' + ins.dst)
            fr.allocas.append(oid)
            regs[ins.dst] = Ptr(oid, 0)
        elif op == 'cast':
            cop, t, a = ins.a
            regs[ins.dst] = self.cast(st, cop, t, self.val(st, t, a), ins.ty)
        elif op == 'select':
            c = self.val(st, ('i', 1), ins.a[0])
            a = self.val(st, ins.ty, ins.a[1])
            b = self.val(st, ins.ty, ins.a[2])
            if c is UNDEF:
                c = self.sym(1, 'undef')
            c = conc(c)
            if isinstance(c, int):
                regs[ins.dst] = a if c & 1 else b
            else:
                mv = self.ite(c, a, b, ins.ty)
                if mv is not None:
                    regs[ins.dst] = mv
                else:
                    s1, s2 = self.fork(st, c)
                    if s1 is not None and s2 is not None:
                        f2 = s2.frames[-1]
                        f2.regs[ins.dst] = b
                        f2.ip += 1
                        work.append(s2)
                        regs[ins.dst] = a
                    else:
                        regs[ins.dst] = a if s1 is not None else b
        elif op == 'switch':
            return self.do_switch(st, fr, ins, work)
        elif op == 'extractvalue':
            v = self.val(st, ins.ty, ins.a[0])
            for i in ins.a[1]:
                v = v[i] if v is not UNDEF else UNDEF
            regs[ins.dst] = v
        elif op == 'insertvalue':
            v = self.val(st, ins.ty, ins.a[0])
            e = self.val(st, ins.a[1], ins.a[2])
            regs[ins.dst] = self.ins_agg(ins.ty, v, ins.a[3], e)
        elif op == 'freeze':
            v = self.val(st, ins.ty, ins.a[0])
            if v is UNDEF and ins.ty[0] == 'i':
                v = self.sym(ins.ty[1], 'undef')
            regs[ins.dst] = v
        elif op == 'unreachable':
            self.oblige(st, 0, 'no-undefined-behaviour', 'unreachable reached in ' + short(self.dem.get(fr.f.name, '')))
            return False
        elif op == 'fcmp':
            pred, a, b = ins.a
            a = self.val(st, ins.ty, a)
            b = self.val(st, ins.ty, b)
            if isinstance(a, float) and isinstance(b, float):
                p = pred[1:]
                regs[ins.dst] = int({'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}.get(p, False))
            else:
                regs[ins.dst] = self.sym(1, 'fp')
        elif op == 'fneg':
            v = self.val(st, ins.ty, ins.a[0])
            regs[ins.dst] = -v if isinstance(v, float) else UNDEF
        elif op == 'landingpad':
            exc, tinfo = st.exc
            sel = None
            for cl in ins.a[0]:
                if cl[0] == 'cleanup':
                    if sel is None:
                        sel = 0
                elif cl[0] == 'catch':
                    cv = self.const(st, ('ptr',), cl[1])
                    if (isinstance(cv, Ptr) and cv.obj == 0) or self.catches(cv, tinfo):
                        sel = self.tid(cv)
                        break
            if sel is None:
                return self.unwind(st, work)
            regs[ins.dst] = [exc, sel]
        elif op == 'resume':
            st.frames.pop()
            return self.unwind(st, work)
        else:
            raise Unsupported('instruction %s %s' % (op, ins.a[:1]))
        fr.ip += 1
        return True

    def ite(self, c, a, b, t):
        c = tob(c)
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj == b.obj:
            if isinstance(a.off, int) and isinstance(b.off, int) and a.off == b.off:
                return a
            return Ptr(a.obj, z3.If(c, bv(a.off, 64), bv(b.off, 64)))
        if isinstance(a, (Ptr, Fn, list, float)) or isinstance(b, (Ptr, Fn, list, float)):
            return None
        w = t[1] if t[0] == 'i' else 64
        if w == 1:
            return z3.simplify(z3.If(c, tob(a), tob(b)))
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        return z3.If(c, bv(a, w), bv(b, w))

    def ins_agg(self, t, v, idx, e):
        t = self.m.resolve(t)
        n = len(t[2]) if t[0] == 'struct' else t[1]
        if v is UNDEF:
            v = [UNDEF] * n
        v = list(v)
        if len(idx) == 1:
            v[idx[0]] = e
        else:
            st = t[2][idx[0]] if t[0] == 'struct' else t[2]
            v[idx[0]] = self.ins_agg(st, v[idx[0]], idx[1:], e)
        return v

    def do_switch(self, st, fr, ins, work):
        v, dflt, cases = ins.a
        w = ins.ty[1]
        x = self.val(st, ins.ty, v)
        if x is UNDEF:
            x = self.sym(w, 'undef')
        x = conc(x)
        if isinstance(x, int):
            for c, lab in cases:
                if (c & ((1 << w) - 1)) == x:
                    return self.jump(st, fr, lab, work)
            return self.jump(st, fr, dflt, work)
        # group by target
        groups = {}
        for c, lab in cases:
            if lab != dflt:
                groups.setdefault(lab, []).append(c & ((1 << w) - 1))
        neg = []
        if w == 1:
            x = bv(x, 1) if not z3.is_bool(x) else z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        for lab, cs in groups.items():
            cond = z3.Or(*[x == z3.BitVecVal(c, w) for c in cs]) if len(cs) > 1 else x == z3.BitVecVal(cs[0], w)
            neg.append(z3.Not(cond))
            if self.check(st.pc, cond) != 'unsat':
                s2 = st.clone()
                s2.pc = s2.pc + (cond,)
                if self.jump(s2, s2.frames[-1], lab, work) is not False:
                    work.append(s2)
        cond = z3.And(*neg) if neg else z3.BoolVal(True)
        if self.check(st.pc, cond) == 'unsat':
            return False
        st.pc = st.pc + (cond,)
        return self.jump(st, fr, dflt, work)

    def do_ret(self, st, fr, v, work):
        for oid in fr.allocas:
            if oid in st.mem:
                del st.mem[oid]
        st.frames.pop()
        if not st.frames:
            return False
        return self.resume_after(st, fr.dst, fr.norm, v, work)

    def resume_after(self, st, dst, norm, v, work):
        c = st.frames[-1]
        if dst is not None:
            c.regs[dst] = v
        if norm is not None:
            return self.jump(st, c, norm, work)
        c.ip += 1
        return True

    # ------------------------------------------------------------ exceptions
    def tid(self, cv):
        if isinstance(cv, Ptr):
            return 1 if cv.obj == 0 else 100 + cv.obj
        return 99

    def catches(self, cv, tinfo):
        if isinstance(cv, Ptr) and isinstance(tinfo, Ptr):
            return cv.obj == tinfo.obj
        return False

    def unwind(self, st, work):
        """propagate st.exc; the frame that threw has already been left"""
        while st.frames:
            fr = st.frames[-1]
            ins = fr.f.blocks[fr.block][fr.ip]
            if ins.op == 'call' and ins.a[3] is not None:
                return self.jump(st, fr, ins.a[3], work)
            for oid in fr.allocas:
                st.mem.pop(oid, None)
            st.frames.pop()
        self.oblige(st, 0, 'no-uncaught-exception', 'exception leaves the harness')
        return False

    def throw(self, st, kind, work):
        oid = self.alloc(st, 16, 'exc')
        st.exc = (Ptr(oid, 0), kind)
        return self.unwind(st, work)

    # ------------------------------------------------------------ calls
    def call(self, st, fr, ins, work):
        callee, args, norm, unw = ins.a
        if callee[0] == 'loc':
            fv = fr.regs[callee[1]]
        else:
            fv = self.const(st, ('ptr',), callee)
        if not isinstance(fv, Fn):
            raise Unsupported('indirect call %r' % (fv,))
        name = fv.name
        import builtins_ as bi
        h = bi.lookup(name)
        if h is not None:
            vals = [self.val(st, t, v) if t[0] != 'meta' else None for t, v, _ in args]
            r = h(self, st, fr, ins, vals, work)
            if r is bi.END:
                return False
            if r is bi.CONT:
                return True
            return self.resume_after(st, ins.dst, norm, r, work)
        vals = [self.val(st, t, v) for t, v, _ in args]
        stub = self.stubs.get(name)
        if stub is not None and not (st.frames and any(x.f.name == stub for x in st.frames)):
            self.used_stubs.add(self.dem.get(name, name))
            st.nd = st.nd + (('#stub', None),)
            if callable(stub):
                r = stub(self, st, fr, ins, vals, work)
                if r is bi.END:
                    return False
                if r is bi.CONT:
                    return True
                return self.resume_after(st, ins.dst, norm, r, work)
            name = stub
        f = self.m.funcs.get(name)
        if f is None:
            raise Unsupported('call to external function ' + self.dem.get(name, name))
        if self.mergeable(f, name):
            mv = self.try_merge(st, f, vals)
            if mv is not None:
                return self.resume_after(st, ins.dst, norm, mv[0], work)
        self.enter(st, f, vals, ins.dst, norm, unw, ins.ty)
        return True

    def mergeable(self, f, name):
        if name in self.nomerge:
            return False
        if name.startswith('vpp_'):
            return True
        if not self.automerge:
            return False
        if f.ret[0] != 'i' or not f.params:
            return False
        return all(t[0] == 'i' for t, _, _ in f.params)

    def try_merge(self, st, f, vals):
        """run a function without side effects on a scratch copy and merge its results"""
        if all(isinstance(v, int) for v in vals) and not f.name.startswith('vpp_'):
            return None
        s2 = st.clone()
        base = len(s2.pc)
        keep = dict(s2.mem)
        depth = len(s2.frames)
        saved = (self.nfail, self.fail_limit)
        self.enter(s2, f, vals, '$merge', None, None, f.ret)
        # the caller frame receives $merge
        nd0 = len(s2.nd)
        try:
            outs = self.explore([s2], stop=lambda x: len(x.frames) == depth, limit=self.maxmerge)
        except (MergeFail, Unsupported):
            self.nomerge.add(f.name)
            return None
        res = []
        for o in outs:
            for oid, ob in keep.items():
                if o.mem.get(oid) is not ob and oid in o.mem:
                    x = o.mem[oid]
                    if x.cells != ob.cells or x.lanes != ob.lanes:
                        self.nomerge.add(f.name)
                        return None
            if len(o.nd) != nd0:
                self.nomerge.add(f.name)
                return None
            # global initialisation may add objects; keep them
            v = o.frames[-1].regs.get('$merge')
            if v is UNDEF:
                v = self.sym(f.ret[1], 'undef')
            if isinstance(v, (Ptr, Fn, list, float)) or v is None:
                self.nomerge.add(f.name)
                return None
            conds = o.pc[base:]
            res.append((conds, v))
        if not res:
            raise PathEnd()
        w = f.ret[1]
        if w == 1:
            r = tob(res[-1][1])
            for conds, v in res[:-1]:
                c = z3.And(*conds) if len(conds) != 1 else conds[0]
                r = z3.If(c, tob(v), r)
        else:
            r = bv(res[-1][1], w)
            for conds, v in res[:-1]:
                c = z3.And(*conds) if len(conds) != 1 else conds[0]
                r = z3.If(c, bv(v, w), r)
        r = conc(r)
        # what was assumed on the way (vp_assume, discharged obligations, table ranges) stays known
        if len(res) == 1:
            if res[0][0]:
                st.pc = st.pc + tuple(res[0][0])
        else:
            d = z3.Or(*[z3.And(*c) if len(c) != 1 else c[0] for c, _ in res])
            if self.check(st.pc, z3.Not(d)) != 'unsat':
                st.pc = st.pc + (d,)
        return (r,)


class PathEnd(Exception):
    pass


class MergeFail(Exception):
    pass


class ForkOffset(Exception):
    def __init__(self, o, off, cands):
        self.o, self.off, self.cands = o, off, cands


class ForkValue(Exception):
    def __init__(self, e, w):
        self.e, self.w = e, w


def subst_state(st, e, v):
    """after forcing e == v rewrite registers that are exactly e"""
    for fr in st.frames[-1:]:
        for k, x in list(fr.regs.items()):
            if isinstance(x, Ptr) and is_sym(x.off):
                n = conc(z3.substitute(x.off, (e, z3.BitVecVal(v, e.size()))))
                fr.regs[k] = Ptr(x.obj, n)
            elif is_sym(x) and not z3.is_bool(x):
                fr.regs[k] = conc(z3.substitute(x, (e, z3.BitVecVal(v, e.size()))))


def linear(e):
    """BV64 expression as (const, [(coef, atom)]) or None"""
    e = z3.simplify(e, som=True, mul2concat=False) if False else z3.simplify(e)
    const = 0
    terms = {}

    def add(k, x):
        h = x.get_id()
        if h in terms:
            terms[h] = ((terms[h][0] + k) & M64, x)
        else:
            terms[h] = (k & M64, x)

    def walk(x, k):
        nonlocal const
        if z3.is_bv_value(x):
            const = (const + k * x.as_long()) & M64
            return
        d = x.decl().kind()
        if d == z3.Z3_OP_BADD:
            for c in x.children():
                walk(c, k)
            return
        if d == z3.Z3_OP_BMUL:
            ch = x.children()
            if len(ch) == 2 and z3.is_bv_value(ch[0]):
                walk(ch[1], (k * ch[0].as_long()) & M64)
                return
            if len(ch) == 2 and z3.is_bv_value(ch[1]):
                walk(ch[0], (k * ch[1].as_long()) & M64)
                return
        if d == z3.Z3_OP_BSHL:
            a, b = x.children()
            if z3.is_bv_value(b):
                walk(a, (k << b.as_long()) & M64)
                return
        if d == z3.Z3_OP_CONCAT:
            ch = x.children()
            # concat(y, 0..0) = y * 2^n when y has no further meaning above
            if z3.is_bv_value(ch[-1]) and ch[-1].as_long() == 0 and len(ch) == 2:
                n = ch[-1].size()
                y = ch[0]
                # y is Extract(63-n,0,x'): x'*2^n mod 2^64
                if y.decl().kind() == z3.Z3_OP_EXTRACT:
                    hi, lo = y.params()
                    src = y.children()[0]
                    if lo == 0 and src.size() == 64:
                        walk(src, (k << n) & M64)
                        return
                add((k << n) & M64, z3.simplify(z3.ZeroExt(64 - y.size(), y)))
                return
            if len(ch) >= 3 and z3.is_bv_value(ch[-1]) and ch[-1].as_long() == 0 and z3.is_bv_value(ch[0]) and ch[0].as_long() == 0:
                n = ch[-1].size()
                mid = ch[1:-1]
                y = mid[0] if len(mid) == 1 else z3.Concat(*mid)
                add((k << n) & M64, z3.ZeroExt(64 - y.size(), y))
                return
        add(k, x)
    walk(e, 1)
    return const, [(k, x) for k, x in terms.values() if k]


def congruent(lin, b, n):
    """can offset lin equal b, judging by strides"""
    c, terms = lin
    g = 0
    import math
    for k, _ in terms:
        kk = k if k < (1 << 63) else (1 << 64) - k
        g = math.gcd(g, kk)
    if g == 0:
        return c == b
    return (b - sgn(c, 64)) % g == 0


def short(n):
    n = re.sub(r'operator<=>|operator<<|operator>>|operator<=|operator>=|operator<|operator>|operator->', 'operator_', n)
    for _ in range(12):
        n = re.sub(r'<[^<>]*>', '', n)
    n = re.sub(r'\(.*\)', '', n)
    return n.split(' ')[-1] if ' ' in n and not n.endswith('const') else n


def cvc5_check(smt2, tmo):
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write('(set-logic ALL)\n' + smt2)
        nm = f.name
    try:
        p = subprocess.run(['cvc5', '--lang', 'smt2', '--tlimit=%d' % (tmo * 1000), nm], capture_output=True, text=True, timeout=tmo + 10)
        o = p.stdout.strip().split('\n')[0] if p.stdout else ''
        return o if o in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(nm)
