"""Exact translation of a fragment of bit-vector/array/UF terms to integers.

Contracts over index structures only compare and select: unsigned order, equality,
if-then-else, array select/store, uninterpreted functions, zero extension,
addition and subtraction.  On that fragment a w-bit vector is an integer in
[0, 2^w) and the translation is exact, and the arithmetic solver is orders of
magnitude faster.  Conjuncts outside the fragment are dropped: an `unsat` answer
stays sound, a `sat` answer is then not used."""
import z3


class No(Exception):
    pass


class Ints:
    def __init__(self, timeout):
        self.s = z3.Solver()
        self.s.set('timeout', timeout)
        self.timeout = timeout
        self.memo = {}
        self.keep = []
        self.ranges = {}
        self.funs = {}
        self.stack = []
        self.dropped = 0
        self.cur = None

    # -------------------------------------------------- terms
    def rng(self, t, w):
        self.cur.append(z3.And(t >= 0, t < (1 << w)))

    def tr(self, e):
        h = e.get_id()
        r = self.memo.get(h)
        if r is None:
            side = []
            old, self.cur = self.cur, side
            try:
                try:
                    v = self.tr1(e)
                except No:
                    v = None
            finally:
                self.cur = old
            r = (v, side, e)
            self.memo[h] = r
        if r[0] is None:
            raise No()
        if self.cur is not None:
            self.cur.extend(r[1])
        return r[0]

    def bit(self, e):
        """(U, b) with e = U + (1 if b else 0), U even and constant; else None"""
        k = e.decl().kind()
        if z3.is_bv_value(e):
            v = e.as_long()
            return v & ~1, z3.BoolVal(bool(v & 1))
        if k == z3.Z3_OP_ITE:
            a, b = self.bit(e.arg(1)), self.bit(e.arg(2))
            if a is None or b is None or a[0] != b[0]:
                return None
            return a[0], z3.If(self.tr(e.arg(0)), a[1], b[1])
        if k in (z3.Z3_OP_BOR, z3.Z3_OP_BAND, z3.Z3_OP_BXOR):
            xs = [self.bit(c) for c in e.children()]
            if any(x is None for x in xs):
                return None
            u, r = xs[0]
            for v, x in xs[1:]:
                if k == z3.Z3_OP_BOR:
                    u, r = u | v, z3.Or(r, x)
                elif k == z3.Z3_OP_BAND:
                    u, r = u & v, z3.And(r, x)
                else:
                    u, r = u ^ v, z3.Xor(r, x)
            return u, r
        if k == z3.Z3_OP_ZERO_EXT:
            return self.bit(e.arg(0))
        if k == z3.Z3_OP_BNOT:
            x = self.bit(e.arg(0))
            return None if x is None else (~x[0] & ((1 << e.size()) - 1) & ~1, z3.Not(x[1]))
        if k == z3.Z3_OP_EXTRACT and e.params()[1] == 0:
            x = self.bit(e.arg(0))
            return None if x is None else (x[0] & ((1 << e.size()) - 1), x[1])
        if k == z3.Z3_OP_CONCAT:
            cs = e.children()
            if all(z3.is_bv_value(c) for c in cs[:-1]):
                x = self.bit(cs[-1])
                if x is None:
                    return None
                u, sh = x[0], cs[-1].size()
                for c in reversed(cs[:-1]):
                    u |= c.as_long() << sh
                    sh += c.size()
                return u, x[1]
        return None

    def sort(self, s):
        if s.kind() == z3.Z3_BV_SORT:
            return z3.IntSort()
        if s.kind() == z3.Z3_BOOL_SORT:
            return s
        if s.kind() == z3.Z3_ARRAY_SORT:
            return z3.ArraySort(self.sort(s.domain()), self.sort(s.range()))
        if __import__('os').environ.get('VP_DBG'): print('NO', k, e.decl().name(), str(e)[:300])
        raise No()

    def tr1(self, e):
        k = e.decl().kind()
        if z3.is_true(e) or z3.is_false(e):
            return e
        if z3.is_bv_value(e):
            return z3.IntVal(e.as_long())
        if z3.is_bv(e):
            b = self.bit(e) if k in (z3.Z3_OP_ITE, z3.Z3_OP_BOR, z3.Z3_OP_BAND, z3.Z3_OP_BXOR, z3.Z3_OP_CONCAT, z3.Z3_OP_BNOT, z3.Z3_OP_EXTRACT) else None
            if b is not None:
                return z3.If(b[1], z3.IntVal(b[0] + 1), z3.IntVal(b[0]))
        cs = e.children()
        if k == z3.Z3_OP_UNINTERPRETED:
            if not cs:
                v = z3.Const('i!' + e.decl().name(), self.sort(e.sort()))
                if z3.is_bv(e):
                    self.rng(v, e.size())
                return v
            key = e.decl().name()
            f = self.funs.get(key)
            if f is None:
                f = self.funs[key] = z3.Function('i!' + key, *([self.sort(c.sort()) for c in cs] + [self.sort(e.sort())]))
            v = f(*[self.tr(c) for c in cs])
            if z3.is_bv(e):
                self.rng(v, e.size())
            return v
        if k == z3.Z3_OP_AND:
            return z3.And(*[self.tr(c) for c in cs])
        if k == z3.Z3_OP_OR:
            return z3.Or(*[self.tr(c) for c in cs])
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.tr(cs[0]))
        if k == z3.Z3_OP_XOR:
            return z3.Xor(self.tr(cs[0]), self.tr(cs[1]))
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.tr(cs[0]), self.tr(cs[1]))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
            return self.tr(cs[0]) == self.tr(cs[1])
        if k == z3.Z3_OP_DISTINCT:
            return z3.Distinct(*[self.tr(c) for c in cs])
        if k == z3.Z3_OP_ITE:
            return z3.If(self.tr(cs[0]), self.tr(cs[1]), self.tr(cs[2]))
        if k == z3.Z3_OP_ULEQ:
            return self.tr(cs[0]) <= self.tr(cs[1])
        if k == z3.Z3_OP_ULT:
            return self.tr(cs[0]) < self.tr(cs[1])
        if k == z3.Z3_OP_UGEQ:
            return self.tr(cs[0]) >= self.tr(cs[1])
        if k == z3.Z3_OP_UGT:
            return self.tr(cs[0]) > self.tr(cs[1])
        if k == z3.Z3_OP_ZERO_EXT:
            return self.tr(cs[0])
        if k == z3.Z3_OP_CONCAT:
            if all(z3.is_bv_value(c) and c.as_long() == 0 for c in cs[:-1]):
                return self.tr(cs[-1])
            raise No()
        if k == z3.Z3_OP_EXTRACT:
            hi, lo = e.params()
            x = cs[0]
            if lo == 0:
                if x.decl().kind() == z3.Z3_OP_CONCAT and x.children()[-1].size() == hi + 1:
                    return self.tr(x.children()[-1])
                w = x.size()
                return self.tr(x) % (1 << (hi + 1))
            return (self.tr(x) / (1 << lo)) % (1 << (hi + 1 - lo))
        if k == z3.Z3_OP_BADD:
            m = 1 << e.size()
            r = self.tr(cs[0])
            for c in cs[1:]:
                t = r + self.tr(c)
                r = z3.If(t >= m, t - m, t)
            return r
        if k == z3.Z3_OP_BSUB and len(cs) == 2:
            t = self.tr(cs[0]) - self.tr(cs[1])
            return z3.If(t < 0, t + (1 << e.size()), t)
        if k == z3.Z3_OP_BMUL and len(cs) == 2 and z3.is_bv_value(cs[0]):
            return (cs[0].as_long() * self.tr(cs[1])) % (1 << e.size())
        if k == z3.Z3_OP_SELECT:
            v = z3.Select(self.tr(cs[0]), self.tr(cs[1]))
            if z3.is_bv(e):
                self.rng(v, e.size())
            return v
        if k == z3.Z3_OP_STORE:
            return z3.Store(self.tr(cs[0]), self.tr(cs[1]), self.tr(cs[2]))
        if k == z3.Z3_OP_BNOT:
            return (1 << e.size()) - 1 - self.tr(cs[0])
        if __import__('os').environ.get('VP_DBG'): print('NO', k, e.decl().name(), str(e)[:300])
        raise No()

    # -------------------------------------------------- solving
    def conj(self, c):
        """translated conjunct with its range facts, or None when outside the fragment"""
        self.cur = []
        try:
            v = self.tr(c)
            return z3.And(v, *list(dict.fromkeys(self.cur))) if self.cur else v
        except No:
            return None
        finally:
            self.cur = None

    def check(self, pc, extra, timeout=None):
        """'unsat' / 'sat' (exact) / 'unknown'"""
        st = self.stack
        k = 0
        n = min(len(st), len(pc))
        while k < n and st[k][0] is pc[k]:
            k += 1
        if k < len(st):
            self.s.pop(len(st) - k)
            del st[k:]
        for c in pc[k:]:
            self.s.push()
            t = self.conj(c)
            if t is not None:
                self.s.add(t)
            st.append((c, t is None))
        exact = not any(d for _, d in st)
        self.s.push()
        try:
            if extra is not None:
                t = self.conj(extra)
                if t is None:
                    return 'unknown'
                self.s.add(t)
            self.s.set('timeout', timeout or self.timeout)
            r = str(self.s.check())
        finally:
            self.s.pop()
        if r == 'sat' and not exact:
            return 'unknown'
        return r
