"""Parser for the subset of textual LLVM 18 IR that clang emits for the
harnesses.  Produces a Module of functions, globals and named types."""
import re

# ---------------------------------------------------------------- types
# type := ('i',n) | ('ptr',) | ('void',) | ('fp',name) | ('arr',n,t)
#       | ('struct',packed,(t,..)) | ('named',name) | ('fn',) | ('label',)
#       | ('meta',) | ('vec',n,t) | ('token',)

TOK = re.compile(r'''
   (?P<ws>\s+)
 | (?P<str>c?"(?:[^"\\]|\\[0-9a-fA-F]{2}|\\\\)*")
 | (?P<loc>%(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<glob>@(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<meta>![-a-zA-Z$._0-9]*)
 | (?P<comdat>\$(?:"[^"]*"|[-a-zA-Z$._0-9]+))
 | (?P<attr>\#[0-9]+)
 | (?P<num>-?[0-9]+(?:\.[0-9]*(?:[eE][-+]?[0-9]+)?)?)
 | (?P<hex>0x[HKLMR]?[0-9A-Fa-f]+)
 | (?P<dots>\.\.\.)
 | (?P<id>[a-zA-Z_][-a-zA-Z_0-9.$]*)
 | (?P<p>[][(){}<>,=*:|^])
''', re.X)


class PErr(Exception):
    pass


def lex(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        if s[i] == ';':
            break
        if s.startswith('0x', i):
            m = re.compile(r'0x[HKLMR]?[0-9A-Fa-f]+').match(s, i)
            out.append(('hex', m.group()))
            i = m.end()
            continue
        m = TOK.match(s, i)
        if not m:
            raise PErr('lex: %r' % s[i:i + 60])
        k = m.lastgroup
        if k != 'ws':
            out.append((k, m.group()))
        i = m.end()
    return out


def unq(name):
    """strip sigil and quotes"""
    name = name[1:]
    if name.startswith('"'):
        name = name[1:-1]
    return name


class P:
    """token cursor"""
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.m = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else ('eof', '')

    def next(self):
        t = self.peek()
        self.i += 1
        return t

    def eat(self, v):
        if self.peek()[1] == v:
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.eat(v):
            raise PErr('expected %r got %r in %s' % (v, self.peek(), ' '.join(x[1] for x in self.t)[:300]))

    # -- types
    def type(self):
        k, v = self.next()
        if k == 'id':
            if v == 'ptr':
                t = ('ptr',)
            elif v[0] == 'i' and v[1:].isdigit():
                t = ('i', int(v[1:]))
            elif v == 'void':
                t = ('void',)
            elif v in ('float', 'double', 'x86_fp80', 'half', 'fp128'):
                t = ('fp', v)
            elif v == 'label':
                t = ('label',)
            elif v == 'metadata':
                t = ('meta',)
            elif v == 'token':
                t = ('token',)
            elif v == 'opaque':
                t = ('opaque',)
            else:
                raise PErr('type %r' % v)
        elif v == '[':
            n = int(self.next()[1])
            self.exp('x')
            e = self.type()
            self.exp(']')
            t = ('arr', n, e)
        elif v == '{':
            t = ('struct', False, tuple(self.tlist('}')))
        elif v == '<':
            if self.peek()[1] == '{':
                self.next()
                t = ('struct', True, tuple(self.tlist('}')))
                self.exp('>')
            else:
                n = int(self.next()[1])
                self.exp('x')
                e = self.type()
                self.exp('>')
                t = ('vec', n, e)
        elif k == 'loc':
            t = ('named', unq(v))
        else:
            raise PErr('type tok %r in %s' % (v, ' '.join(x[1] for x in self.t)[:200]))
        # function type
        while self.peek()[1] == '(' and False:
            pass
        return t

    def tlist(self, close):
        r = []
        if self.eat(close):
            return r
        while True:
            r.append(self.type())
            if self.eat(close):
                return r
            self.exp(',')

    # -- values ; value := ('c',int) ('loc',name) ('glob',name) ('null',) ('undef',) ('zero',)
    #    ('agg',[ (t,v) ]) ('str',bytes) ('ce',op,...) ('fpc',x)
    def value(self, ty):
        k, v = self.next()
        if k == 'num':
            if ty[0] == 'fp':
                return ('fpc', float(v))
            return ('c', int(v))
        if k == 'hex':
            return ('fpc', v)
        if k == 'loc':
            return ('loc', unq(v))
        if k == 'glob':
            return ('glob', unq(v))
        if k == 'str':
            return ('str', parse_cstr(v))
        if k == 'id':
            if v == 'true':
                return ('c', 1)
            if v == 'false':
                return ('c', 0)
            if v == 'null':
                return ('null',)
            if v in ('undef', 'poison'):
                return ('undef',)
            if v == 'zeroinitializer':
                return ('zero',)
            if v == 'none':
                return ('zero',)
            if v == 'getelementptr':
                self.eat('inbounds')
                if self.eat('inrange'):
                    pass
                self.exp('(')
                if self.eat('inrange'):
                    pass
                bt = self.type()
                self.exp(',')
                base_t = self.type()
                base = self.value(base_t)
                idx = []
                while self.eat(','):
                    self.eat('inrange')
                    it = self.type()
                    idx.append((it, self.value(it)))
                self.exp(')')
                return ('ce', 'gep', bt, base, idx)
            if v in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
                self.exp('(')
                st = self.type()
                x = self.value(st)
                self.exp('to')
                dt = self.type()
                self.exp(')')
                return ('ce', v, st, x, dt)
            if v in ('sub', 'add', 'mul', 'xor', 'and', 'or', 'shl'):
                while self.peek()[1] in ('nuw', 'nsw'):
                    self.next()
                self.exp('(')
                t1 = self.type()
                a = self.value(t1)
                self.exp(',')
                t2 = self.type()
                b = self.value(t2)
                self.exp(')')
                return ('ce', 'bin', v, t1, a, b)
            if v == 'icmp':
                pred = self.next()[1]
                self.exp('(')
                t1 = self.type()
                a = self.value(t1)
                self.exp(',')
                t2 = self.type()
                b = self.value(t2)
                self.exp(')')
                return ('ce', 'icmp', pred, t1, a, b)
            if v == 'blockaddress' or v == 'dso_local_equivalent' or v == 'no_cfi':
                raise PErr(v)
        if v == '{':
            return ('agg', self.vlist('}'))
        if v == '[':
            return ('agg', self.vlist(']'))
        if v == '<':
            if self.eat('{'):
                r = self.vlist('}')
                self.exp('>')
                return ('agg', r)
            return ('agg', self.vlist('>'))
        raise PErr('value %r in %s' % (v, ' '.join(x[1] for x in self.t)[:300]))

    def vlist(self, close):
        r = []
        if self.eat(close):
            return r
        while True:
            t = self.type()
            r.append((t, self.value(t)))
            if self.eat(close):
                return r
            self.exp(',')

    def tv(self):
        t = self.type()
        self.skip_attrs()
        return t, self.value(t)

    PARAM_ATTR = {'noundef', 'nonnull', 'zeroext', 'signext', 'inreg', 'noalias', 'nocapture', 'readonly',
                  'readnone', 'writeonly', 'immarg', 'returned', 'nest', 'swiftself', 'noreturn', 'dso_local',
                  'allocptr', 'nofree', 'allocalign', 'dead_on_unwind', 'writable', 'nonlazybind', 'returns_twice', 'nounwind'}

    def skip_attrs(self):
        """skip parameter attributes; returns dict of interesting ones"""
        r = {}
        while True:
            k, v = self.peek()
            if k == 'id' and v in self.PARAM_ATTR:
                self.next()
            elif k == 'id' and v == 'align':
                self.next()
                if self.eat('('):
                    self.next(); self.exp(')')
                else:
                    self.next()
            elif k == 'id' and v in ('dereferenceable', 'dereferenceable_or_null', 'allocsize', 'nofpclass'):
                self.next()
                d = 0
                while True:
                    x = self.next()[1]
                    if x == '(':
                        d += 1
                    elif x == ')':
                        d -= 1
                        if d == 0:
                            break
            elif k == 'id' and v in ('byval', 'sret', 'byref', 'elementtype', 'inalloca', 'preallocated'):
                self.next()
                self.exp('(')
                r[v] = self.type()
                self.exp(')')
            elif k == 'attr':
                self.next()
            elif k == 'str':
                self.next()
                if self.eat('='):
                    self.next()
            else:
                return r


def parse_cstr(v):
    s = v[2:-1] if v[0] == 'c' else v[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(0x5c)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out.extend(s[i].encode('utf-8'))
            i += 1
    return bytes(out)


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []      # (type, name, attrs)
        self.ret = None
        self.blocks = {}      # label -> list of instrs
        self.order = []
        self.entry = None
        self.raw = None
        self.vararg = False
        self._loops = None


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}     # name -> dict
        self.funcs = {}
        self.decls = {}
        self._lay = {}

    # ------- layout
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def size_align(self, t):
        r = self._lay.get(t)
        if r:
            return r
        k = t[0]
        if k == 'i':
            n = t[1]
            by = (n + 7) // 8
            al = 1
            while al < by and al < 16:
                al *= 2
            sz = (by + al - 1) // al * al
            r = (sz, al)
        elif k == 'ptr':
            r = (8, 8)
        elif k == 'fp':
            r = {'float': (4, 4), 'double': (8, 8), 'x86_fp80': (16, 16), 'half': (2, 2), 'fp128': (16, 16)}[t[1]]
        elif k == 'arr':
            s, a = self.size_align(t[2])
            r = (s * t[1], a)
        elif k == 'vec':
            s, a = self.size_align(t[2])
            n = s * t[1]
            p = 1
            while p < n:
                p *= 2
            r = (p, p)
        elif k == 'struct':
            off = 0
            mal = 1
            for f in t[2]:
                s, a = self.size_align(f)
                if t[1]:
                    a = 1
                off = (off + a - 1) // a * a
                off += s
                mal = max(mal, a)
            off = (off + mal - 1) // mal * mal
            r = (off, mal)
        elif k == 'named':
            r = self.size_align(self.types[t[1]])
        elif k in ('void', 'opaque'):
            r = (0, 1)
        else:
            raise PErr('size of %r' % (t,))
        self._lay[t] = r
        return r

    def size(self, t):
        return self.size_align(t)[0]

    def offsets(self, t):
        """field offsets of a struct type"""
        key = ('off', t)
        r = self._lay.get(key)
        if r:
            return r
        st = self.resolve(t)
        off = 0
        r = []
        for f in st[2]:
            s, a = self.size_align(f)
            if st[1]:
                a = 1
            off = (off + a - 1) // a * a
            r.append(off)
            off += s
        self._lay[key] = r
        return r


FN_HDR_SKIP = {'dso_local', 'linkonce_odr', 'internal', 'private', 'weak', 'weak_odr', 'linkonce', 'external',
               'available_externally', 'hidden', 'protected', 'unnamed_addr', 'local_unnamed_addr', 'noundef',
               'zeroext', 'signext', 'nonnull', 'noalias', 'fastcc', 'ccc', 'common', 'extern_weak', 'appending',
               'preemptable', 'dso_preemptable', 'inreg', 'coldcc'}


def parse_module(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if not ln or ln[0] == ';' or ln.startswith(('source_filename', 'target', 'attributes', '!', '$', 'module asm')):
            i += 1
            continue
        if ln.startswith('%'):
            mm = re.match(r'(%(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = type (.*)$', ln)
            p = P(lex(mm.group(2)), m)
            m.types[unq(mm.group(1))] = p.type()
            i += 1
            continue
        if ln.startswith('@'):
            parse_global(m, ln)
            i += 1
            continue
        if ln.startswith('declare'):
            parse_header(m, ln, True)
            i += 1
            continue
        if ln.startswith('define'):
            j = i + 1
            while lines[j] != '}':
                j += 1
            f = parse_header(m, ln, False)
            f.raw = lines[i + 1:j]
            i = j + 1
            continue
        raise PErr('top: %r' % ln[:100])
    return m


def parse_global(m, ln):
    mm = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', ln)
    name = unq(mm.group(1))
    p = P(lex(mm.group(2)), m)
    ext = False
    const = False
    while True:
        k, v = p.peek()
        if v in ('external', 'extern_weak'):
            ext = True
            p.next()
        elif v == 'thread_local':
            p.next()
            if p.eat('('):
                p.next(); p.exp(')')
        elif v in ('global', 'constant'):
            const = v == 'constant'
            p.next()
            break
        elif v == 'alias' or v == 'ifunc':
            p.next()
            p.type()
            if p.eat('('):
                while not p.eat(')'):
                    p.next()
            p.exp(',')
            t = p.type()
            m.globals[name] = {'alias': p.value(t)}
            return
        elif k == 'id':
            p.next()
            if p.eat('('):
                while not p.eat(')'):
                    p.next()
        else:
            raise PErr('global hdr %r' % ln[:120])
    # the initializer of big tables is parsed lazily
    t = p.type()
    m.globals[name] = {'type': t, 'const': const, 'ext': ext, 'p': p, 'init': None, 'done': ext}


def global_init(m, name):
    g = m.globals[name]
    if not g['done']:
        g['init'] = g['p'].value(g['type'])
        g['done'] = True
        g['p'] = None
    return g['init']


def parse_header(m, ln, decl):
    p = P(lex(ln), m)
    p.next()  # define/declare
    while True:
        k, v = p.peek()
        if k == 'id' and v in FN_HDR_SKIP:
            p.next()
        elif k == 'id' and v in ('dereferenceable', 'dereferenceable_or_null', 'align'):
            p.skip_attrs()
        elif k == 'str':
            p.next()
        elif k == 'id' and v == 'range':
            p.next()
            while p.next()[1] != ')':
                pass
        else:
            break
    ret = p.type()
    k, v = p.next()
    f = Func(unq(v))
    f.ret = ret
    p.exp('(')
    idx = 0
    if not p.eat(')'):
        while True:
            if p.eat('...'):
                f.vararg = True
                p.exp(')')
                break
            t = p.type()
            a = p.skip_attrs()
            nm = None
            if p.peek()[0] == 'loc':
                nm = unq(p.next()[1])
            else:
                nm = str(idx)
            f.params.append((t, nm, a))
            idx += 1
            if p.eat(')'):
                break
            p.exp(',')
    if decl:
        m.decls[f.name] = f
    else:
        m.funcs[f.name] = f
    return f


LABEL = re.compile(r'^("[^"]*"|[-a-zA-Z$._0-9]+):')


def parse_body(m, f):
    if f.raw is None:
        return
    lines = f.raw
    f.raw = None
    cur = None
    # entry label
    joined = []
    i = 0
    while i < len(lines):
        ln = lines[i]
        st = ln.strip()
        if not st or st.startswith(';'):
            i += 1
            continue
        if st.startswith('switch ') or ' = switch' in st:
            while not lines[i].strip().endswith(']'):
                i += 1
                st += ' ' + lines[i].strip()
        elif re.match(r'(%\S+ = )?invoke ', st) or re.match(r'%"[^"]*" = invoke ', st):
            i += 1
            st += ' ' + lines[i].strip()
        elif ' = landingpad ' in st:
            while i + 1 < len(lines) and re.match(r'\s*(cleanup|catch|filter)\b', lines[i + 1]):
                i += 1
                st += ' ' + lines[i].strip()
        joined.append(st)
        i += 1
    # implicit entry label: number = count of unnamed params
    first = joined[0]
    mm = LABEL.match(first)
    if mm and ' = ' not in first.split(':')[0]:
        pass
    else:
        nun = len(f.params)
        lab = str(sum(1 for (_, nm, _) in f.params if nm.isdigit()))
        cur = lab
        f.blocks[cur] = []
        f.order.append(cur)
        f.entry = cur
    for st in joined:
        mm = LABEL.match(st)
        if mm and not st.startswith('%'):
            cur = mm.group(1).strip('"')
            f.blocks[cur] = []
            f.order.append(cur)
            if f.entry is None:
                f.entry = cur
            continue
        ins = parse_instr(m, st)
        if ins is not None:
            f.blocks[cur].append(ins)


BINOPS = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
          'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'fptoui', 'fptosi', 'uitofp', 'sitofp',
         'fpext', 'fptrunc', 'addrspacecast'}
FLAGS = {'nuw', 'nsw', 'exact', 'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'nneg', 'disjoint',
         'volatile', 'inbounds', 'atomic', 'samesign'}


class Ins:
    __slots__ = ('op', 'dst', 'a', 'ty', 'flags')

    def __init__(self, op, dst, ty, a, flags=()):
        self.op = op
        self.dst = dst
        self.ty = ty
        self.a = a
        self.flags = flags

    def __repr__(self):
        return '%s = %s %s %r' % (self.dst, self.op, self.ty, self.a)


def parse_instr(m, st):
    p = P(lex(st), m)
    dst = None
    if p.peek()[0] == 'loc' and p.peek(1)[1] == '=':
        dst = unq(p.next()[1])
        p.next()
    k, op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        k, op = p.next()
    if op in BINOPS:
        fl = []
        while p.peek()[1] in FLAGS:
            fl.append(p.next()[1])
        t = p.type()
        a = p.value(t)
        p.exp(',')
        b = p.value(t)
        return Ins('bin', dst, t, (op, a, b), tuple(fl))
    if op in CASTS:
        while p.peek()[1] in FLAGS:
            p.next()
        t = p.type()
        a = p.value(t)
        p.exp('to')
        dt = p.type()
        return Ins('cast', dst, dt, (op, t, a))
    if op == 'icmp':
        while p.peek()[1] in FLAGS:
            p.next()
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.exp(',')
        b = p.value(t)
        return Ins('icmp', dst, t, (pred, a, b))
    if op == 'fcmp':
        while p.peek()[1] in FLAGS:
            p.next()
        pred = p.next()[1]
        t = p.type()
        a = p.value(t)
        p.exp(',')
        b = p.value(t)
        return Ins('fcmp', dst, t, (pred, a, b))
    if op == 'fneg':
        while p.peek()[1] in FLAGS:
            p.next()
        t = p.type()
        return Ins('fneg', dst, t, (p.value(t),))
    if op == 'alloca':
        t = p.type()
        cnt = ('c', 1)
        if p.eat(','):
            if p.peek()[1] == 'align':
                pass
            else:
                ct = p.type()
                cnt = p.value(ct)
        return Ins('alloca', dst, t, (cnt,))
    if op == 'load':
        while p.peek()[1] in FLAGS:
            p.next()
        t = p.type()
        p.exp(',')
        pt = p.type()
        a = p.value(pt)
        return Ins('load', dst, t, (a,))
    if op == 'store':
        while p.peek()[1] in FLAGS:
            p.next()
        t = p.type()
        v = p.value(t)
        p.exp(',')
        pt = p.type()
        a = p.value(pt)
        return Ins('store', None, t, (v, a))
    if op == 'getelementptr':
        while p.peek()[1] in FLAGS or p.peek()[1] == 'inrange':
            p.next()
        t = p.type()
        p.exp(',')
        bt = p.type()
        b = p.value(bt)
        idx = []
        while p.eat(','):
            if p.peek()[0] == 'meta':
                break
            it = p.type()
            idx.append((it, p.value(it)))
        return Ins('gep', dst, t, (b, idx))
    if op == 'br':
        if p.peek()[1] == 'label':
            p.next()
            return Ins('br', None, None, (unq(p.next()[1]),))
        t = p.type()
        c = p.value(t)
        p.exp(',')
        p.exp('label')
        a = unq(p.next()[1])
        p.exp(',')
        p.exp('label')
        b = unq(p.next()[1])
        return Ins('cbr', None, None, (c, a, b))
    if op == 'switch':
        t = p.type()
        v = p.value(t)
        p.exp(',')
        p.exp('label')
        d = unq(p.next()[1])
        p.exp('[')
        cases = []
        while not p.eat(']'):
            ct = p.type()
            c = p.value(ct)
            p.exp(',')
            p.exp('label')
            cases.append((c[1], unq(p.next()[1])))
        return Ins('switch', None, t, (v, d, cases))
    if op == 'ret':
        if p.peek()[1] == 'void':
            return Ins('ret', None, None, (None,))
        t = p.type()
        return Ins('ret', None, t, (p.value(t),))
    if op == 'unreachable':
        return Ins('unreachable', None, None, ())
    if op == 'phi':
        while p.peek()[1] in FLAGS:
            p.next()
        t = p.type()
        inc = []
        while True:
            p.exp('[')
            v = p.value(t)
            p.exp(',')
            lab = unq(p.next()[1])
            p.exp(']')
            inc.append((v, lab))
            if not p.eat(','):
                break
        return Ins('phi', dst, t, ({l: v for v, l in inc},))
    if op == 'select':
        while p.peek()[1] in FLAGS:
            p.next()
        ct = p.type()
        c = p.value(ct)
        p.exp(',')
        t = p.type()
        a = p.value(t)
        p.exp(',')
        t2 = p.type()
        b = p.value(t2)
        return Ins('select', dst, t, (c, a, b))
    if op in ('call', 'invoke'):
        while True:
            k, v = p.peek()
            if k == 'id' and (v in FN_HDR_SKIP or v in FLAGS):
                p.next()
            elif k == 'id' and v in ('dereferenceable', 'dereferenceable_or_null', 'align', 'range'):
                if v == 'range':
                    p.next()
                    while p.next()[1] != ')':
                        pass
                else:
                    p.skip_attrs()
            else:
                break
        t = p.type()
        if p.peek()[1] == '(':      # explicit function type (varargs)
            d = 0
            while True:
                x = p.next()[1]
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
                    if d == 0:
                        break
        if p.peek()[1] == 'asm':
            return Ins('asm', dst, t, (st,))
        callee = p.value(('ptr',))
        p.exp('(')
        args = []
        if not p.eat(')'):
            while True:
                at = p.type()
                if at[0] == 'meta':
                    # skip metadata operand
                    d = 0
                    while True:
                        x = p.peek()[1]
                        if d == 0 and x in (',', ')'):
                            break
                        if x in '([{':
                            d += 1
                        if x in ')]}':
                            d -= 1
                        p.next()
                    args.append((at, ('undef',), {}))
                else:
                    a = p.skip_attrs()
                    args.append((at, p.value(at), a))
                if p.eat(')'):
                    break
                p.exp(',')
        norm = unw = None
        if op == 'invoke':
            while p.peek()[1] != 'to':
                p.next()
            p.next()
            p.exp('label')
            norm = unq(p.next()[1])
            p.exp('unwind')
            p.exp('label')
            unw = unq(p.next()[1])
        return Ins('call', dst, t, (callee, args, norm, unw))
    if op == 'extractvalue':
        t = p.type()
        v = p.value(t)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()[1]))
        return Ins('extractvalue', dst, t, (v, idx))
    if op == 'insertvalue':
        t = p.type()
        v = p.value(t)
        p.exp(',')
        et = p.type()
        e = p.value(et)
        idx = []
        while p.eat(','):
            idx.append(int(p.next()[1]))
        return Ins('insertvalue', dst, t, (v, et, e, idx))
    if op == 'freeze':
        t = p.type()
        return Ins('freeze', dst, t, (p.value(t),))
    if op == 'landingpad':
        t = p.type()
        cl = []
        rest = p.t[p.i:]
        p2 = P(rest, m)
        clauses = []
        while p2.peek()[0] != 'eof':
            w = p2.next()[1]
            if w == 'cleanup':
                clauses.append(('cleanup',))
            elif w == 'catch':
                ct = p2.type()
                clauses.append(('catch', p2.value(ct)))
            elif w == 'filter':
                ct = p2.type()
                clauses.append(('filter', p2.value(ct)))
        return Ins('landingpad', dst, t, (clauses,))
    if op == 'resume':
        t = p.type()
        return Ins('resume', None, t, (p.value(t),))
    if op in ('fence',):
        return None
    if op in ('atomicrmw', 'cmpxchg'):
        return Ins('unsupported', dst, None, (st,))
    return Ins('unsupported', dst, None, (st,))


# ---------------------------------------------------------------- CFG
def succs(ins):
    if ins.op == 'br':
        return [ins.a[0]]
    if ins.op == 'cbr':
        return [ins.a[1], ins.a[2]]
    if ins.op == 'switch':
        return [ins.a[1]] + [l for _, l in ins.a[2]]
    if ins.op == 'call' and ins.a[2] is not None:
        return [ins.a[2], ins.a[3]]
    return []


_LIVE = {}


def returning(f):
    """blocks from which a return is reachable"""
    r = _LIVE.get(f.name)
    if r is None:
        pred = {b: [] for b in f.order}
        for b in f.order:
            for s in succs(f.blocks[b][-1]):
                pred[s].append(b)
        r = set()
        work = [b for b in f.order if f.blocks[b][-1].op == 'ret']
        while work:
            b = work.pop()
            if b in r:
                continue
            r.add(b)
            work += pred[b]
        _LIVE[f.name] = r
    return r


def loops(f):
    """natural loops: header -> set of blocks"""
    if f._loops is not None:
        return f._loops
    succ = {b: succs(f.blocks[b][-1]) for b in f.order}
    pred = {b: [] for b in f.order}
    for b in f.order:
        for s in succ[b]:
            pred[s].append(b)
    # reverse postorder
    seen = set()
    post = []
    stack = [(f.entry, iter(succ[f.entry]))]
    seen.add(f.entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(succ[s])))
                break
        else:
            post.append(b)
            stack.pop()
    rpo = post[::-1]
    idx = {b: i for i, b in enumerate(rpo)}
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [q for q in pred[b] if q in idom]
            if not ps:
                continue
            new = ps[0]
            for q in ps[1:]:
                a, c = q, new
                while a != c:
                    while idx[a] > idx[c]:
                        a = idom[a]
                    while idx[c] > idx[a]:
                        c = idom[c]
                new = a
            if idom.get(b) != new:
                idom[b] = new
                ch = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == f.entry:
                return False
            b = idom[b]
    res = {}
    for b in rpo:
        for s in succ[b]:
            if s in idx and dom(s, b):
                body = res.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x in body:
                        continue
                    body.add(x)
                    st.extend(pred[x])
    f._loops = res
    return res
