#!/usr/bin/env python3-vt
"""Symbolic executor for LLVM IR (text, as produced by clang 18).

Every path through the program is followed; values read through nd_raw() are
64-bit solver variables. At each branch whose condition is not constant Z3 decides
which sides are feasible, and each feasible side is explored (depth first, no
merging, no sampling, no loop bound other than the step limit). Each memory access
is checked against the object it belongs to, each CHECK() is discharged by asking
Z3 for values of the variables that violate it on the current path.

usage: symx.py file.ll out.json --timeout S
"""
import os, sys, re, json, time, argparse
import z3

M64 = (1 << 64) - 1
T0 = time.time()


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'w', 'e', 'n', 'packed', '_sz', '_al', '_offs')

    def __init__(self, k, w=0, e=None, n=0, packed=False):
        self.k, self.w, self.e, self.n, self.packed = k, w, e, n, packed
        self._sz = self._al = self._offs = None

    def align(self):
        if self._al is None:
            self.layout()
        return self._al

    def size(self):
        if self._sz is None:
            self.layout()
        return self._sz

    def layout(self):
        if self.k == 'i':
            b = (self.w + 7) // 8
            p = 1
            while p < b:
                p *= 2
            self._sz, self._al = p, min(p, 16)
        elif self.k == 'p':
            self._sz = self._al = 8
        elif self.k == 'f':
            self._sz = self._al = self.w // 8
        elif self.k == 'a':
            self._sz, self._al = self.n * self.e.size(), self.e.align()
        elif self.k == 's':
            o, al, offs = 0, 1, []
            for t in self.e:
                a = 1 if self.packed else t.align()
                al = max(al, a)
                o = (o + a - 1) // a * a
                offs.append(o)
                o += t.size()
            self._sz, self._al, self._offs = (o + al - 1) // al * al, al, offs
        elif self.k == 'named':
            t = self.e[0]
            self._sz, self._al, self._offs = t.size(), t.align(), t._offs
        elif self.k in ('void', 'fn', 'label', 'meta'):
            self._sz, self._al = 1, 1
        else:
            raise Unsupported('type ' + self.k)

    def res(self):
        return self.e[0].res() if self.k == 'named' else self


PTR = Ty('p', 64)
VOID = Ty('void')
INTS = {}


def IT(w):
    if w not in INTS:
        INTS[w] = Ty('i', w)
    return INTS[w]


TOK = re.compile(r'''\s*(c"(?:[^"\\]|\\.)*"|[%@]"[^"]*"|[%@][\w.$-]+|"(?:[^"\\]|\\.)*"|'''
                 r'''-?\d+(?:\.\d+e[+-]\d+)?|0x[0-9A-Fa-f]+|\.\.\.|[A-Za-z_][\w.]*|![\w.]*|#\d+|[()\[\]{}<>,=*:|^])''')


class P:
    """Token stream."""

    def __init__(self, s, mod):
        self.t, self.i, self.m = TOK.findall(s), 0, mod

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ''

    def next(self):
        self.i += 1
        return self.t[self.i - 1]

    def eat(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def need(self, x):
        if not self.eat(x):
            raise Unsupported('expected %s: %s' % (x, ' '.join(self.t[max(0, self.i - 8):self.i + 8])))

    def type(self):
        t = self.next()
        if t == 'ptr':
            r = PTR
        elif t == 'void':
            r = VOID
        elif re.match(r'i\d+$', t):
            r = IT(int(t[1:]))
        elif t == 'double':
            r = Ty('f', 64)
        elif t == 'float':
            r = Ty('f', 32)
        elif t == '[':
            n = int(self.next())
            self.need('x')
            e = self.type()
            self.need(']')
            r = Ty('a', 0, e, n)
        elif t == '{':
            r = Ty('s', 0, self.typelist('}'))
        elif t == '<' and self.peek() == '{':
            self.next()
            r = Ty('s', 0, self.typelist('}'), packed=True)
            self.need('>')
        elif t == '<':
            raise Unsupported('vector type')
        elif t[0] == '%':
            r = self.m.named(t)
        elif t in ('label', 'metadata', 'token'):
            r = Ty('label')
        else:
            raise Unsupported('type ' + t)
        while self.peek() == '(' and r.k in ('void', 'i', 'p', 's', 'named', 'f'):
            # function type
            d = 0
            while True:
                x = self.next()
                d += x == '('
                d -= x == ')'
                if d == 0:
                    break
            r = Ty('fn', 0, r)
        return r

    def typelist(self, end):
        l = []
        if self.eat(end):
            return l
        while True:
            l.append(self.type())
            if self.eat(end):
                return l
            self.need(',')


ATTR1 = {'noundef', 'nonnull', 'signext', 'zeroext', 'nocapture', 'readonly', 'writeonly', 'noalias',
         'returned', 'immarg', 'inreg', 'nofree', 'readnone', 'noreturn', 'dead_on_unwind', 'writable',
         'noundef', 'nest', 'allocptr', 'allocalign', 'swiftself', 'local_unnamed_addr',
         'unnamed_addr', 'dso_local', 'internal', 'private', 'external', 'common', 'constant', 'global',
         'thread_local', 'hidden', 'weak', 'linkonce_odr', 'inbounds', 'nsw', 'nuw', 'exact',
         'volatile', 'tail', 'musttail', 'notail', 'fastcc', 'ccc', 'nneg', 'disjoint', 'inalloca',
         'initialexec', 'localexec', 'localdynamic', 'available_externally', 'extern_weak', 'dso_preemptable', 'nuw'}


def attrs(p):
    """Skips parameter attributes."""
    while True:
        t = p.peek()
        if t in ATTR1:
            p.next()
            if t == 'thread_local' and p.eat('('):
                p.next(); p.need(')')
        elif t in ('dereferenceable', 'dereferenceable_or_null', 'byval', 'sret', 'captures', 'memory',
                   'range', 'elementtype', 'initializes', 'nofpclass', 'preallocated'):
            p.next()
            d = 0
            while True:
                x = p.next()
                d += x == '('
                d -= x == ')'
                if d == 0:
                    break
        elif t == 'align':
            p.next()
            if p.eat('('):
                p.next(); p.need(')')
            else:
                p.next()
        elif t and t[0] == '#':
            p.next()
        else:
            return


# ---------------------------------------------------------------- module
class Fn:
    def __init__(self, name):
        self.name, self.params, self.blocks, self.entry, self.id = name, [], {}, None, 0
        self.lines = None


class G:
    """Reference to a global, resolved at start."""
    __slots__ = ('n',)

    def __init__(self, n):
        self.n = n


class Module:
    def __init__(self, text):
        self.types, self.fns, self.globals, self.decls = {}, {}, {}, set()
        self.aliases = {}
        self.addr = {}
        self.parse(text)

    def named(self, n):
        if n not in self.types:
            self.types[n] = Ty('named', 0, [None])
        return self.types[n]

    def parse(self, text):
        lines = text.split('\n')
        i = 0
        pend = []
        while i < len(lines):
            l = lines[i]
            i += 1
            if l.startswith('%') and ' = type ' in l:
                p = P(l, self)
                n = p.next()
                p.need('=')
                p.need('type')
                t = self.named(n)
                if p.peek() == 'opaque':
                    t.e[0] = IT(8)
                else:
                    t.e[0] = p.type()
            elif l.startswith('@'):
                pend.append(l)
            elif l.startswith('declare '):
                self.decls.add(re.search(r'@("[^"]*"|[\w.$-]+)', l).group(0))
            elif l.startswith('define '):
                body = []
                while lines[i] != '}':
                    body.append(lines[i])
                    i += 1
                i += 1
                p = P(l, self)
                p.next()
                attrs(p)
                p.type()
                n = p.next()
                f = Fn(n)
                p.need('(')
                if not p.eat(')'):
                    while True:
                        if p.eat('...'):
                            p.need(')')
                            break
                        t = p.type()
                        attrs(p)
                        f.params.append((p.next(), t))
                        if p.eat(')'):
                            break
                        p.need(',')
                f.lines = body
                self.fns[n] = f
        # addresses of functions: ids 1..; of globals: from 1 << 20
        self.fnaddr = {}
        for k, n in enumerate(list(self.fns) + sorted(self.decls - set(self.fns))):
            self.addr[n] = ((k + 1) << 32) | 0x1000
            self.fnaddr[self.addr[n]] = n
        self.gid = 1 << 20
        gl = []
        for l in pend:
            p = P(l, self)
            n = p.next()
            p.need('=')
            ext = 'external' in p.t[:8] or 'extern_weak' in p.t[:8]
            const = False
            while True:
                if p.peek() == 'alias':
                    break
                if p.peek() == 'constant':
                    const = True
                k = p.i
                attrs(p)
                if p.i == k:
                    break
            if p.peek() == 'alias':
                p.next()
                p.type(); p.need(','); p.type()
                self.aliases[n] = p.next()
                continue
            t = p.type()
            self.gid += 1
            self.addr[n] = (self.gid << 32) | 0x1000
            gl.append((n, t, p, ext, const))
        for a, b in self.aliases.items():
            self.addr[a] = self.addr[b]
        for n, t, p, ext, const in gl:
            init = None if ext else self.const(p, t)
            self.globals[n] = (t, init, const)

    # constants: int | ('agg', [..]) | bytes | 'zero' | 'undef'
    def const(self, p, t):
        t = t.res()
        x = p.peek()
        if x in ('zeroinitializer',):
            p.next()
            return 0 if t.k in ('i', 'p') else 'zero'
        if x in ('undef', 'poison'):
            p.next()
            return 0 if t.k in ('i', 'p', 'f') else 'undef'
        if x == 'null':
            p.next()
            return 0
        if x == 'true':
            p.next()
            return 1
        if x == 'false':
            p.next()
            return 0
        if x.startswith('c"'):
            p.next()
            s = x[2:-1]
            return bytes(int(m[1:], 16) if len(m) == 3 else ord(m)
                         for m in re.findall(r'\\[0-9A-Fa-f]{2}|[^\\]', s))
        if re.match(r'-?\d+$', x) and t.k in ('i',):
            p.next()
            return int(x) & ((1 << t.w) - 1)
        if t.k == 'f':
            p.next()
            return 0
        if x[0] == '@':
            p.next()
            if x not in self.addr:
                raise Unsupported('unknown global ' + x)
            return self.addr[x]
        if x == '[':
            p.next()
            l = []
            if p.eat(']'):
                return ('agg', l)
            while True:
                et = p.type()
                l.append(self.const(p, et))
                if p.eat(']'):
                    return ('agg', l)
                p.need(',')
        if x == '{' or x == '<':
            p.next()
            if x == '<':
                p.need('{')
            l = []
            if not p.eat('}'):
                while True:
                    et = p.type()
                    l.append(self.const(p, et))
                    if p.eat('}'):
                        break
                    p.need(',')
            if x == '<':
                p.need('>')
            return ('agg', l)
        if x == 'getelementptr':
            p.next()
            p.eat('inbounds')
            if p.eat('inrange'):
                p.need('(')
                while not p.eat(')'):
                    p.next()
            p.need('(')
            bt = p.type()
            p.need(',')
            p.type()
            base = self.const(p, PTR)
            idx = []
            while p.eat(','):
                p.eat('inrange')
                it = p.type()
                idx.append((it, self.const(p, it)))
            p.need(')')
            off, ct = 0, bt
            for k, (it, v) in enumerate(idx):
                if v >> (it.w - 1):
                    v -= 1 << it.w
                if k == 0:
                    off += v * bt.size()
                else:
                    c = ct.res()
                    if c.k == 'a':
                        off += v * c.e.size()
                        ct = c.e
                    else:
                        c.size()
                        off += c._offs[v]
                        ct = c.e[v]
            return (base + off) & M64
        if x in ('ptrtoint', 'inttoptr', 'bitcast', 'trunc', 'zext'):
            p.next()
            p.need('(')
            st = p.type()
            v = self.const(p, st)
            p.need('to')
            dt = p.type()
            p.need(')')
            return v & ((1 << dt.w) - 1)
        if x in ('sub', 'add', 'xor', 'and', 'or', 'mul'):
            p.next()
            attrs(p)
            p.need('(')
            a = self.const(p, p.type()); p.need(',')
            b = self.const(p, p.type()); p.need(')')
            return eval({'sub': 'a-b', 'add': 'a+b', 'xor': 'a^b', 'and': 'a&b', 'or': 'a|b', 'mul': 'a*b'}[x]) & ((1 << t.w) - 1)
        raise Unsupported('constant ' + x)

    # ---- function bodies
    def body(self, f):
        if f.lines is None:
            return
        lines, f.lines = f.lines, None
        cur = None
        np = sum(1 for n, _ in f.params)
        label = None
        k = 0
        out = []
        while k < len(lines):
            l = lines[k]
            k += 1
            if l.rstrip().endswith('[') and 'switch' in l:
                while not lines[k].strip().startswith(']'):
                    l += ' ' + lines[k]
                    k += 1
                l += ' ]'
                k += 1
            s = l.strip()
            if not s or s.startswith(';'):
                continue
            m = re.match(r'^("?[\w.$-]+"?):(\s|$)', l)
            if m:
                label = '%' + m.group(1)
                cur = []
                f.blocks[label] = cur
                continue
            if cur is None:
                label = '%' + str(np) if all(re.match(r'%\d+$', n) for n, _ in f.params) else '%entry'
                cur = []
                f.blocks[label] = cur
                f.entry = label
            s = re.sub(r'(, ![\w.]+ !\d+)+$', '', s)
            s = re.sub(r'(, ![\w.]+ !\d+)+$', '', s)
            cur.append(self.instr(s))
        if f.entry is None:
            f.entry = next(iter(f.blocks))

    def opnd(self, p, t):
        x = p.peek()
        if x and x[0] == '%':
            return p.next()
        return self.const(p, t)

    def instr(self, s):
        p = P(s, self)
        dst = None
        if p.peek(1) == '=' and p.peek()[0] == '%':
            dst = p.next()
            p.next()
        while p.peek() in ('tail', 'musttail', 'notail'):
            p.next()
        op = p.next()
        if op in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem'):
            attrs(p)
            t = p.type()
            a = self.opnd(p, t)
            p.need(',')
            return ('bin', dst, op, t.w, a, self.opnd(p, t))
        if op == 'icmp':
            attrs(p)
            while p.peek() in ('samesign',):
                p.next()
            pred = p.next()
            t = p.type()
            a = self.opnd(p, t)
            p.need(',')
            return ('icmp', dst, pred, 64 if t.k == 'p' else t.w, a, self.opnd(p, t))
        if op in ('zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'):
            attrs(p)
            t = p.type()
            a = self.opnd(p, t)
            p.need('to')
            u = p.type()
            return ('cast', dst, {'ptrtoint': 'zext' if u.w > 64 else 'trunc', 'inttoptr': 'zext', 'bitcast': 'zext'}.get(op, op),
                    t.w, u.w, a)
        if op == 'load':
            attrs(p)
            t = p.type()
            p.need(',')
            p.type()
            return ('load', dst, t.res(), self.opnd(p, PTR))
        if op == 'store':
            attrs(p)
            t = p.type()
            v = self.opnd(p, t)
            p.need(',')
            p.type()
            return ('store', None, t.res(), v, self.opnd(p, PTR))
        if op == 'getelementptr':
            attrs(p)
            bt = p.type()
            p.need(',')
            p.type()
            base = self.opnd(p, PTR)
            coff, terms, ct, k = 0, [], bt, 0
            while p.eat(','):
                it = p.type()
                v = self.opnd(p, it)
                if k == 0:
                    sc = bt.size()
                else:
                    c = ct.res()
                    if c.k == 'a':
                        sc = c.e.size()
                        ct = c.e
                    else:
                        c.size()
                        coff += c._offs[v]
                        ct = c.e[v]
                        k += 1
                        continue
                k += 1
                if isinstance(v, int):
                    if v >> (it.w - 1):
                        v -= 1 << it.w
                    coff += v * sc
                else:
                    terms.append((v, it.w, sc))
            return ('gep', dst, base, coff, terms)
        if op == 'br':
            t = p.type()
            if t.k == 'label':
                return ('jmp', None, p.next())
            c = self.opnd(p, t)
            p.need(','); p.next(); a = p.next()
            p.need(','); p.next(); b = p.next()
            return ('br', None, c, a, b)
        if op == 'switch':
            t = p.type()
            v = self.opnd(p, t)
            p.need(','); p.next(); d = p.next()
            p.need('[')
            cases = []
            while not p.eat(']'):
                ct = p.type()
                c = self.const(p, ct)
                p.need(','); p.next()
                cases.append((c, p.next()))
            return ('switch', None, t.w, v, d, cases)
        if op == 'phi':
            t = p.type()
            m = {}
            while True:
                p.need('[')
                v = self.opnd(p, t)
                p.need(',')
                m[p.next()] = v
                p.need(']')
                if not p.eat(','):
                    break
            return ('phi', dst, m)
        if op == 'select':
            attrs(p)
            t = p.type()
            c = self.opnd(p, t)
            p.need(',')
            t = p.type()
            a = self.opnd(p, t)
            p.need(',')
            p.type()
            return ('select', dst, t, c, a, self.opnd(p, t))
        if op == 'alloca':
            attrs(p)
            t = p.type()
            n, nt = 1, IT(32)
            if p.eat(',') and p.peek() != 'align':
                nt = p.type()
                n = self.opnd(p, nt)
            return ('alloca', dst, t.size(), n)
        if op == 'ret':
            t = p.type()
            return ('ret', None, None if t.k == 'void' else self.opnd(p, t))
        if op == 'unreachable':
            return ('unreachable', None)
        if op == 'freeze':
            t = p.type()
            return ('mov', dst, self.opnd(p, t))
        if op == 'extractvalue':
            t = p.type()
            v = self.opnd(p, t)
            p.need(',')
            return ('extract', dst, v, int(p.next()))
        if op == 'insertvalue':
            t = p.type()
            v = self.opnd(p, t)
            p.need(',')
            et = p.type()
            e = self.opnd(p, et)
            p.need(',')
            return ('insert', dst, v, e, int(p.next()), len(t.res().e))
        if op == 'call':
            while p.peek() in ('fastcc', 'ccc', 'coldcc'):
                p.next()
            attrs(p)
            rt = p.type()
            if rt.k == 'fn':
                rt = rt.e
            c = p.next()
            if c == 'asm':
                raise Unsupported('inline asm')
            if c[0] == '@':
                callee = c
            else:
                callee = c
            p.need('(')
            args = []
            if not p.eat(')'):
                while True:
                    at = p.type()
                    if at.k == 'label':
                        # metadata
                        while p.peek() not in (',', ')'):
                            p.next()
                        args.append(0)
                    else:
                        attrs(p)
                        args.append(self.opnd(p, at))
                    if p.eat(')'):
                        break
                    p.need(',')
            return ('call', dst, callee, args, rt)
        if op == 'fence':
            return ('nop', None)
        raise Unsupported('instruction ' + s)


# ---------------------------------------------------------------- memory
class Obj:
    __slots__ = ('owner', 'size', 'cells', 'fill', 'live', 'kind', 'name')

    def __init__(self, owner, size, fill, kind, name=''):
        self.owner, self.size, self.fill, self.kind, self.name = owner, size, fill, kind, name
        self.cells = {}
        self.live = True

    def clone(self, owner):
        o = Obj(owner, self.size, self.fill, self.kind, self.name)
        o.cells = dict(self.cells)
        o.live = self.live
        return o


class Frame:
    __slots__ = ('fn', 'blk', 'pc', 'regs', 'prev', 'dst', 'allocas', 'label')

    def copy(f):
        g = Frame()
        g.fn, g.blk, g.pc, g.prev, g.dst, g.label = f.fn, f.blk, f.pc, f.prev, f.dst, f.label
        g.regs = dict(f.regs)
        g.allocas = list(f.allocas)
        return g


class State:
    ctr = 0

    def __init__(self):
        State.ctr += 1
        self.id = State.ctr
        self.frames, self.objs, self.nds, self.model = [], {}, [], {}
        self.conc, self.next, self.steps, self.pc = {}, 1 << 21, 0, ()
        self.snap = None
        self.jmps = {}

    def fork(self):
        s = State.__new__(State)
        State.ctr += 1
        s.id = State.ctr
        # the parent no longer owns its objects exclusively either
        State.ctr += 1
        self.id = State.ctr
        s.frames = [f.copy() for f in self.frames]
        s.jmps = dict(self.jmps)
        s.objs = dict(self.objs)
        s.nds = list(self.nds)
        s.model = self.model
        s.conc = dict(self.conc)
        s.next, s.steps = self.next, self.steps
        s.pc = self.pc
        return s


class Viol(Exception):
    def __init__(self, msg):
        self.msg = msg


class EndPath(Exception):
    pass


class Choose(Exception):
    """Fork: list of (constraint, concretisation or None, frame target or None)."""

    def __init__(self, alts):
        self.alts = alts


def is_sym(v):
    return not isinstance(v, int)


class Nonlinear(Exception):
    pass


class Lia:
    """Exact translation of bit-vector constraints to linear integer arithmetic. A term
    of width w becomes an integer term congruent to it modulo 2^w, with bounds; where
    the value itself matters, quotient and remainder become fresh variables."""

    def __init__(self):
        self.memo, self.side, self.n = {}, {}, 0

    def fresh(self, lo, hi):
        self.n += 1
        v = z3.Int('$%d' % self.n)
        self.need(v >= lo, v <= hi)
        return v

    def need(self, *cs):
        for c in cs:
            self.side[c.get_id()] = c

    def cached(self, k, x, f):
        """Translations are kept, with the constraints on their fresh variables."""
        hit = self.memo.get(k)
        if hit is None:
            old, self.side = self.side, {}
            try:
                r = f()
            except Nonlinear:
                r = None
            hit = self.memo[k] = (r, self.side, x)
            self.side = old
        if hit[0] is None:
            raise Nonlinear()
        self.side.update(hit[1])
        return hit[0]

    def solver(self, cs):
        self.side = {}
        out = [self.cached(('b', c.get_id()), c, lambda: self.b(c)) for c in cs]
        s = z3.SolverFor('QF_LIA')
        s.add(list(self.side.values()))
        s.add(out)
        return s

    def rem(self, t, w):
        """t modulo 2^w."""
        e, lo, hi = t
        m = 1 << w
        if lo // m == hi // m:
            k = lo // m
            return (e - k * m, lo - k * m, hi - k * m) if k else t
        r = self.fresh(0, m - 1)
        q = self.fresh(lo // m, hi // m)
        self.need(e == r + q * m)
        return (r, 0, m - 1)

    def u(self, x):
        return self.cached(('u', x.get_id()), x, lambda: self.rem(self.t(x), x.size()))

    def s(self, x):
        return self.cached(('s', x.get_id()), x, lambda: self.sgn(x))

    def sgn(self, x):
        e, lo, hi = self.t(x)
        h = 1 << (x.size() - 1)
        e, lo, hi = self.rem((e + h, lo + h, hi + h), x.size())
        return (e - h, lo - h, hi - h)

    def t(self, x):
        return self.cached(('t', x.get_id()), x, lambda: self.term(x))

    def term(self, x):
        w, k, ch = x.size(), x.decl().kind(), x.children()
        if z3.is_bv_value(x):
            v = x.as_signed_long()
            return (z3.IntVal(v), v, v)
        if k == z3.Z3_OP_UNINTERPRETED and not ch:
            v = z3.Int(x.decl().name())
            self.need(v >= 0, v < (1 << w))
            return (v, 0, (1 << w) - 1)
        if k == z3.Z3_OP_BADD:
            e, lo, hi = self.t(ch[0])
            for c in ch[1:]:
                f, l, h = self.t(c)
                e, lo, hi = e + f, lo + l, hi + h
            return (e, lo, hi)
        if k == z3.Z3_OP_BSUB:
            (e, lo, hi), (f, l, h) = self.t(ch[0]), self.t(ch[1])
            return (e - f, lo - h, hi - l)
        if k == z3.Z3_OP_BNEG:
            e, lo, hi = self.t(ch[0])
            return (-e, -hi, -lo)
        if k == z3.Z3_OP_BNOT:
            e, lo, hi = self.t(ch[0])
            return (-e - 1, -hi - 1, -lo - 1)
        if k == z3.Z3_OP_BMUL and len(ch) == 2:
            for a, b in (ch, ch[::-1]):
                if z3.is_bv_value(a):
                    c = a.as_signed_long()
                    e, lo, hi = self.t(b)
                    return (e * c, min(lo * c, hi * c), max(lo * c, hi * c))
        if k == z3.Z3_OP_BSHL and z3.is_bv_value(ch[1]) and ch[1].as_long() < w:
            e, lo, hi = self.t(ch[0])
            c = 1 << ch[1].as_long()
            return (e * c, lo * c, hi * c)
        if k == z3.Z3_OP_BLSHR and z3.is_bv_value(ch[1]) and ch[1].as_long() < w:
            return self.div(self.u(ch[0]), ch[1].as_long())
        if k == z3.Z3_OP_BASHR and z3.is_bv_value(ch[1]) and ch[1].as_long() < w:
            return self.div(self.s(ch[0]), ch[1].as_long())
        if k == z3.Z3_OP_CONCAT:
            e, lo, hi = z3.IntVal(0), 0, 0
            for c in ch:
                f, l, h = self.u(c)
                m = 1 << c.size()
                e, lo, hi = e * m + f, lo * m + l, hi * m + h
            return (e, lo, hi)
        if k == z3.Z3_OP_EXTRACT:
            hb, lb = x.params()
            if lb == 0:
                return self.t(ch[0])
            return self.div(self.rem(self.u(ch[0]), hb + 1), lb)
        if k == z3.Z3_OP_ZERO_EXT:
            return self.u(ch[0])
        if k == z3.Z3_OP_SIGN_EXT:
            return self.s(ch[0])
        if k == z3.Z3_OP_BAND and len(ch) == 2:
            for a, b in (ch, ch[::-1]):
                if z3.is_bv_value(a):
                    c = a.as_long()
                    if c & (c + 1) == 0:
                        return self.rem(self.t(b), c.bit_length())
        if k == z3.Z3_OP_ITE:
            c = self.b(ch[0])
            (e, lo, hi), (f, l, h) = self.u(ch[1]), self.u(ch[2])
            return (z3.If(c, e, f), min(lo, l), max(hi, h))
        raise Nonlinear()

    def div(self, t, n):
        e, lo, hi = t
        m = 1 << n
        q = self.fresh(lo // m, hi // m)
        r = self.fresh(0, m - 1)
        self.need(e == q * m + r)
        return (q, lo // m, hi // m)

    def b(self, c):
        k, ch = c.decl().kind(), c.children()
        if k == z3.Z3_OP_TRUE or k == z3.Z3_OP_FALSE:
            return c
        if k == z3.Z3_OP_NOT:
            return z3.Not(self.b(ch[0]))
        if k == z3.Z3_OP_AND:
            return z3.And([self.b(x) for x in ch])
        if k == z3.Z3_OP_OR:
            return z3.Or([self.b(x) for x in ch])
        if k == z3.Z3_OP_XOR and len(ch) == 2:
            return z3.Xor(self.b(ch[0]), self.b(ch[1]))
        if k == z3.Z3_OP_IMPLIES:
            return z3.Implies(self.b(ch[0]), self.b(ch[1]))
        if k == z3.Z3_OP_ITE:
            return z3.If(self.b(ch[0]), self.b(ch[1]), self.b(ch[2]))
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_IFF):
            if z3.is_bool(ch[0]):
                return self.b(ch[0]) == self.b(ch[1])
            if z3.is_bv(ch[0]):
                return self.u(ch[0])[0] == self.u(ch[1])[0]
        f = {z3.Z3_OP_ULEQ: (self.u, 0), z3.Z3_OP_ULT: (self.u, 1), z3.Z3_OP_UGEQ: (self.u, 2), z3.Z3_OP_UGT: (self.u, 3),
             z3.Z3_OP_SLEQ: (self.s, 0), z3.Z3_OP_SLT: (self.s, 1), z3.Z3_OP_SGEQ: (self.s, 2), z3.Z3_OP_SGT: (self.s, 3)}.get(k)
        if f is None:
            raise Nonlinear()
        x, y = f[0](ch[0])[0], f[0](ch[1])[0]
        return (x <= y, x < y, x >= y, x > y)[f[1]]


class Exec:
    def __init__(self, mod, timeout, maxsteps=3000000, only=None):
        self.m = mod
        self.deadline = T0 + timeout
        self.varcache, self.qcache, self.lia = {}, {}, Lia()
        self.maxsteps = maxsteps
        self.depth = 0
        self.stack = []
        self.queries = self.forks = self.paths = self.instrs = self.checks = self.unk = 0
        self.solver_s = 0.0
        self.viol, self.wit, self.inc = [], {}, []
        self.seenfn = set()
        self.ndc = 0
        self.memchecks = 0
        self.allwit = set()
        self.ubfail = set()

    # ---- solver
    def vars(self, e):
        """Names of the variables in e -> z3 constants."""
        k = e.get_id()
        r = self.varcache.get(k)
        if r is not None:
            return r[1]
        out, seen, todo = {}, set(), [e]
        while todo:
            x = todo.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            c = self.varcache.get(i)
            if c is not None:
                out.update(c[1])
                continue
            if x.num_args() == 0:
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out[x.decl().name()] = x
            else:
                todo.extend(x.children())
        self.varcache[k] = (e, out)
        return out

    def query(self, st, cond):
        """Is the current path feasible together with cond? Returns a model (values of
        all variables) or None. Constraints which share no variables with cond, even
        indirectly, hold in the present model anyway."""
        need = set(self.vars(cond))
        rest = [(c, self.vars(c)) for c in st.pc]
        use = []
        while True:
            more = [(c, v) for c, v in rest if not need.isdisjoint(v)]
            if not more:
                break
            rest = [(c, v) for c, v in rest if need.isdisjoint(v)]
            for c, v in more:
                use.append(c)
                need.update(v)
        key = (frozenset(c.get_id() for c in use), cond.get_id())
        hit = self.qcache.get(key)
        if hit is None:
            t = time.time()
            self.queries += 1
            vals = self.solve(use, cond, need)
            self.solver_s += time.time() - t
            hit = (use, cond, vals)
            self.qcache[key] = hit
        if hit[2] is None:
            return None
        m = dict(st.model)
        m.update(hit[2])
        return m

    def solve(self, use, cond, need):
        """Model of use and cond, or None. Linear integer arithmetic if the constraints
        are such, bit-blasting otherwise."""
        for how, limit in (('lia', 3000), ('bv', 3000), ('lia', 30000), ('bv', 60000)):
            if how == 'lia':
                try:
                    s = self.lia.solver(list(use) + [cond])
                except Nonlinear:
                    continue
            else:
                s = z3.SolverFor('QF_BV')
                s.add(use)
                s.add(cond)
            s.set('timeout', limit)
            r = s.check()
            if r == z3.unsat:
                return None
            if r == z3.sat:
                m = s.model()
                if how == 'lia':
                    d = {x.name(): m[x].as_long() for x in m.decls() if z3.is_int_value(m[x])}
                    vals = {n: z3.BitVecVal(d.get(n, 0), v.size()) for n, v in self.vars_of(use, cond).items()}
                    if not all(z3.is_true(self.ev(vals, c)) for c in list(use) + [cond]):
                        continue
                else:
                    vals = {d.name(): m[d] for d in m.decls()}
                for n in need:
                    vals.setdefault(n, None)
                return vals
        raise Unsupported('solver gave up')

    def vars_of(self, use, cond):
        r = dict(self.vars(cond))
        for c in use:
            r.update(self.vars(c))
        return r

    def ev(self, m, e):
        """Value of e in a model."""
        sub = []
        for n, v in self.vars(e).items():
            x = m.get(n)
            sub.append((v, x if x is not None else z3.BitVecVal(0, v.size())))
        return z3.simplify(z3.substitute(e, *sub)) if sub else z3.simplify(e)

    def holds(self, st, cond):
        return z3.is_true(self.ev(st.model, cond))

    def add(self, st, cond):
        st.pc = st.pc + (cond,)

    def assume(self, st, cond):
        """Adds cond to the path; False if infeasible."""
        if isinstance(cond, int) or isinstance(cond, bool):
            return bool(cond)
        if not self.holds(st, cond):
            m = self.query(st, cond)
            if m is None:
                return False
            st.model = m
        self.add(st, cond)
        return True

    def values(self, st):
        return [self.ev(st.model, v).as_long() for v in st.nds]

    def concretize(self, st, v, what, limit=300):
        """Constant value of v on this path; forks over all feasible ones."""
        if isinstance(v, int):
            return v
        v = z3.simplify(v)
        if z3.is_bv_value(v):
            return v.as_long()
        k = v.get_id()
        if k in st.conc:
            return st.conc[k][1]
        alts = []
        m, pc = st.model, st.pc
        while m is not None:
            x = self.ev(m, v)
            alts.append((v == x, (k, v, x.as_long()), None, m))
            if len(alts) > limit:
                st.pc = pc
                raise Unsupported('too many values of ' + what)
            self.add(st, v != x)
            m = self.query(st, v != x)
        st.pc = pc
        if len(alts) == 1:
            st.conc[k] = (v, alts[0][1][2])
            return alts[0][1][2]
        raise Choose(alts)

    def decide(self, st, c):
        """Truth value of c on this path; forks if both are possible."""
        k = ('b', c.get_id())
        if k not in st.conc:
            alts = []
            for val, cond in ((1, c), (0, z3.Not(c))):
                m = st.model if self.holds(st, cond) else self.query(st, cond)
                if m is not None:
                    alts.append((cond, (k, c, val), None, m))
            if len(alts) == 1:
                st.conc[k] = (c, alts[0][1][2])
            else:
                raise Choose(alts)
        return st.conc[k][1]

    # ---- objects
    def alloc(self, st, size, fill, kind, name=''):
        i = st.next
        st.next += 1
        st.objs[i] = Obj(st.id, size, fill, kind, name)
        return (i << 32) | 0x1000

    def obj(self, st, addr, n, write):
        i = addr >> 32
        o = st.objs.get(i)
        if o is None:
            raise Viol('invalid pointer 0x%x (%s of %d bytes)' % (addr, 'write' if write else 'read', n))
        off = (addr & 0xffffffff) - 0x1000
        if not o.live:
            raise Viol('use of %s %s after it was released' % (o.kind, o.name))
        if off < 0 or off + n > o.size:
            raise Viol('%s of %d bytes at offset %d of %s %s (%d bytes): out of bounds' %
                       ('write' if write else 'read', n, off, o.kind, o.name, o.size))
        if write and o.owner != st.id:
            if o.kind == 'constant':
                raise Viol('write to constant ' + o.name)
            o = o.clone(st.id)
            st.objs[i] = o
        elif write and o.kind == 'constant':
            raise Viol('write to constant ' + o.name)
        return o, off

    def getbyte(self, st, o, off):
        c = o.cells
        v = c.get(off)
        if v is not None:
            x, n = v
            if n == 1:
                return x
            return x & 0xff if isinstance(x, int) else z3.Extract(7, 0, x)
        for d in range(1, 8):
            v = c.get(off - d)
            if v is not None:
                x, n = v
                if n > d:
                    return (x >> (8 * d)) & 0xff if isinstance(x, int) else z3.Extract(8 * d + 7, 8 * d, x)
                break
        f = o.fill
        if f is None:
            # uninitialised: any value
            self.unk += 1
            x = z3.BitVec('uninit%d' % self.unk, 8)
            if o.owner != st.id:
                i = next(k for k, q in st.objs.items() if q is o)
                o = o.clone(st.id)
                st.objs[i] = o
            o.cells[off] = (x, 1)
            return x
        if f == 0:
            return 0
        return f[off] if off < len(f) else 0

    def loadn(self, st, o, off, n):
        v = o.cells.get(off)
        if v is not None and v[1] == n:
            return v[0]
        if v is None and isinstance(o.fill, bytes) and not o.cells:
            return int.from_bytes(o.fill[off:off + n].ljust(n, b'\0'), 'little')
        bs = []
        for k in range(n):
            bs.append(self.getbyte(st, o, off + k))
            if o.fill is None:
                o = st.objs[self.cur >> 32] if self.cur else o
        return self.join(bs)

    def join(self, bs):
        if all(isinstance(b, int) for b in bs):
            r = 0
            for k, b in enumerate(bs):
                r |= b << (8 * k)
            return r
        if len(bs) == 1:
            return bs[0]
        return z3.simplify(z3.Concat([z3.BitVecVal(b, 8) if isinstance(b, int) else b for b in reversed(bs)]))

    def clear(self, st, o, off, n):
        """Splits cells which overlap [off, off + n) partially, removes the others."""
        c = o.cells
        for d in range(max(0, off - 7), off + n):
            v = c.get(d)
            if v is None:
                continue
            x, m = v
            if d >= off and d + m <= off + n:
                del c[d]
            elif d + m > off:
                del c[d]
                for k in range(m):
                    if not off <= d + k < off + n:
                        c[d + k] = ((x >> (8 * k)) & 0xff if isinstance(x, int)
                                    else z3.Extract(8 * k + 7, 8 * k, x), 1)

    def storen(self, st, o, off, n, v):
        c = o.cells.get(off)
        if c is None or c[1] != n:
            self.clear(st, o, off, n)
        o.cells[off] = (v, n)

    def resolve(self, st, addr, n, write):
        """Concrete address; loads may use ITE chains instead."""
        if isinstance(addr, int):
            return addr
        return self.concretize(st, addr, 'address')

    def load(self, st, ty, addr):
        if ty.k in ('s', 'a'):
            addr = self.concretize(st, addr, 'address')
            if ty.k == 's':
                ty.size()
                return tuple(self.load(st, t.res(), addr + o) for t, o in zip(ty.e, ty._offs))
            return tuple(self.load(st, ty.e.res(), addr + k * ty.e.size()) for k in range(ty.n))
        n = ty.size()
        self.memchecks += 1
        if not isinstance(addr, int):
            addr = z3.simplify(addr)
            if z3.is_bv_value(addr):
                addr = addr.as_long()
            elif addr.get_id() in st.conc:
                addr = st.conc[addr.get_id()][1]
            else:
                r = self.symload(st, addr, n)
                if r is not None:
                    return self.fix(ty, r)
                addr = self.concretize(st, addr, 'address')
        self.cur = addr
        o, off = self.obj(st, addr, n, False)
        return self.fix(ty, self.loadn(st, o, off, n))

    def fix(self, ty, v):
        if ty.k == 'i' and ty.w == 1:
            return v & 1 if isinstance(v, int) else z3.Extract(0, 0, v) == 1
        if ty.k == 'i' and ty.w != 8 * ty.size():
            return v & ((1 << ty.w) - 1) if isinstance(v, int) else z3.Extract(ty.w - 1, 0, v)
        return v

    def symload(self, st, addr, n):
        """Load from a symbolic offset within one object: if-then-else over the
        possible offsets. None if not applicable."""
        a0 = self.ev(st.model, addr).as_long()
        i = a0 >> 32
        o = st.objs.get(i)
        if o is None:
            raise Viol('invalid pointer 0x%x' % a0)
        if not o.live or o.size > 600 or o.fill is None and len(o.cells) * 1 < o.size and False:
            return None
        lo = (i << 32) | 0x1000
        out = z3.Or(z3.ULT(addr, lo), z3.UGT(addr, lo + o.size - n)) if o.size >= n else z3.BoolVal(True)
        if self.query(st, out) is not None:
            return None         # may leave the object: enumerate
        # stride
        terms = []
        self.cur = lo
        for off in range(o.size - n + 1):
            terms.append((off, None))
        if n > 1:
            al = z3.simplify(z3.URem(addr, z3.BitVecVal(n, 64)))
            if not (z3.is_bv_value(al) and al.as_long() == 0):
                if self.query(st, z3.URem(addr, z3.BitVecVal(n, 64)) != 0) is None:
                    al = z3.BitVecVal(0, 64)
            if z3.is_bv_value(al) and al.as_long() == 0:
                terms = [x for x in terms if (x[0] + 0x1000) % n == 0]
        r = None
        for off, _ in terms:
            v = self.loadn(st, st.objs[i], off, n)
            if isinstance(v, int):
                v = z3.BitVecVal(v, 8 * n)
            r = v if r is None else z3.If(addr == lo + off, v, r)
        return r

    def store(self, st, ty, v, addr):
        addr = self.concretize(st, addr, 'address')
        if ty.k in ('s', 'a'):
            if isinstance(v, str) or isinstance(v, int):
                v = [0] * (len(ty.e) if ty.k == 's' else ty.n)
            if isinstance(v, tuple) and v and v[0] == 'agg':
                v = v[1]
            if ty.k == 's':
                ty.size()
                for t, o, x in zip(ty.e, ty._offs, v):
                    self.store(st, t.res(), x, addr + o)
            else:
                for k, x in enumerate(v):
                    self.store(st, ty.e.res(), x, addr + k * ty.e.size())
            return
        self.memchecks += 1
        n = ty.size()
        o, off = self.obj(st, addr, n, True)
        if ty.k == 'i' and ty.w != 8 * n:
            if not isinstance(v, int):
                v = z3.If(v, z3.BitVecVal(1, 8 * n), z3.BitVecVal(0, 8 * n)) if ty.w == 1 else z3.ZeroExt(8 * n - ty.w, v)
        self.storen(st, o, off, n, v)

    def copy(self, st, dst, src, n):
        n = self.concretize(st, n, 'size', 2000)
        if n == 0:
            return
        dst = self.concretize(st, dst, 'address')
        src = self.concretize(st, src, 'address')
        self.memchecks += 2
        so, soff = self.obj(st, src, n, False)
        data = []
        k = 0
        c = so.cells
        while k < n:
            v = c.get(soff + k)
            if v is not None and v[1] <= n - k:
                data.append((k, v))
                k += v[1]
                continue
            self.cur = src
            x = self.getbyte(st, st.objs[src >> 32], soff + k)
            so = st.objs[src >> 32]
            c = so.cells
            data.append((k, (x, 1)))
            k += 1
        do, doff = self.obj(st, dst, n, True)
        self.clear(st, do, doff, n)
        for k, v in data:
            do.cells[doff + k] = v

    def setmem(self, st, dst, v, n):
        n = self.concretize(st, n, 'size', 2000)
        if n == 0:
            return
        dst = self.concretize(st, dst, 'address')
        o, off = self.obj(st, dst, n, True)
        self.clear(st, o, off, n)
        b = v & 0xff if isinstance(v, int) else z3.Extract(7, 0, v)
        if off == 0 and n == o.size and isinstance(b, int) and b == 0:
            o.fill = 0
            return
        for k in range(n):
            o.cells[off + k] = (b, 1)

    # ---- arithmetic
    @staticmethod
    def bv(v, w):
        if isinstance(v, int):
            return z3.BitVecVal(v, w)
        if w == 1 or z3.is_bool(v):
            return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        return v

    @staticmethod
    def sg(v, w):
        return v - (1 << w) if v >> (w - 1) else v

    def bin(self, op, w, a, b):
        if isinstance(a, int) and isinstance(b, int):
            mask = (1 << w) - 1
            if op == 'add': return (a + b) & mask
            if op == 'sub': return (a - b) & mask
            if op == 'mul': return (a * b) & mask
            if op == 'and': return a & b
            if op == 'or': return a | b
            if op == 'xor': return a ^ b
            if op == 'shl': return (a << b) & mask if b < w else 0
            if op == 'lshr': return a >> b if b < w else 0
            if op == 'ashr': return (self.sg(a, w) >> min(b, w)) & mask
            if b == 0:
                raise Viol('division by zero')
            if op == 'udiv': return a // b
            if op == 'urem': return a % b
            x, y = self.sg(a, w), self.sg(b, w)
            q = abs(x) // abs(y)
            if (x < 0) != (y < 0):
                q = -q
            if op == 'sdiv': return q & mask
            return (x - q * y) & mask
        if w == 1:
            A = z3.BoolVal(bool(a)) if isinstance(a, int) else a
            B = z3.BoolVal(bool(b)) if isinstance(b, int) else b
            r = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor, 'add': z3.Xor, 'sub': z3.Xor}[op](A, B)
            r = z3.simplify(r)
            return 1 if z3.is_true(r) else 0 if z3.is_false(r) else r
        if isinstance(b, int):
            if b == 0 and op in ('add', 'sub', 'or', 'xor', 'shl', 'lshr', 'ashr'):
                return a
            if b == 0 and op in ('and', 'mul'):
                return 0
        A, B = self.bv(a, w), self.bv(b, w)
        if op == 'add': r = A + B
        elif op == 'sub': r = A - B
        elif op == 'mul': r = A * B
        elif op == 'and': r = A & B
        elif op == 'or': r = A | B
        elif op == 'xor': r = A ^ B
        elif op == 'shl': r = A << B
        elif op == 'lshr': r = z3.LShR(A, B)
        elif op == 'ashr': r = A >> B
        elif op == 'udiv': r = z3.UDiv(A, B)
        elif op == 'urem': r = z3.URem(A, B)
        elif op == 'sdiv': r = A / B
        else: r = z3.SRem(A, B)
        r = z3.simplify(r)
        if z3.is_bv_value(r):
            return r.as_long()
        return r

    def icmp(self, pred, w, a, b):
        if isinstance(a, int) and isinstance(b, int):
            if pred == 'eq': return int(a == b)
            if pred == 'ne': return int(a != b)
            if pred[0] == 's':
                a, b = self.sg(a, w), self.sg(b, w)
            p = pred[1:]
            return int(a > b if p == 'gt' else a >= b if p == 'ge' else a < b if p == 'lt' else a <= b)
        if w == 1:
            A = z3.BoolVal(bool(a)) if isinstance(a, int) else a
            B = z3.BoolVal(bool(b)) if isinstance(b, int) else b
            if pred == 'eq': r = A == B
            elif pred == 'ne': r = z3.Xor(A, B)
            else: raise Unsupported('icmp i1 ' + pred)
        else:
            A, B = self.bv(a, w), self.bv(b, w)
            r = (A == B if pred == 'eq' else A != B if pred == 'ne' else
                 z3.UGT(A, B) if pred == 'ugt' else z3.UGE(A, B) if pred == 'uge' else
                 z3.ULT(A, B) if pred == 'ult' else z3.ULE(A, B) if pred == 'ule' else
                 A > B if pred == 'sgt' else A >= B if pred == 'sge' else
                 A < B if pred == 'slt' else A <= B)
        r = z3.simplify(r)
        return 1 if z3.is_true(r) else 0 if z3.is_false(r) else r

    def cast(self, op, w, u, a):
        if w == 0: w = 64
        if isinstance(a, int):
            if op == 'sext':
                return self.sg(a, w) & ((1 << u) - 1)
            return a & ((1 << u) - 1)
        if w == 1:
            one = 1 if op == 'zext' else (1 << u) - 1
            return z3.If(a, z3.BitVecVal(one, u), z3.BitVecVal(0, u))
        if u == w:
            return a
        if op == 'zext':
            r = z3.ZeroExt(u - w, a)
        elif op == 'sext':
            r = z3.SignExt(u - w, a)
        else:
            r = z3.Extract(u - 1, 0, a)
            if u == 1:
                r = z3.simplify(r == 1)
                return 1 if z3.is_true(r) else 0 if z3.is_false(r) else r
        r = z3.simplify(r)
        return r.as_long() if z3.is_bv_value(r) else r

    # ---- builtins; return value or raise
    def cstr(self, st, addr):
        s = b''
        while True:
            self.cur = addr
            o, off = self.obj(st, addr, 1, False)
            b = self.loadn(st, o, off, 1)
            if not isinstance(b, int):
                return s.decode('latin1') + '?'
            if b == 0:
                return s.decode('latin1')
            s += bytes([b])
            addr += 1

    def builtin(self, st, name, a, rt):
        n = name[1:]
        if n == 'nd_raw':
            k = len(st.nds)
            v = z3.BitVec('n%d' % k, 64)
            st.nds.append(v)
            return v
        if n == 'vt_sx_assume':
            c = self.icmp('ne', 32, a[0], 0)
            if not self.assume(st, c):
                raise EndPath()
            return 0
        if n == 'vt_sx_check':
            self.checks += 1
            c = self.icmp('ne', 32, a[0], 0)
            if isinstance(c, int):
                if not c:
                    raise Viol(self.cstr(st, a[1]))
                return 0
            neg = z3.Not(c)
            if self.holds(st, neg):
                raise Viol(self.cstr(st, a[1]))
            m = self.query(st, neg)
            if m is not None:
                st.model = m
                raise Viol(self.cstr(st, a[1]))
            return 0
        if n == 'vt_sx_witness':
            s = self.cstr(st, a[0])
            if s not in self.wit:
                self.wit[s] = self.values(st)
            return 0
        if n in ('exit', '_exit', '_Exit'):
            raise EndPath()
        if n in ('abort', 'llvm.trap', 'llvm.ubsantrap'):
            raise Viol('abort or undefined arithmetic')
        if n == 'malloc':
            sz = self.concretize(st, a[0], 'size')
            return self.alloc(st, sz, None, 'heap block')
        if n == 'calloc':
            sz = self.concretize(st, a[0], 'size') * self.concretize(st, a[1], 'size')
            return self.alloc(st, sz, 0, 'heap block')
        if n == 'realloc':
            sz = self.concretize(st, a[1], 'size')
            p = self.concretize(st, a[0], 'address')
            q = self.alloc(st, sz, None, 'heap block')
            if p:
                o, off = self.obj(st, p, 0, True)
                self.copy(st, q, p, min(sz, o.size))
                self.obj(st, p, 0, True)[0].live = False
            return q
        if n == 'free':
            p = self.concretize(st, a[0], 'address')
            if p == 0:
                return 0
            o, off = self.obj(st, p, 0, True)
            if o.kind != 'heap block' or off != 0:
                raise Viol('free of something not allocated')
            o.live = False
            return 0
        if n in ('memcpy', 'memmove') or n.startswith('llvm.memcpy') or n.startswith('llvm.memmove'):
            self.copy(st, a[0], a[1], a[2])
            return a[0]
        if n == 'memset' or n.startswith('llvm.memset'):
            self.setmem(st, a[0], a[1], a[2])
            return a[0]
        if n == '__errno_location':
            return self.errno
        if n.startswith('llvm.lifetime') or n.startswith('llvm.assume') or n.startswith('llvm.dbg') \
           or n.startswith('llvm.experimental.noalias') or n in ('fflush', 'printf', 'fprintf', 'puts', 'llvm.stackrestore', 'llvm.stackrestore.p0', 'fputs', 'putchar', 'fwrite'):
            return 0
        if n.startswith('llvm.stacksave'):
            return 0
        if n.startswith('llvm.expect') or n.startswith('llvm.ptr.annotation') or n.startswith('llvm.launder'):
            return a[0]
        m = re.match(r'llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)$', n)
        if m:
            w = int(m.group(3))
            r = self.bin(m.group(2), w, a[0], a[1])
            if isinstance(a[0], int) and isinstance(a[1], int):
                x, y = (self.sg(a[0], w), self.sg(a[1], w)) if m.group(1) == 's' else (a[0], a[1])
                full = {'add': x + y, 'sub': x - y, 'mul': x * y}[m.group(2)]
                back = self.sg(r, w) if m.group(1) == 's' else r
                return (r, int(full != back))
            e = 2 * w if m.group(2) == 'mul' else w + 1
            X, Y = self.bv(a[0], w), self.bv(a[1], w)
            ex = z3.SignExt if m.group(1) == 's' else z3.ZeroExt
            X, Y = ex(e - w, X), ex(e - w, Y)
            full = {'add': X + Y, 'sub': X - Y, 'mul': X * Y}[m.group(2)]
            ov = z3.simplify(full != ex(e - w, self.bv(r, w)))
            return (r, 1 if z3.is_true(ov) else 0 if z3.is_false(ov) else ov)
        m = re.match(r'llvm\.([us])(min|max)\.i(\d+)$', n)
        if m:
            w = int(m.group(3))
            c = self.icmp(m.group(1) + ('lt' if m.group(2) == 'min' else 'gt'), w, a[0], a[1])
            if not isinstance(c, int) and w >= 32:
                c = self.decide(st, c)
            if isinstance(c, int):
                return a[0] if c else a[1]
            return z3.If(c, self.bv(a[0], w), self.bv(a[1], w))
        m = re.match(r'llvm\.abs\.i(\d+)$', n)
        if m:
            w = int(m.group(1))
            c = self.icmp('slt', w, a[0], 0)
            neg = self.bin('sub', w, 0, a[0])
            if isinstance(c, int):
                return neg if c else a[0]
            return z3.If(c, self.bv(neg, w), self.bv(a[0], w))
        m = re.match(r'llvm\.bswap\.i(\d+)$', n)
        if m:
            w = int(m.group(1))
            if isinstance(a[0], int):
                return int.from_bytes(a[0].to_bytes(w // 8, 'little'), 'big')
            return z3.simplify(z3.Concat([z3.Extract(8 * k + 7, 8 * k, a[0]) for k in range(w // 8)]))
        m = re.match(r'llvm\.fsh([lr])\.i(\d+)$', n)
        if m:
            w = int(m.group(2))
            s = a[2] % w if isinstance(a[2], int) else None
            if s is None:
                raise Unsupported('funnel shift by a variable')
            if m.group(1) == 'l':
                hi, lo = (self.bin('shl', w, a[0], s), self.bin('lshr', w, a[1], w - s) if s else 0)
            else:
                hi, lo = (self.bin('shl', w, a[0], w - s) if s else 0, self.bin('lshr', w, a[1], s))
            return self.bin('or', w, hi, lo)
        m = re.match(r'llvm\.(usub|uadd)\.sat\.i(\d+)$', n)
        if m:
            w = int(m.group(2))
            r = self.bin(m.group(1)[1:], w, a[0], a[1])
            if m.group(1) == 'usub':
                c, s = self.icmp('ult', w, a[0], a[1]), 0
            else:
                c, s = self.icmp('ult', w, r, a[0]), (1 << w) - 1
            if isinstance(c, int):
                return s if c else r
            return z3.If(c, z3.BitVecVal(s, w), self.bv(r, w))
        if n.startswith('llvm.is.constant'):
            return 0
        if n.startswith('llvm.objectsize'):
            return M64
        raise Unsupported('no model of function ' + n)

    # ---- execution
    def push(self, st, fn, args, dst):
        self.m.body(fn)
        self.seenfn.add(fn.name)
        f = Frame()
        f.fn, f.label, f.pc, f.prev, f.dst = fn, fn.entry, 0, None, dst
        f.blk = fn.blocks[fn.entry]
        f.allocas = []
        f.regs = {n: a for (n, _), a in zip(fn.params, args)}
        if len(st.frames) > 200:
            raise Viol('unbounded recursion')
        st.frames.append(f)

    def jump(self, st, f, label):
        f.prev, f.label = f.label, label
        blk = f.blk = f.fn.blocks[label]
        f.pc = 0
        # phis, in parallel
        if blk and blk[0][0] == 'phi':
            vals = []
            k = 0
            while blk[k][0] == 'phi':
                v = blk[k][2][f.prev]
                vals.append((blk[k][1], f.regs[v] if isinstance(v, str) else v))
                k += 1
            for d, v in vals:
                f.regs[d] = v
            f.pc = k

    def step(self, st):
        f = st.frames[-1]
        regs = f.regs
        I = f.blk[f.pc]
        op = I[0]
        V = lambda x: regs[x] if isinstance(x, str) and x[0] == '%' else x
        if op == 'bin':
            regs[I[1]] = self.bin(I[2], I[3], V(I[4]), V(I[5]))
        elif op == 'icmp':
            regs[I[1]] = self.icmp(I[2], I[3], V(I[4]), V(I[5]))
        elif op == 'load':
            regs[I[1]] = self.load(st, I[2], V(I[3]))
        elif op == 'store':
            self.store(st, I[2], V(I[3]), V(I[4]))
        elif op == 'gep':
            a = V(I[2])
            off = I[3]
            for v, w, sc in I[4]:
                v = V(v)
                if isinstance(v, int):
                    off += self.sg(v, w) * sc
                else:
                    v = v if w == 64 else z3.SignExt(64 - w, v)
                    a = self.bin('add', 64, a, self.bin('mul', 64, v, sc) if sc != 1 else v)
            regs[I[1]] = self.bin('add', 64, a, off & M64) if off else a
        elif op == 'jmp':
            self.jump(st, f, I[2])
            return
        elif op == 'br':
            c = V(I[2])
            if isinstance(c, int):
                self.jump(st, f, I[3] if c else I[4])
                return
            self.branch(st, f, c, I[3], I[4])
            return
        elif op == 'cast':
            regs[I[1]] = self.cast(I[2], I[3], I[4], V(I[5]))
        elif op == 'select':
            c = V(I[3])
            if isinstance(c, int):
                regs[I[1]] = V(I[4]) if c else V(I[5])
            else:
                a, b = V(I[4]), V(I[5])
                t = I[2].res()
                if isinstance(a, int) and isinstance(b, int) and a == b:
                    regs[I[1]] = a
                elif t.k == 'p' or t.k in ('s', 'a') or t.w == 64:
                    regs[I[1]] = a if self.decide(st, c) else b
                elif t.w == 1:
                    A = z3.BoolVal(bool(a)) if isinstance(a, int) else a
                    B = z3.BoolVal(bool(b)) if isinstance(b, int) else b
                    r = z3.simplify(z3.If(c, A, B))
                    regs[I[1]] = 1 if z3.is_true(r) else 0 if z3.is_false(r) else r
                else:
                    regs[I[1]] = z3.If(c, self.bv(a, t.w), self.bv(b, t.w))
        elif op == 'call':
            if self.call(st, f, I, V):
                return
        elif op == 'ret':
            v = None if I[2] is None else V(I[2])
            for i in f.allocas:
                o = st.objs[i]
                if o.owner != st.id:
                    o = o.clone(st.id)
                    st.objs[i] = o
                o.live = False
                o.cells = {}
            st.frames.pop()
            if not st.frames:
                raise EndPath()
            g = st.frames[-1]
            if f.dst is not None:
                g.regs[f.dst] = v
            g.pc += 1
            return
        elif op == 'alloca':
            n = self.concretize(st, V(I[3]), 'size')
            a = self.alloc(st, I[2] * n, None, 'local variable', f.fn.name[1:] + ':' + I[1][1:])
            f.allocas.append(a >> 32)
            regs[I[1]] = a
        elif op == 'switch':
            v = V(I[3])
            if isinstance(v, int):
                for c, l in I[5]:
                    if c == v:
                        self.jump(st, f, l)
                        return
                self.jump(st, f, I[4])
                return
            alts, dflt = [], []
            w = I[2]
            by = {}
            for c, l in I[5]:
                e = v == z3.BitVecVal(c, w)
                dflt.append(z3.Not(e))
                by.setdefault(l, []).append(e)
            for l, es in list(by.items()) + [(I[4], None)]:
                e = z3.And(dflt) if es is None else z3.Or(es) if len(es) > 1 else es[0]
                if l == I[4] and es is not None:
                    continue
                if es is None and I[4] in by:
                    e = z3.Or([e] + by[I[4]])
                m = st.model if self.holds(st, e) else self.query(st, e)
                if m is not None:
                    alts.append((e, None, l, m))
            raise Choose(alts)
        elif op == 'mov':
            regs[I[1]] = V(I[2])
        elif op == 'extract':
            regs[I[1]] = V(I[2])[I[3]]
        elif op == 'insert':
            a = V(I[2])
            a = list(a) if isinstance(a, (tuple, list)) and (not a or a[0] != 'agg') else [0] * I[5]
            a[I[4]] = V(I[3])
            regs[I[1]] = tuple(a)
        elif op == 'nop':
            pass
        elif op == 'unreachable':
            raise Viol('unreachable code reached (undefined behaviour)')
        else:
            raise Unsupported('op ' + op)
        f.pc += 1

    def branch(self, st, f, c, lt, lf):
        k = ('b', c.get_id())
        if k in st.conc:
            self.jump(st, f, lt if st.conc[k][1] else lf)
            return
        n = z3.Not(c)
        if self.holds(st, c):
            mt = st.model
            mf = self.query(st, n)
        else:
            mf = st.model
            mt = self.query(st, c)
        if mf is None:
            st.conc[k] = (c, 1)
            self.jump(st, f, lt)
        elif mt is None:
            st.conc[k] = (c, 0)
            self.jump(st, f, lf)
        else:
            raise Choose([(c, (k, c, 1), lt, mt), (n, (k, c, 0), lf, mf)])

    def call(self, st, f, I, V):
        """Returns True if a frame was pushed."""
        name = I[2]
        if name[0] == '%':
            a = self.concretize(st, f.regs[name], 'function pointer')
            name = self.m.fnaddr.get(a)
            if name is None:
                raise Viol('call through an invalid function pointer')
        args = [V(x) for x in I[3]]
        name = self.m.aliases.get(name, name)
        fn = self.m.fns.get(name)
        if fn is not None:
            self.push(st, fn, args, I[1])
            return True
        if name == '@vt_sx_setjmp':
            # The saved frames are never modified: a jump restores a copy.
            st.jmps[self.concretize(st, args[0], 'address')] = [x.copy() for x in st.frames]
            f.regs[I[1]] = 0
            return False
        if name == '@vt_sx_longjmp':
            fr = st.jmps.get(self.concretize(st, args[0], 'address'))
            if fr is None:
                raise Viol('jump to a context that was not saved')
            st.frames = [x.copy() for x in fr]
            g = st.frames[-1]
            J = g.blk[g.pc]
            if J[1] is not None:
                g.regs[J[1]] = 1
            g.pc += 1
            return True
        r = self.builtin(st, name, args, I[4])
        if I[1] is not None:
            if I[4].k == 'i' and I[4].w < 64 and isinstance(r, int):
                r &= (1 << I[4].w) - 1
            f.regs[I[1]] = r
        return False

    def init(self):
        st = State()
        for n, (t, init, const) in self.m.globals.items():
            a = self.m.addr[n]
            o = Obj(st.id, t.size(), 0, 'constant' if const else 'variable', n[1:])
            st.objs[a >> 32] = o
            if init is None or init in ('zero', 'undef') or init == 0:
                continue
            self.initcells(o, 0, t.res(), init)
            if const and t.res().k == 'a' and isinstance(init, bytes):
                o.cells = {}
                o.fill = init
        self.errno = self.alloc(st, 4, 0, 'variable', 'errno')
        return st

    def initcells(self, o, off, t, v):
        t = t.res()
        if v == 'zero' or v == 'undef' or (isinstance(v, int) and v == 0):
            return
        if isinstance(v, bytes):
            for k, b in enumerate(v):
                if b:
                    o.cells[off + k] = (b, 1)
        elif isinstance(v, int):
            o.cells[off] = (v, t.size())
        elif t.k == 'a':
            for k, x in enumerate(v[1]):
                self.initcells(o, off + k * t.e.size(), t.e, x)
        else:
            t.size()
            for k, x in enumerate(v[1]):
                self.initcells(o, off + t._offs[k], t.e[k], x)

    def run(self, entry='@main'):
        st = self.init()
        self.push(st, self.m.fns[entry], [0, 0], None)
        self.stack = [(st, None)]
        while self.stack:
            st, alt = self.stack.pop()
            if alt is not None:
                self.apply(st, alt)
            self.path(st)
            if len(self.viol) >= 5:
                break
            if time.time() > self.deadline:
                self.inc.append('timeout')
                break

    def apply(self, st, alt):
        cond, conc, label, model = alt
        self.add(st, cond)
        st.model = model
        if conc:
            st.conc[conc[0]] = (conc[1], conc[2])
        if label:
            self.jump(st, st.frames[-1], label)

    def path(self, st):
        step = self.step
        n = 0
        try:
            while True:
                try:
                    n += 1
                    step(st)
                    if n & 1023 == 0:
                        if time.time() > self.deadline:
                            self.inc.append('timeout')
                            raise EndPath()
                        if st.steps + n > self.maxsteps:
                            self.viol.append(dict(msg='no end in sight after %d steps in %s' % (
                                st.steps + n, st.frames[-1].fn.name), values=self.values(st), hang=1))
                            raise EndPath()
                except Choose as c:
                    self.forks += len(c.alts) - 1
                    st.steps += n
                    self.instrs += n
                    n = 0
                    for alt in c.alts[1:]:
                        s = st.fork()
                        self.stack.append((s, alt))
                    self.apply(st, c.alts[0])
        except EndPath:
            self.paths += 1
        except Viol as v:
            self.paths += 1
            where = ' < '.join(f.fn.name[1:] for f in reversed(st.frames[-4:]))
            if not any(x['msg'] == v.msg and x['where'] == where for x in self.viol):
                self.viol.append(dict(msg=v.msg, where=where, values=self.values(st)))
        except Unsupported as u:
            where = ' < '.join(f.fn.name[1:] for f in reversed(st.frames[-4:]))
            self.inc.append('%s in %s' % (u, where))
        self.instrs += n


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('ll')
    ap.add_argument('out')
    ap.add_argument('--timeout', type=float, default=600)
    ap.add_argument('--steps', type=int, default=3000000)
    a = ap.parse_args()
    sys.setrecursionlimit(10000)
    res = dict(error=None)
    x = None
    try:
        x = Exec(Module(open(a.ll).read()), a.timeout, a.steps)
        x.run()
    except Exception as e:
        import traceback
        res['error'] = traceback.format_exc()[-1500:]
    if x:
        res.update(violations=x.viol, witnesses=x.wit, incomplete=sorted(set(x.inc))[:5], paths=x.paths,
                   forks=x.forks, queries=x.queries, solver_s=x.solver_s, instrs=x.instrs,
                   checks=x.checks, memchecks=x.memchecks, functions=sorted(f[1:] for f in x.seenfn),
                   wall=time.time() - T0)
    json.dump(res, open(a.out, 'w'))


if __name__ == '__main__':
    main()
