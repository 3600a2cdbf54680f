"""A parser for the subset of textual LLVM IR that rustc emits for the harness.

Modules are indexed by scanning once; function bodies are parsed on demand.
Instructions become small tuples: (op, result, ...operands).
Operands are ('c', value) for constants, ('l', name) for locals, ('g', name) for globals.
"""
import re
import struct

TOK = re.compile(r'\s+|/\*.*?\*/|c"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|[%@][-a-zA-Z$._0-9]+|[%@]"[^"]*"|![a-zA-Z_.0-9]*(?:\()?|#\d+|f0x[0-9A-Fa-f]+|[-+]?\d+\.\d+(?:e[-+]?\d+)?|[-+]?\d+|\+qnan|[+-]inf|[a-zA-Z_$.][-a-zA-Z$._0-9]*|\.\.\.|<\{|\}>|.')


class IRError(Exception):
    pass


def tokenize(line):
    out = []
    for m in TOK.finditer(line):
        t = m.group(0)
        if t.isspace() or t.startswith('/*'):
            continue
        if t == ';':
            break
        out.append(t)
    return out


INT = re.compile(r'^i(\d+)$')


class Ty:
    __slots__ = ('k', 'w', 'n', 'el', 'els', 'packed')

    def __init__(self, k, w=0, n=0, el=None, els=None, packed=False):
        self.k, self.w, self.n, self.el, self.els, self.packed = k, w, n, el, els, packed

    def __repr__(self):
        if self.k == 'i':
            return 'i%d' % self.w
        if self.k == 'arr':
            return '[%d x %r]' % (self.n, self.el)
        if self.k == 'vec':
            return '<%d x %r>' % (self.n, self.el)
        if self.k == 'st':
            return '{%s}' % ','.join(map(repr, self.els))
        return self.k

    def align(self):
        if self.k == 'i':
            s = (self.w + 7) // 8
            p = 1
            while p < s:
                p *= 2
            return min(p, 16)
        if self.k in ('ptr', 'double'):
            return 8
        if self.k == 'float':
            return 4
        if self.k == 'arr':
            return self.el.align()
        if self.k == 'vec':
            return self.size()
        if self.k == 'st':
            return 1 if self.packed else max([e.align() for e in self.els] or [1])
        return 1

    def size(self):
        if self.k == 'i':
            s = (self.w + 7) // 8
            a = self.align()
            return (s + a - 1) // a * a
        if self.k in ('ptr', 'double'):
            return 8
        if self.k == 'float':
            return 4
        if self.k in ('arr', 'vec'):
            return self.n * self.el.size()
        if self.k == 'st':
            o = 0
            for e in self.els:
                if not self.packed:
                    o = (o + e.align() - 1) // e.align() * e.align()
                o += e.size()
            if not self.packed:
                a = self.align()
                o = (o + a - 1) // a * a
            return o
        return 0

    def offset(self, i):
        if self.k in ('arr', 'vec'):
            return i * self.el.size(), self.el
        o = 0
        for j, e in enumerate(self.els):
            if not self.packed:
                o = (o + e.align() - 1) // e.align() * e.align()
            if j == i:
                return o, e
            o += e.size()
        raise IRError('struct index')


I1, I8, I32, I64 = Ty('i', 1), Ty('i', 8), Ty('i', 32), Ty('i', 64)
DBL, PTR, VOID = Ty('double'), Ty('ptr'), Ty('void')

ATTRS = set('''noundef nonnull noalias nofree readonly readnone writeonly zeroext signext returned immarg
 inreg nocapture nounwind nest swiftself dead_on_unwind writable local_unnamed_addr unnamed_addr
 fastcc ccc coldcc internal private hidden dso_local external available_externally linkonce_odr
 nonlazybind allocptr allocalign noinline dead_on_return nocreateundeforpoison'''.split())
ATTRP = set('align dereferenceable dereferenceable_or_null sret byval range captures nofpclass elementtype memory initializes'.split())
FLAGS = set('nuw nsw exact inbounds nnan ninf nsz arcp contract afn reassoc fast samesign disjoint nneg nusw volatile tail musttail notail'.split())


def fbits(s):
    """IEEE bits of a floating-point literal token."""
    if s.startswith('f0x'):
        return int(s[3:], 16)
    if s.startswith('0x'):
        return int(s[2:], 16)
    if s == '+qnan':
        return 0x7FF8000000000000
    if s == '+inf' or s == 'inf':
        return 0x7FF0000000000000
    if s == '-inf':
        return 0xFFF0000000000000
    return struct.unpack('<Q', struct.pack('<d', float(s)))[0]


class P:
    """A cursor over the tokens of one instruction."""

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ''

    def next(self):
        x = self.peek()
        self.i += 1
        return x

    def eat(self, x):
        if self.peek() != x:
            raise IRError('expected %r, found %r in %s' % (x, self.peek(), ' '.join(self.t)))
        self.i += 1

    def opt(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def flags(self):
        fs = []
        while self.peek() in FLAGS:
            fs.append(self.next())
        return fs

    def skip_parens(self):
        d = 0
        while True:
            x = self.next()
            if x == '' :
                return
            if x.endswith('('):
                d += 1
            elif x == ')':
                d -= 1
                if d == 0:
                    return

    def attrs(self):
        while True:
            x = self.peek()
            if x in ATTRS or x in ATTRP:
                self.i += 1
                if self.peek() == '(':
                    self.skip_parens()
                elif x in ATTRP and x in ('align', 'dereferenceable'):
                    self.next()
            elif x.startswith('#'):
                self.i += 1
            elif x.startswith('"'):
                self.i += 1
                if self.opt('='):
                    self.next()
            else:
                return

    def ty(self):
        x = self.next()
        m = INT.match(x)
        if m:
            return Ty('i', int(m.group(1)))
        if x in ('ptr', 'double', 'void', 'float', 'metadata', 'label'):
            return Ty(x)
        if x == '[':
            n = int(self.next())
            self.eat('x')
            e = self.ty()
            self.eat(']')
            return Ty('arr', n=n, el=e)
        if x == '<{':
            els = []
            while not self.opt('}>'):
                els.append(self.ty())
                self.opt(',')
            return Ty('st', els=els, packed=True)
        if x == '<':
            n = int(self.next())
            self.eat('x')
            e = self.ty()
            self.eat('>')
            return Ty('vec', n=n, el=e)
        if x == '{':
            els = []
            while not self.opt('}'):
                els.append(self.ty())
                self.opt(',')
            return Ty('st', els=els)
        raise IRError('type %r in %s' % (x, ' '.join(self.t)))

    def const(self, ty):
        """A value of the given type."""
        x = self.next()
        if x.startswith('%'):
            return ('l', x)
        if x.startswith('@'):
            return ('g', x)
        if x in ('undef', 'poison', 'zeroinitializer', 'null', 'none'):
            return ('c', self.zero(ty), x)
        if x == 'true':
            return ('c', 1)
        if x == 'false':
            return ('c', 0)
        if x in ('getelementptr', 'inttoptr', 'ptrtoint'):
            self.flags()
            self.eat('(')
            if x == 'getelementptr':
                bt = self.ty()
                self.eat(',')
                self.ty()
                base = self.const(PTR)
                idx = []
                while self.opt(','):
                    it = self.ty()
                    idx.append(self.const(it))
                self.eat(')')
                return ('gep', bt, base, idx)
            t = self.ty()
            v = self.const(t)
            self.eat('to')
            self.ty()
            self.eat(')')
            return v
        if x == 'splat':
            self.eat('(')
            t = self.ty()
            v = self.const(t)
            self.eat(')')
            return ('agg', [v] * ty.n)
        if ty.k == 'double':
            return ('c', fbits(x))
        if ty.k == 'float':
            raise IRError('float literal')
        if x in ('<{', '{', '[', '<'):
            end = {'<{': '}>', '{': '}', '[': ']', '<': '>'}[x]
            out = []
            while not self.opt(end):
                t = self.ty()
                out.append(self.const(t))
                self.opt(',')
            return ('agg', out)
        if x.startswith('c"'):
            return ('s', cstr(x[2:-1]))
        if ty.k in ('i', 'ptr'):
            v = int(x)
            return ('c', v & ((1 << (ty.w or 64)) - 1))
        raise IRError('constant %r of %r' % (x, ty))

    def zero(self, ty):
        return 0

    def tv(self):
        t = self.ty()
        self.attrs()
        return t, self.const(t)


def cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode()
            i += 1
    return bytes(out)


class Func:
    def __init__(self, name, ret, params, blocks, entry, pretty, tag=None):
        self.tag = tag
        self.name, self.ret, self.params, self.blocks, self.entry, self.pretty = name, ret, params, blocks, entry, pretty
        self.ninstr = sum(len(b) for b in blocks.values())


class Module:
    """Several .ll files merged; symbols are unique after mangling, private globals are
    renamed per file."""

    def __init__(self, paths):
        self.fdef = {}      # name -> (lines, file tag, pretty)
        self.gdef = {}      # name -> (line, tag)
        self.cache = {}
        self.pretty = {}
        for k, p in enumerate(paths):
            self._scan(open(p).read().split('\n'), 'm%d' % k)

    def _scan(self, lines, tag):
        i, n = 0, len(lines)
        last = ''
        while i < n:
            l = lines[i]
            if l.startswith('define'):
                m = re.search(r'@([-a-zA-Z$._0-9]+|"[^"]*")\(', l)
                name = m.group(1).strip('"')
                j = i
                while lines[j] != '}':
                    j += 1
                pr = ''
                k = i - 1
                while k >= 0 and lines[k].startswith(';'):
                    if not lines[k].startswith('; Function Attrs'):
                        pr = lines[k][2:]
                    k -= 1
                self.fdef[name] = (lines[i:j], tag)
                self.pretty[name] = pr
                i = j
            elif l.startswith('@'):
                m = re.match(r'@([-a-zA-Z$._0-9]+|"[^"]*") = ', l)
                if m:
                    self.gdef[(tag, m.group(1).strip('"'))] = l[m.end():]
            i += 1

    def global_init(self, tag, name):
        """(type, initializer) of a global, or None when it is external."""
        l = self.gdef.get((tag, name))
        if l is None:
            for (t, nm), v in self.gdef.items():
                if nm == name:
                    l, tag = v, t
                    break
            else:
                return None
        p = P(tokenize(l))
        p.attrs()
        while p.peek() in ('constant', 'global', 'thread_local', 'addrspace') or p.peek() in ATTRS:
            w = p.next()
            if w in ('constant', 'global'):
                break
        ty = p.ty()
        if p.peek() in ('', ','):
            return None
        return ty, p.const(ty), tag

    def func(self, name):
        f = self.cache.get(name)
        if f is None:
            f = self.cache[name] = self._parse(name)
        return f

    def has(self, name):
        return name in self.fdef

    def _parse(self, name):
        lines, tag = self.fdef[name]
        head = lines[0]
        p = P(tokenize(head))
        p.eat('define')
        p.attrs()
        ret = p.ty()
        p.attrs()
        p.next()
        p.eat('(')
        params = []
        while not p.opt(')'):
            t = p.ty()
            p.attrs()
            params.append((t, p.next()))
            p.opt(',')
        blocks, cur, entry = {}, None, None
        i = 1
        while i < len(lines):
            l = lines[i].strip()
            i += 1
            if not l or l.startswith(';') or l.startswith('#dbg'):
                continue
            m = re.match(r'^(?:"([^"]*)"|([-a-zA-Z$._0-9]+)):', lines[i - 1])
            if m and not lines[i - 1].startswith(' '):
                cur = '%' + (m.group(1) or m.group(2))
                if m.group(1):
                    cur = '%"' + m.group(1) + '"'
                blocks[cur] = []
                if entry is None:
                    entry = cur
                continue
            if l.startswith('switch') and not l.rstrip().endswith(']'):
                while True:
                    l2 = lines[i].strip()
                    i += 1
                    l += ' ' + l2
                    if l2.startswith(']'):
                        break
            if cur is None:
                cur = entry = '%start0'
                blocks[cur] = []
            blocks[cur].append(self._instr(l, tag))
        return Func(name, ret, params, blocks, entry, self.pretty.get(name, ''), tag)

    def _instr(self, l, tag):
        p = P(tokenize(l))
        res = None
        if p.peek(1) == '=':
            res = p.next()
            p.next()
        fl = p.flags()
        op = p.next()
        if op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
                  'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            p.flags()
            t = p.ty()
            a = p.const(t)
            p.eat(',')
            b = p.const(t)
            return (op, res, t, a, b)
        if op == 'fneg':
            p.flags()
            t = p.ty()
            return (op, res, t, p.const(t))
        if op == 'freeze':
            t = p.ty()
            return (op, res, t, p.const(t))
        if op in ('icmp', 'fcmp'):
            p.flags()
            pr = p.next()
            t = p.ty()
            a = p.const(t)
            p.eat(',')
            b = p.const(t)
            return (op, res, t, pr, a, b)
        if op == 'select':
            p.flags()
            tc = p.ty()
            c = p.const(tc)
            p.eat(',')
            t = p.ty()
            a = p.const(t)
            p.eat(',')
            t2 = p.ty()
            b = p.const(t2)
            return (op, res, t, c, a, b)
        if op in ('zext', 'sext', 'trunc', 'uitofp', 'sitofp', 'fptoui', 'fptosi', 'bitcast', 'ptrtoint', 'inttoptr',
                  'fptrunc', 'fpext', 'addrspacecast', 'ptrtoaddr'):
            p.flags()
            t = p.ty()
            a = p.const(t)
            p.eat('to')
            t2 = p.ty()
            return (op, res, t, a, t2)
        if op == 'alloca':
            t = p.ty()
            n = ('c', 1)
            if p.opt(',') and p.peek() != 'align':
                it = p.ty()
                n = p.const(it)
            return (op, res, t, n)
        if op == 'load':
            p.flags()
            t = p.ty()
            p.eat(',')
            p.ty()
            return (op, res, t, p.const(PTR))
        if op == 'store':
            p.flags()
            t = p.ty()
            v = p.const(t)
            p.eat(',')
            p.ty()
            return (op, None, t, v, p.const(PTR))
        if op == 'getelementptr':
            p.flags()
            t = p.ty()
            p.eat(',')
            p.ty()
            b = p.const(PTR)
            idx = []
            while p.opt(','):
                if p.peek().startswith('!'):
                    break
                it = p.ty()
                idx.append((it, p.const(it)))
            return (op, res, t, b, idx)
        if op == 'br':
            if p.peek() == 'label':
                p.next()
                return (op, None, None, p.next())
            p.ty()
            c = p.const(I1)
            p.eat(',')
            p.eat('label')
            a = p.next()
            p.eat(',')
            p.eat('label')
            b = p.next()
            return (op, None, c, a, b)
        if op == 'switch':
            t = p.ty()
            v = p.const(t)
            p.eat(',')
            p.eat('label')
            d = p.next()
            p.eat('[')
            cs = []
            while not p.opt(']'):
                t = p.ty()
                c = p.const(t)
                p.eat(',')
                p.eat('label')
                cs.append((c[1], p.next()))
            return (op, None, t, v, d, cs)
        if op == 'phi':
            p.flags()
            t = p.ty()
            ins = {}
            while p.opt('['):
                v = p.const(t)
                p.eat(',')
                ins[p.next()] = v
                p.eat(']')
                if not p.opt(','):
                    break
            return (op, res, t, ins)
        if op == 'ret':
            if p.peek() == 'void':
                return (op, None, None, None)
            t = p.ty()
            return (op, None, t, p.const(t))
        if op == 'unreachable':
            return (op, None)
        if op in ('extractvalue',):
            t = p.ty()
            v = p.const(t)
            idx = []
            while p.opt(','):
                if p.peek().startswith('!'):
                    break
                idx.append(int(p.next()))
            return (op, res, t, v, idx)
        if op == 'insertvalue':
            t = p.ty()
            v = p.const(t)
            p.eat(',')
            t2 = p.ty()
            e = p.const(t2)
            idx = []
            while p.opt(','):
                if p.peek().startswith('!'):
                    break
                idx.append(int(p.next()))
            return (op, res, t, v, e, idx)
        if op in ('call', 'invoke'):
            p.flags()
            p.attrs()
            p.flags()
            p.attrs()
            t = p.ty()
            if p.peek() == '(':          # a function type
                p.skip_parens()
            p.attrs()
            cal = p.next()
            p.eat('(')
            args = []
            while not p.opt(')'):
                at = p.ty()
                p.attrs()
                if at.k == 'metadata':
                    d = 0
                    while True:
                        x = p.peek()
                        if d == 0 and x in (',', ')'):
                            break
                        if x.endswith('('):
                            d += 1
                        if x == ')':
                            d -= 1
                        p.next()
                    args.append((at, ('c', 0)))
                else:
                    args.append((at, p.const(at)))
                p.opt(',')
            return ('call', res, t, cal, args)
        raise IRError('instruction %r' % l)
