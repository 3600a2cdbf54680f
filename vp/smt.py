"""From conditions over terms to SMT queries over the reals, and their discharge."""
import math
import os
import subprocess
import tempfile
import time
from fractions import Fraction as Fr
import select
import mpmath
from . import term
from .term import T, IT, C, irange
from .poly import Norm, NF, UNIT, ZERO, ONE, pkey, primitive, Unsupported, Blowup


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.cvc5 = 0
        self.slow = 0.0

    def dict(self):
        return dict(self.__dict__)

    def add(self, d):
        for k, v in d.items():
            if k == 'slow':
                self.slow = max(self.slow, v)
            else:
                setattr(self, k, getattr(self, k) + v)


def pinned(conds):
    """Variables that the conjunction equates with a number."""
    out = {}

    def go(c):
        if not isinstance(c, C):
            return
        if c.op == 'and':
            for x in c.a:
                go(x)
        elif c.op == 'eq':
            for x, y in (c.a, c.a[::-1]):
                if isinstance(x, T) and x.op == 'var' and y.op in ('const', 'rat') and x.a[0] not in out:
                    out[x.a[0]] = y
                    return
    for c in conds:
        go(c)
    return out


def substc(c, pin, memo):
    if isinstance(c, (T, IT, C)):
        r = memo.get(c.id)
        if r is None:
            r = memo[c.id] = _subst1(c, pin, memo)
        return r
    return c


def _subst1(c, pin, memo):
    if isinstance(c, T) and c.op == 'var':
        return pin.get(c.a[0], c)
    if isinstance(c, T) and c.op in ('const', 'rat') or isinstance(c, IT):
        return c
    a = tuple(substc(x, pin, memo) for x in c.a)
    if all(x is y for x, y in zip(a, c.a)):
        return c
    if isinstance(c, C):
        return term.mkc(c.op, *a) if c.op not in ('and', 'or', 'not') else \
            term.cnot(a[0]) if c.op == 'not' else term.cand(*a) if c.op == 'and' else term.cor(*a)
    return term.mk(c.op, *a)


MASK = {'<': 1, '=': 2, '>': 4, '<=': 3, '>=': 6, '!=': 5}
MIRROR = {0: 0, 1: 4, 4: 1, 2: 2, 3: 6, 6: 3, 5: 5, 7: 7}


def abstracted(f):
    """A comparison as (key of the compared expression up to a factor, mask of its possible signs)."""
    t = f[2]
    lead = min(t.n, default=None)
    if lead is None:
        return None
    c = t.n[lead]
    return (frozenset((m, k / c) for m, k in t.n.items()), t.d if isinstance(t.d, tuple) else tuple(t.d)), MASK[f[1]] if c > 0 else MIRROR[MASK[f[1]]]


def propagate(flat):
    """Unit propagation over sign facts: None when contradictory, else an equivalent list."""
    units, ors, out = {}, [], []

    def unit(f):
        k = abstracted(f)
        if k is None:
            out.append(f)
            return True
        m = units.get(k[0], (7, None))[0]
        n = m & k[1]
        if n == 0:
            return False
        if n != m:
            units[k[0]] = (n, f)
            out.append(f)
        return True

    def reduce_(f):
        """The form under the units: True, False or a form."""
        if f[0] == 'cmp':
            k = abstracted(f)
            if k is None:
                return f
            m = units.get(k[0], (7,))[0]
            return False if m & k[1] == 0 else True if m & ~k[1] == 0 else f
        if f[0] in ('true', 'false'):
            return f[0] == 'true'
        l = []
        for x in f[1]:
            y = reduce_(x)
            if y is (f[0] == 'or'):
                return y
            if not isinstance(y, bool):
                l.append(y)
        if not l:
            return f[0] == 'and'
        return l[0] if len(l) == 1 else (f[0], l)

    def put(f):
        if f[0] == 'and':
            return all(put(x) for x in f[1])
        if f[0] == 'cmp':
            return unit(f)
        if f[0] == 'or':
            ors.append(f)
            return True
        return f[0] == 'true'
    for f in flat:
        if not put(f):
            return None
    while True:
        again, left = False, []
        for f in ors:
            g = reduce_(f)
            if g is False:
                return None
            if g is True:
                continue
            if g[0] in ('cmp', 'and'):
                again = True
                stack = [g]
                while stack:
                    h = stack.pop()
                    if h[0] == 'and':
                        stack += h[1]
                    elif h[0] == 'cmp':
                        if not unit(h):
                            return None
                    elif h[0] == 'or':
                        left.append(h)
                    elif h[0] == 'false':
                        return None
            else:
                left.append(g)
        ors = left
        if not again:
            return out + ors


class Ctx:
    """One symbolic setting: the inputs with their sign facts, and standing assumptions."""

    def __init__(self, lib=None, signs=None, assume=(), timeout=20.0):
        self.N = Norm(lib, signs)
        self.N.sign = self.sign
        self.assume = list(assume)
        self.stats = Stats()
        self.timeout = timeout
        self.cache = {}
        self.signcache = {}
        self._insign = False
        self.extra_axioms = []      # callables (emit) -> list of z3 constraints

    # ---------------- conditions to normal forms
    def cond(self, c, pos=True):
        """A nested list form: ('and', ..) ('or', ..) or ('cmp', rel, NF) meaning NF rel 0."""
        if isinstance(c, int):
            return ('true',) if bool(c) == pos else ('false',)
        if c.op == 'not':
            return self.cond(c.a[0], not pos)
        if c.op in ('and', 'or'):
            k = c.op if pos else {'and': 'or', 'or': 'and'}[c.op]
            return (k, [self.cond(x, pos) for x in c.a])
        if c.op == 'raw':
            return ('cmp', c.a[0] if pos else {'<': '>=', '<=': '>', '=': '!=', '!=': '='}[c.a[0]], c.a[1])
        N = self.N
        a, b = c.a[0], c.a[1]
        if c.op in ('ilt', 'ile', 'ieq'):
            na, nb = N.inf_(a), N.inf_(b)
        else:
            na, nb = N.nf(a), N.nf(b)
        d = N.add(na, nb, -1)
        op = c.op[1:] if c.op[0] == 'i' else c.op
        rel = {'lt': '<', 'le': '<=', 'eq': '='}[op]
        if not pos:
            rel = {'<': '>=', '<=': '>', '=': '!='}[rel]
        k = d.constant()
        if k is not None:
            v = {'<': k < 0, '<=': k <= 0, '=': k == 0, '>=': k >= 0, '>': k > 0, '!=': k != 0}[rel]
            return ('true',) if v else ('false',)
        return self.invert(rel, d)

    def invert(self, rel, d):
        """c1*exp(y) + c0 rel 0 also says y rel ln(-c0/c1); likewise for ln."""
        f = ('cmp', rel, d)
        if d.d or not 2 <= len(d.n) <= 4:
            return f
        g = self.lnsum(rel, d)
        if g is not None:
            return ('and', [f, g])
        if len(d.n) != 2 or ONE not in d.n:
            return f
        c0 = d.n[ONE]
        (m, c1), = [x for x in d.n.items() if x[0] != ONE]
        if len(m) != 1:
            return f
        a, e = m[0]
        A = self.N.atoms[a]
        k = -c0 / c1
        if c1 < 0:
            rel = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(rel, rel)
        N = self.N
        if A.kind == 'exp' and not A.const:
            if k <= 0:
                return ('true',) if rel in ('>', '>=', '!=') else ('false',)
            return ('and', [f, ('cmp', rel, N.add(N.mul(N.num(e), A.arg), N.ln(N.num(k)), -1))])
        if A.kind == 'ln' and e == 1 and not A.const and abs(k) < 700:
            return ('and', [f, ('cmp', rel, N.add(A.arg, N.exp(N.num(k)), -1))])
        return f

    def lnsum(self, rel, d):
        """sum of e_i ln(t_i) (times something positive) rel 0 says prod t_i^e_i rel 1."""
        N = self.N
        c, m, q = primitive(d.n)
        if not all(N.atoms[a].pos and N.signs.get(N.atoms[a].arg if N.atoms[a].kind == 'var' else None) != 'nonneg' for a, _ in m):
            return None
        up, dn, any_ = UNIT, UNIT, False
        for mono, k in q.items():
            if mono == ONE:
                if abs(k) > 50:
                    return None
                e = N.exp(N.num(abs(k)))
                if k > 0:
                    up = N.mul(up, e)
                else:
                    dn = N.mul(dn, e)
                continue
            if len(mono) != 1 or mono[0][1] != 1 or k.denominator != 1 or abs(k) > 6:
                return None
            A = N.atoms[mono[0][0]]
            if A.kind != 'ln':
                return None
            any_ = any_ or not A.const
            t = N.ipow(A.arg, abs(int(k)))
            if k > 0:
                up = N.mul(up, t)
            else:
                dn = N.mul(dn, t)
        if not any_:
            return None
        if c < 0:
            rel = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(rel, rel)
        return ('cmp', rel, N.add(up, dn, -1))

    # ---------------- queries
    def check(self, conds, timeout=None, model=False, ints=False, hints=()):
        """('sat'|'unsat'|'unknown', model)."""
        cs = list(self.assume) + list(conds)
        pin = pinned(cs)
        if pin:
            memo = {}
            cs = [substc(c, pin, memo) for c in cs] + [c for c in cs if isinstance(c, C) and c.op == 'eq']
        fs, partial = [], False
        for c in cs:
            try:
                fs.append(self.cond(c))
            except (Unsupported, Blowup, ZeroDivisionError) as e:
                partial = True      # without this conjunct only "unsat" means anything
        r = self.check_forms(fs, timeout, model, ints, hints)
        if partial and r[0] == 'sat':
            return ('unknown', None) if not model else r
        return r

    def check_forms(self, fs, timeout=None, model=False, ints=False, hints=()):
        flat = []
        for f in fs:
            self._flat(f, flat)
        if any(f[0] == 'false' for f in flat):
            return 'unsat', None
        flat = [f for f in flat if f[0] != 'true']
        flat = propagate(flat)
        if flat is None:
            self.stats.queries += 1
            self.stats.unsat += 1
            return 'unsat', None
        key = None
        if not model:
            key = (frozenset(self._fkey(f) for f in flat), ints)
            if key in self.cache:
                return self.cache[key], None
        r = self._run(flat, timeout or self.timeout, model, ints, hints)
        if key is not None and r[0] != 'unknown':
            self.cache[key] = r[0]
        return r

    def _flat(self, f, out):
        if f[0] == 'and':
            for x in f[1]:
                self._flat(x, out)
        else:
            out.append(f)

    def _fkey(self, f):
        if f[0] in ('and', 'or'):
            return (f[0], tuple(self._fkey(x) for x in f[1]))
        if f[0] == 'cmp':
            return (f[1], f[2].key())
        return f

    def sign(self, p):
        """+1/-1 when the polynomial has that strict sign (or is 0: +1) under the standing assumptions."""
        k = pkey(p)
        if k in self.signcache:
            return self.signcache[k]
        if self._insign:
            return None
        self._insign = True
        try:
            t = NF(p)
            r = None
            base = [self.cond(c) for c in self.assume]
            if self.check_forms(base + [('cmp', '<', t)], 2.0)[0] == 'unsat':
                r = 1
            elif self.check_forms(base + [('cmp', '>', t)], 2.0)[0] == 'unsat':
                r = -1
        finally:
            self._insign = False
        self.signcache[k] = r
        return r

    def _run(self, flat, timeout, model, ints, hints):
        t0 = time.time()
        em = Emit(self, ints)
        try:
            cs = em.build(flat)
        except (Unsupported, Blowup) as e:
            self.stats.unknown += 1
            return 'unknown', None
        cs += [h(em) for h in hints]
        res, m = solve(cs, timeout, em, self.stats, model)
        dt = time.time() - t0
        self.stats.time += dt
        self.stats.slow = max(self.stats.slow, dt)
        self.stats.queries += 1
        setattr(self.stats, res, getattr(self.stats, res) + 1)
        return res, m


class Emit:
    """Builds z3 constraints for a conjunction of forms."""

    def __init__(self, ctx, ints=False):
        self.ctx, self.N, self.ints = ctx, ctx.N, ints
        self.root = {}      # atom id -> L
        self.vars = {}
        self.side = []
        self.done = set()
        self.axs = []
        self.intdecl = set()

    # collect atoms (transitively through arguments)
    def collect_nf(self, t, seen):
        for p in [t.n] + [dict(k) for k, _ in t.d]:
            self.collect_p(p, seen)

    def collect_p(self, p, seen):
        for m in p:
            for a, e in m:
                if isinstance(e, Fr):
                    self.root[a] = math.lcm(self.root.get(a, 1), e.denominator)
                if a not in seen:
                    seen.add(a)
                    A = self.N.atoms[a]
                    if A.kind == 'var' or A.kind == 'int':
                        continue
                    if isinstance(A.arg, NF):
                        self.collect_nf(A.arg, seen)
                    elif isinstance(A.arg, dict):
                        self.collect_p(A.arg, seen)
                    elif isinstance(A.arg, tuple):
                        for x in A.arg:
                            if isinstance(x, NF):
                                self.collect_nf(x, seen)

    def collect_f(self, f, seen):
        if f[0] in ('and', 'or'):
            for x in f[1]:
                self.collect_f(x, seen)
        elif f[0] == 'cmp':
            self.collect_nf(f[2], seen)

    def v(self, a):
        r = self.vars.get(a)
        if r is None:
            A = self.N.atoms[a]
            r = 'a%d' % a
            self.vars[a] = r
            if A.pos:
                strict = not (A.kind == 'var' and self.N.signs.get(A.arg) == 'nonneg') and A.kind != 'int'
                self.side.append('(%s %s 0.0)' % ('>' if strict else '>=', r))
        return r

    def poly(self, p):
        ts = []
        for m, c in sorted(p.items()):
            fs = []
            for a, e in m:
                k = int(e * self.root.get(a, 1))
                assert k > 0
                fs += [self.v(a)] * k
            q = qs(c)
            if not fs:
                ts.append(q)
            elif c == 1:
                ts.append(fs[0] if len(fs) == 1 else '(* %s)' % ' '.join(fs))
            else:
                ts.append('(* %s %s)' % (q, ' '.join(fs)))
        if not ts:
            return '0.0'
        return ts[0] if len(ts) == 1 else '(+ %s)' % ' '.join(ts)

    def clear(self, p, even=True):
        """Multiply a Laurent polynomial by a positive monomial to clear negative exponents."""
        low = {}
        for m in p:
            for a, e in m:
                if e < low.get(a, 0):
                    low[a] = e
        if not low:
            return p
        mul = []
        for a, e in sorted(low.items()):
            k = -e
            if not self.N.atoms[a].pos and even:
                k = math.ceil(k)
                k += k % 2
                self.side.append('(not (= %s 0.0))' % self.v(a))
            elif self.N.signs.get(self.N.atoms[a].arg if self.N.atoms[a].kind == 'var' else None) == 'nonneg':
                self.side.append('(not (= %s 0.0))' % self.v(a))
            mul.append((a, k))
        mul = tuple(mul)
        from .poly import pmono
        return pmono(p, mul)

    def cmp(self, rel, t):
        """t rel 0."""
        n = self.poly(self.clear(t.n))
        flip = None
        for k, e in t.d:
            d = dict(k)
            if self.N.surely_pos(d) and not any(self.N.signs.get(self.N.atoms[a].arg) == 'nonneg' for m in d for a, _ in m if self.N.atoms[a].kind == 'var'):
                continue
            z = self.poly(self.clear(d))
            if ('nz', k) not in self.done:
                self.done.add(('nz', k))
                self.side.append('(not (= %s 0.0))' % z)
            if e % 2 and rel not in ('=', '!='):
                s = self.ctx.signcache.get(k)
                if s == 1:
                    continue
                if s == -1:
                    n = '(- %s)' % n
                    continue
                n = '(* %s %s)' % (n, z)
        if rel == '!=':
            return '(not (= %s 0.0))' % n
        return '(%s %s 0.0)' % (rel, n)

    def form(self, f):
        if f[0] in ('and', 'or'):
            l = [self.form(x) for x in f[1]]
            return '(%s %s)' % (f[0], ' '.join(l)) if l else ('true' if f[0] == 'and' else 'false')
        if f[0] in ('true', 'false'):
            return f[0]
        return self.cmp(f[1], f[2])

    def build(self, flat):
        seen = set()
        for f in flat:
            self.collect_f(f, seen)
        ax = self.axioms(seen)
        # axioms may mention further atoms (never new transcendental ones)
        for f in ax:
            self.collect_f(f, seen)
        cs = [self.form(f) for f in flat]
        cs += [self.form(f) for f in ax]
        cs += self.intfacts(seen)
        for x in self.ctx.extra_axioms:
            cs += x(self, seen)
        return cs + self.side

    def intfacts(self, seen):
        out = []
        segs = {}
        floors = []
        for a in sorted(seen):
            A = self.N.atoms[a]
            if A.kind != 'int':
                continue
            it = A.arg
            v = self.v(a)
            lo, hi = it.lo, it.hi
            if it.op == 'ivar' and hi >= 2 ** 53:
                hi += 1         # conversion to a double rounds up to the power of two
            out += ['(>= %s %s)' % (v, qs(lo)), '(<= %s %s)' % (v, qs(hi))]
            if it.op == 'slice':
                segs.setdefault(it.a[0], []).append((it, a))
            elif it.op == 'ivar':
                segs.setdefault(it, []).append((it, a))
            elif it.op == 'ffloor':
                out.append('(or (= %s 0.0) (>= %s 1.0))' % (v, v))
                floors.append(a)
            if self.ints and hi - lo < 2 ** 40:
                self.intdecl.add('i_%d' % a)
                out.append('(= %s (to_real i_%d))' % (v, a))
        whole = [a for a in sorted(seen) if self.N.atoms[a].kind == 'int' and self.N.atoms[a].arg.op == 'ivar'][:2]
        for i, a in enumerate(floors[:4]):
            for b in floors[:i] + whole:
                x, y = self.v(a), self.v(b)
                out.append('(or (= %s %s) (>= %s (+ %s 1.0)) (>= %s (+ %s 1.0)))' % (x, y, x, y, y, x))
        for iv, lst in segs.items():
            spans = [((it.a[1], it.a[1] + it.a[2]) if it.op == 'slice' else (0, it.w), a) for it, a in lst]
            linked = {i for i in range(len(spans)) for j in range(len(spans)) if i != j and spans[i][0][0] < spans[j][0][1] and spans[j][0][0] < spans[i][0][1]}
            if not linked:
                continue
            spans = [spans[i] for i in sorted(linked)]
            cuts = sorted({c for (lo, hi), _ in spans for c in (lo, hi)})
            sv = {}
            for lo, hi in zip(cuts, cuts[1:]):
                s = 's_%d_%d_%d' % (iv.id, lo, hi)
                self.intdecl.add(s)
                sv[lo] = s
                out += ['(>= %s 0)' % s, '(<= %s %d)' % (s, 2 ** (hi - lo) - 1)]
            for (lo, hi), a in spans:
                out.append('(= %s (to_real (+ 0 %s)))' % (self.v(a), ' '.join('(* %d %s)' % (2 ** (c - lo), sv[c]) for c in cuts if lo <= c < hi)))
        return out

    # ---------------- axioms, as forms over normal forms
    def axioms(self, seen):
        N = self.N
        out = []
        atoms = [N.atoms[a] for a in sorted(seen)]
        kinds = {}
        c = lambda rel, t: ('cmp', rel, t)
        imp = lambda p, q: ('or', [neg(p), q])
        imp2 = lambda p, r, q: ('or', [neg(p), neg(r), q])

        def neg(f):
            return ('cmp', {'<': '>=', '<=': '>', '=': '!=', '!=': '=', '>': '<=', '>=': '<'}[f[1]], f[2])
        iff = lambda p, q: ('and', [imp(p, q), imp(q, p)])
        av = N.av
        for A in atoms:
            kinds.setdefault(A.kind, []).append(A)
            if A.const and A.kind not in ('prime',) or A.kind == 'pi':
                v = N.atomval(A, {})
                lo = Fr(int(mpmath.floor(v * mpmath.mpf(10) ** 25)), 10 ** 25)
                out.append(c('>', N.add(av(A), N.num(lo), -1)))
                out.append(c('<', N.add(av(A), N.num(lo + Fr(1, 10 ** 25)), -1)))
                continue
            if A.kind == 'prime':
                L = self.root.get(A.id, 1)
                # the root variable satisfies r^L = p
                r = self.v(A.id)
                self.side.append('(= (* 1.0 %s) %s)' % (' '.join([r] * L), qs(A.arg)))
                v = mpmath.mpf(A.arg) ** (mpmath.mpf(1) / L)
                lo = Fr(int(mpmath.floor(v * mpmath.mpf(10) ** 20)), 10 ** 20)
                self.side.append('(>= %s %s)' % (r, qs(lo)))
                self.side.append('(<= %s %s)' % (r, qs(lo + Fr(1, 10 ** 20))))
                continue
            if A.kind == 'sqrt':
                P = NF(A.arg)
                out.append(c('=', N.add(NF({((A.id, 2),): Fr(1)}), P, -1)))
                out.append(c('>=', av(A)))
            elif A.kind == 'exp':
                t = A.arg
                out.append(iff(c('>', t), c('>', N.add(av(A), UNIT, -1))))
                out.append(iff(c('<', t), c('<', N.add(av(A), UNIT, -1))))
                if self._small(t):
                    out.append(c('>=', N.add(av(A), N.add(t, UNIT), -1)))
                    out.append(('or', [c('>=', N.add(t, UNIT, -1)), c('<=', N.add(N.mul(av(A), N.add(UNIT, t, -1)), UNIT, -1))]))
            elif A.kind == 'ln':
                t = A.arg
                out.append(c('>', t))
                out.append(iff(c('>', av(A)), c('>', N.add(t, UNIT, -1))))
                out.append(iff(c('<', av(A)), c('<', N.add(t, UNIT, -1))))
                if self._small(t):
                    out.append(c('<=', N.add(av(A), N.add(t, UNIT, -1), -1)))
                    # ln t >= 1 - 1/t
                    out.append(c('>=', N.add(N.mul(N.add(av(A), UNIT, -1), t), UNIT)))
            elif A.kind in ('erf', 'atan', 'tan'):
                t = A.arg
                if A.kind == 'erf':
                    out += [c('<', N.add(av(A), UNIT, -1)), c('>', N.add(av(A), UNIT))]
                if A.kind == 'atan':
                    h = N.mul(N.num(Fr(1, 2)), N.av(N.pi()))
                    out += [c('<', N.add(av(A), h, -1)), c('>', N.add(av(A), h))]
                if A.kind != 'tan':
                    out += [iff(c('>', t), c('>', av(A))), iff(c('<', t), c('<', av(A)))]
            elif A.kind == 'inc_beta':
                x = A.arg[0]
                out += [c('>=', av(A)), c('<=', N.add(av(A), UNIT, -1)),
                        imp(c('>', x), c('>', av(A))), imp(c('<', N.add(x, UNIT, -1)), c('<', N.add(av(A), UNIT, -1))),
                        imp(c('<=', x), c('=', av(A))), imp(c('>=', N.add(x, UNIT, -1)), c('=', N.add(av(A), UNIT, -1)))]
                # I_x(p, q) >= x^(p+q-1) where q >= 1, and its mirror image
                if any(B.kind == 'exp' and not B.const for B in atoms):
                    for y, q, v in ((x, A.arg[2], av(A)), (N.add(UNIT, x, -1), A.arg[1], N.add(UNIT, av(A), -1))):
                        try:
                            w = N.exp(N.mul(N.add(N.add(A.arg[1], A.arg[2]), UNIT, -1), N.ln(y)))
                        except (Unsupported, Blowup, ZeroDivisionError):
                            continue
                        if all(a in seen for m in w.n for a, _ in m) and not w.d:
                            out.append(imp(c('>=', N.add(q, UNIT, -1)), c('>=', N.add(v, w, -1))))
            elif A.kind == 'inv_inc_beta':
                x = A.arg[0]
                out += [c('>=', av(A)), c('<=', N.add(av(A), UNIT, -1)),
                        imp(c('>', x), c('>', av(A))), imp(c('<', N.add(x, UNIT, -1)), c('<', N.add(av(A), UNIT, -1))),
                        imp(c('<=', x), c('=', av(A))), imp(c('>=', N.add(x, UNIT, -1)), c('=', N.add(av(A), UNIT, -1)))]
            elif A.kind == 'inc_gamma':
                x = A.arg[0]
                out += [c('>=', av(A)), c('<', N.add(av(A), UNIT, -1)), iff(c('>', x), c('>', av(A)))]
            elif A.kind == 'int' and A.arg.op == 'ffloor':
                x = N.nf(A.arg.a[0])
                out += [('or', [('and', [c('<=', N.add(av(A), x, -1)), c('>', N.add(N.add(av(A), UNIT), x, -1))]),
                                ('and', [c('<', x), c('=', av(A))])])]
        # pi may have been brought in by an axiom
        if 'atan' in kinds and 'pi' not in kinds:
            A = N.pi()
            lo = Fr(31415926535897932384, 10 ** 19)
            out += [c('>', N.add(av(A), N.num(lo), -1)), c('<', N.add(av(A), N.num(lo + Fr(1, 10 ** 19)), -1))]
        # monotonicity, pairwise
        half = N.mul(N.num(Fr(1, 2)), N.av(N.pi())) if 'tan' in kinds else None
        if half is not None and 'pi' not in kinds and 'atan' not in kinds:
            lo = Fr(31415926535897932384, 10 ** 19)
            A = N.pi()
            out += [c('>', N.add(av(A), N.num(lo), -1)), c('<', N.add(av(A), N.num(lo + Fr(1, 10 ** 19)), -1))]
        for kind in ('exp', 'ln', 'erf', 'atan', 'inc_beta', 'inv_inc_beta', 'inc_gamma', 'tan'):
            l = [A for A in kinds.get(kind, []) if not (A.const and len(kinds[kind]) > 8)]
            if len(l) > 8:
                l = l[:8]
            for i in range(len(l)):
                for j in range(i):
                    A, B = l[i], l[j]
                    if A.const and B.const:
                        continue
                    if kind in ('inc_beta', 'inv_inc_beta', 'inc_gamma'):
                        if N._akey(A.arg[1:]) != N._akey(B.arg[1:]):
                            if kind == 'inc_beta' and N._akey(A.arg[0]) == N._akey(B.arg[0]):
                                dp, dq = (N.add(A.arg[k], B.arg[k], -1) for k in (1, 2))
                                d = N.add(av(A), av(B), -1)
                                out.append(imp2(c('<=', dp), c('>=', dq), c('>=', d)))
                                out.append(imp2(c('>=', dp), c('<=', dq), c('<=', d)))
                            continue
                        x, y = A.arg[0], B.arg[0]
                        out.append(imp(c('<', N.add(x, y, -1)), c('<=', N.add(av(A), av(B), -1))))
                        out.append(imp(c('>', N.add(x, y, -1)), c('>=', N.add(av(A), av(B), -1))))
                        continue
                    x, y = A.arg, B.arg
                    d = N.add(x, y, -1)
                    if kind == 'tan':
                        guard = [g for z in (x, y) for g in (c('>=', N.add(z, half, -1)), c('<=', N.add(z, half)))]
                        out.append(('or', guard + [('and', [iff(c('<', d), c('<', N.add(av(A), av(B), -1))), iff(c('>', d), c('>', N.add(av(A), av(B), -1)))])]))
                        continue
                    out.append(iff(c('<', d), c('<', N.add(av(A), av(B), -1))))
                    out.append(iff(c('>', d), c('>', N.add(av(A), av(B), -1))))
        return out

    def _small(self, t):
        return len(t.n) <= 6 and len(t.d) <= 1


def qs(c):
    c = Fr(c)
    n = '%d.0' % abs(c.numerator)
    r = n if c.denominator == 1 else '(/ %s %d.0)' % (n, c.denominator)
    return '(- %s)' % r if c < 0 else r


class Z3:
    """One z3 process driven over a pipe; killed and restarted when it ignores its time limit."""

    def __init__(self):
        self.p = None

    def start(self):
        self.p = subprocess.Popen(['z3-new', '-in', '-smt2'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0)
        self.buf = b''
        self.ask('(set-option :pp.decimal true)(set-option :pp.decimal_precision 40)', 5)

    def stop(self):
        if self.p is not None:
            try:
                self.p.kill()
                self.p.wait()
                self.p.stdin.close()
                self.p.stdout.close()
            except Exception:
                pass
            self.p = None

    def ask(self, text, limit):
        """The answer lines, or None when the process had to be killed."""
        if self.p is None or self.p.poll() is not None:
            self.stop()
            self.start()
        try:
            data = (text + '\n(echo "VPDONE")\n').encode()
            fd = self.p.stdin.fileno()
            os.set_blocking(fd, False)
            end = time.time() + limit
            o = self.buf
            self.buf = b''
            out = self.p.stdout.fileno()
            while True:
                left = end - time.time()
                if left <= 0:
                    self.stop()
                    return None
                r, w, _ = select.select([out], [fd] if data else [], [], left)
                if w:
                    n = os.write(fd, data[:65536])
                    data = data[n:]
                if r:
                    x = os.read(out, 1 << 20)
                    if not x:
                        self.stop()
                        return None
                    o += x
                    i = o.find(b'VPDONE')
                    if i >= 0:
                        return o[:i].decode().strip().strip('"').split('\n')
        except (BrokenPipeError, OSError):
            self.stop()
            return None


_z3 = {}


def z3proc():
    p = os.getpid()
    z = _z3.get(p)
    if z is None:
        _z3.clear()
        z = _z3[p] = Z3()
    return z


TACTICS = {'nlsat': '(then simplify propagate-values solve-eqs purify-arith simplify qfnra-nlsat)',
           'smt': 'smt', 'qfnra': 'qfnra'}


def solve(cs, timeout, em, stats, want_model):
    decl = ''.join('(declare-const %s Real)' % v for v in em.vars.values()) + ''.join('(declare-const %s Int)' % v for v in sorted(em.intdecl))
    body = decl + ''.join('(assert %s)\n' % c for c in cs)
    z = z3proc()
    gv = ''
    if want_model and em.vars:
        gv = '(get-value (%s))' % ' '.join(v for a, v in em.vars.items() if em.N.atoms[a].kind in ('var', 'int'))
        if gv == '(get-value ())':
            gv = ''
    plan = [('nlsat', min(timeout, 2.0)), ('smt', min(timeout, 1.5))] if not em.intdecl else [('smt', min(timeout, 4.0))]
    if timeout > 2.0:
        plan += [('nlsat', timeout * 0.5), ('qfnra', timeout * 0.25)] if not em.intdecl else []
        plan += [('cvc5', timeout * 0.25)]
    for tac, t in plan:
        if tac == 'cvc5':
            r = cvc5_check(body, t)
            if r:
                stats.cvc5 += 1
                if r == 'unsat' or not want_model:
                    return r, ({} if want_model and r == 'sat' else None)
            continue
        o = z.ask('(push)' + body + '(check-sat-using (try-for %s %d))%s(pop)' % (TACTICS[tac], int(t * 1000), ''), t + 2.0)
        if o is None:
            continue
        r = o[0] if o and o[0] in ('sat', 'unsat', 'unknown') else None
        if r is None:
            if any('error' in x for x in o) and not any('canceled' in x or 'timeout' in x or 'max. ' in x for x in o):
                raise RuntimeError('solver: %s\n%s' % (o[:3], body[:2000]))
            continue
        if r == 'unsat':
            return 'unsat', None
        if r == 'sat':
            if not gv:
                return 'sat', ({} if want_model else None)
            o = z.ask('(push)' + body + '(check-sat-using (try-for %s %d))%s(pop)' % (TACTICS[tac], int(t * 2000), gv), 2 * t + 2.0)
            if o is None or o[0] != 'sat':
                return 'sat', {}
            return 'sat', parse_model(' '.join(o[1:]), em)
    return 'unknown', None


def parse_model(txt, em):
    toks = txt.replace('(', ' ( ').replace(')', ' ) ').split()
    pos = [0]

    def sx():
        t = toks[pos[0]]
        pos[0] += 1
        if t != '(':
            return t
        l = []
        while toks[pos[0]] != ')':
            l.append(sx())
        pos[0] += 1
        return l

    def num(x):
        if isinstance(x, list):
            if x[0] == '-':
                return -num(x[1])
            if x[0] == '/':
                return num(x[1]) / num(x[2])
            return Fr(0)
        try:
            return Fr(x.rstrip('?'))
        except ValueError:
            return Fr(0)
    out = {}
    byname = {v: a for a, v in em.vars.items()}
    try:
        for n, v in sx():
            a = byname[n]
            A = em.N.atoms[a]
            out[A.arg] = num(v) ** em.root.get(a, 1)
    except (IndexError, ZeroDivisionError, ValueError):
        pass
    return out


def cvc5_check(body, timeout):
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    try:
        f.write('(set-logic ALL)\n' + body + '(check-sat)\n')
        f.close()
        p = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), f.name], capture_output=True, text=True, timeout=timeout + 3)
        o = p.stdout.split()
        return o[0] if o and o[0] in ('sat', 'unsat') else None
    except (subprocess.TimeoutExpired, FileNotFoundError):
        return None
    finally:
        os.unlink(f.name)
