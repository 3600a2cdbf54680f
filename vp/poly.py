"""Normal forms over the reals.

A term becomes  N / prod(D_i^e_i)  where N is a Laurent polynomial with rational
coefficients in *atoms* and the D_i are primitive polynomials.  An atom is an input,
a constant such as pi, or an application of a transcendental function to a normal
form.  The identities used (exp(a+b)=exp(a)exp(b), ln(ab)=ln a+ln b for positive
factors, sqrt, lgamma(x+1)=lgamma(x)+ln x, ...) are applied while the normal form is
built, so what is left for the solver is polynomial arithmetic over atoms plus axioms.
"""
import math
from fractions import Fraction as Fr
from functools import lru_cache
import mpmath
from .term import T, cval

ONE = ()
mpmath.mp.dps = 40


class Unsupported(Exception):
    pass


class Blowup(Exception):
    pass


# ------------------------------------------------------------------ polynomials
# dict: monomial -> Fraction;  monomial: tuple of (atom id, exponent), sorted.

MAXTERMS = 6000


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    out = []
    i = j = 0
    n1, n2 = len(m1), len(m2)
    while i < n1 and j < n2:
        a, b = m1[i], m2[j]
        if a[0] == b[0]:
            e = a[1] + b[1]
            if e != 0:
                out.append((a[0], e))
            i += 1
            j += 1
        elif a[0] < b[0]:
            out.append(a)
            i += 1
        else:
            out.append(b)
            j += 1
    if i < n1:
        out.extend(m1[i:])
    if j < n2:
        out.extend(m2[j:])
    return tuple(out)


def mpow(m, e):
    return tuple((a, _n(x * e)) for a, x in m)


def _n(e):
    if isinstance(e, Fr) and e.denominator == 1:
        return int(e)
    return e


def padd(p, q, c=1):
    r = dict(p)
    for m, v in q.items():
        x = r.get(m, 0) + c * v
        if x == 0:
            r.pop(m, None)
        else:
            r[m] = x
    return r


def pmul(p, q):
    if len(p) * len(q) > MAXTERMS * 40:
        raise Blowup('%d x %d terms' % (len(p), len(q)))
    r = {}
    for m1, v1 in p.items():
        for m2, v2 in q.items():
            m = mmul(m1, m2)
            x = r.get(m, 0) + v1 * v2
            if x == 0:
                del r[m]
            else:
                r[m] = x
    if len(r) > MAXTERMS:
        raise Blowup('%d terms' % len(r))
    return r


def pscale(p, c):
    return {m: v * c for m, v in p.items()} if c != 0 else {}


def pmono(p, m):
    return {mmul(k, m): v for k, v in p.items()}


def ppow(p, k):
    r = {ONE: Fr(1)}
    for _ in range(k):
        r = pmul(r, p)
    return r


def pkey(p):
    return tuple(sorted(p.items()))


def _mcmp_key(m, order):
    d = dict(m)
    return tuple(d.get(a, 0) for a in order)


_MP = (1 << 61) - 1


def may_divide(p, d):
    """Rule out divisibility by reducing to one variable modulo a prime."""
    exps = {}
    for m in d:
        for a, e in m:
            exps.setdefault(a, []).append(e)
    main = max(exps, key=lambda a: (max(exps[a]) - min(0, min(exps[a])), -a))
    L, lowp = 1, 0
    sc = {}
    for q in (p, d):
        for m in q:
            for a, e in m:
                if isinstance(e, Fr):
                    sc[a] = math.lcm(sc.get(a, 1), e.denominator)

    def uni(q):
        out = {}
        for m, c in q.items():
            v = c.numerator % _MP * pow(c.denominator, -1, _MP) % _MP if isinstance(c, Fr) else c % _MP
            k = 0
            for a, e in m:
                e = int(e * sc.get(a, 1))
                if a == main:
                    k = e
                else:
                    v = v * pow(a * 7919 + 104729 + a * a * 31, e, _MP) % _MP
            out[k] = (out.get(k, 0) + v) % _MP
        lo = min(out)
        r = [0] * (max(out) - lo + 1)
        for k, v in out.items():
            r[k - lo] = v
        while r and r[-1] == 0:
            r.pop()
        i = 0
        while i < len(r) and r[i] == 0:
            i += 1
        return r[i:]
    try:
        A, B = uni(p), uni(d)
    except ValueError:
        return True
    if not A or len(B) < 1:
        return True
    if len(B) > len(A):
        return False
    inv = pow(B[-1], -1, _MP)
    A = A[:]
    n = len(B)
    for i in range(len(A) - n, -1, -1):
        c = A[i + n - 1] * inv % _MP
        if c:
            for j in range(n):
                A[i + j] = (A[i + j] - c * B[j]) % _MP
    return not any(A)


def pdivexact(p, d):
    """p / d when exact, else None.  Exponents may be negative or fractional."""
    if not p:
        return {}
    if len(d) == 1:
        (m, c), = d.items()
        return pscale(pmono(p, mpow(m, -1)), Fr(1) / c)
    if not may_divide(p, d):
        return None
    order = sorted({a for m in list(p) + list(d) for a, _ in m})
    dk = max(d, key=lambda m: _mcmp_key(m, order))
    dc = d[dk]
    inv = mpow(dk, -1)
    # lower bound on exponents for termination: the minimum exponents of p and d
    lowp = {a: min(dict(m).get(a, 0) for m in p) for a in order}
    lowd = {a: min(dict(m).get(a, 0) for m in d) for a in order}
    r = dict(p)
    q = {}
    steps = 0
    while r:
        steps += 1
        if steps > 4000:
            return None
        rk = max(r, key=lambda m: _mcmp_key(m, order))
        m = mmul(rk, inv)
        md = dict(m)
        for a in order:
            if md.get(a, 0) < lowp[a] - lowd[a]:
                return None
        c = r[rk] / dc
        q[m] = q.get(m, 0) + c
        for k, v in d.items():
            mm = mmul(k, m)
            x = r.get(mm, 0) - c * v
            if x == 0:
                r.pop(mm, None)
            else:
                r[mm] = x
        if len(q) > MAXTERMS:
            return None
    return q


def fgcd(a, b):
    return Fr(math.gcd(a.numerator * b.denominator, b.numerator * a.denominator), a.denominator * b.denominator)


def primitive(p):
    """(c, m, q): p = c * m * q with q primitive, smallest exponents 0, leading coefficient positive."""
    c = Fr(0)
    for v in p.values():
        c = fgcd(c, v) if c else abs(v)
    atoms = {a for m in p for a, _ in m}
    low = []
    for a in sorted(atoms):
        e = min(dict(m).get(a, 0) for m in p)
        if e != 0:
            low.append((a, e))
    low = tuple(low)
    q = pmono(p, mpow(low, -1)) if low else dict(p)
    lead = max(q)
    if q[lead] < 0:
        c = -c
    return c, low, {m: v / c for m, v in q.items()}


# ------------------------------------------------------------------ constants

_bases = None


def bases():
    global _bases
    if _bases is None:
        pi, e, sq = mpmath.pi, mpmath.e, mpmath.sqrt
        B = []
        for ne in (0, 1):
            for npi in (Fr(0), Fr(1), Fr(-1), Fr(1, 2), Fr(-1, 2), Fr(2), Fr(-2)):
                for n2 in (Fr(0), Fr(1, 2)):
                    if ne == 0 and npi == 0 and n2 == 0:
                        continue
                    v = mpmath.mpf(1) * e ** ne * pi ** (mpmath.mpf(npi.numerator) / npi.denominator) * 2 ** (mpmath.mpf(n2.numerator) / n2.denominator)
                    B.append((v, ('prod', ne, npi, n2, Fr(0))))
        B.append((sq(3), ('prod', 0, Fr(0), Fr(0), Fr(1, 2))))
        B.append((mpmath.log(2), ('ln', Fr(2), 1)))
        B.append((1 / mpmath.log(2), ('ln', Fr(2), -1)))
        B.append((mpmath.log(10), ('ln', Fr(10), 1)))
        B.append((mpmath.log(pi), ('lnpi', 1, 0)))
        B.append((mpmath.log(2 * pi), ('lnpi', 1, 1)))
        B.append((1 - mpmath.log(2), ('1mln2',)))
        _bases = B
    return _bases


def smallfrac(v, qmax, rel):
    """p/q with small q within rel of the mpf v, or None."""
    f = Fr(float(v)).limit_denominator(qmax)
    if f == 0:
        return None
    if abs(mpmath.mpf(f.numerator) / f.denominator - v) <= rel * abs(v):
        return f
    return None


@lru_cache(None)
def snap(x):
    """What real number a double literal stands for: ('q', rational) or (rational, base)."""
    if x == 0:
        return ('q', Fr(0))
    f = Fr(x)
    if f.denominator <= 4096 or abs(f.numerator) == 1:
        return ('q', f)
    s = repr(abs(x))
    m = s.split('e')[0].replace('.', '').strip('0')
    if len(m) <= 14:
        return ('q', Fr(repr(x)))
    v = mpmath.mpf(x)
    sf = smallfrac(v, 600, mpmath.mpf(2) ** -52)
    if sf is not None and abs(sf.numerator) <= 4000:
        return ('q', sf)
    for b, d in bases():
        sf = smallfrac(v / b, 48, mpmath.mpf(2) ** -51)
        if sf is not None and abs(sf.numerator) <= 256:
            return (sf, d)
    if len(m) <= 16:
        return ('q', Fr(repr(x)))
    return ('q', f)


# ------------------------------------------------------------------ normal forms

class NF:
    __slots__ = ('n', 'd')

    def __init__(self, n, d=()):
        self.n, self.d = n, d       # d: tuple of (poly key, positive int exponent)

    def key(self):
        return (pkey(self.n), self.d)

    def iszero(self):
        return not self.n

    def constant(self):
        if self.d:
            return None
        if not self.n:
            return Fr(0)
        if len(self.n) == 1 and ONE in self.n:
            return self.n[ONE]
        return None


ZERO = NF({})
UNIT = NF({ONE: Fr(1)})


class Atom:
    __slots__ = ('id', 'kind', 'arg', 'pos', 'key', 'const')


class Norm:
    """Normaliser; owns the atoms.  `signs` maps input names to 'pos' or 'nonneg'."""

    def __init__(self, lib=None, signs=None):
        self.ivars = {}
        self.floors = {}
        self.lib = lib
        self.signs = dict(signs or {})
        self.atoms = []
        self.tab = {}
        self.cache = {}
        self.exact = False      # literals are exact doubles instead of snapped constants
        self.subst = {}

    # -- atoms
    def atom(self, kind, arg, pos=False, const=False):
        k = (kind, self._akey(arg))
        a = self.tab.get(k)
        if a is None:
            a = Atom()
            a.id, a.kind, a.arg, a.pos, a.key, a.const = len(self.atoms), kind, arg, pos, k, const
            self.atoms.append(a)
            self.tab[k] = a
        return a

    def _akey(self, arg):
        if isinstance(arg, NF):
            return arg.key()
        if isinstance(arg, tuple):
            return tuple(self._akey(x) for x in arg)
        if isinstance(arg, dict):
            return pkey(arg)
        return arg

    def av(self, a, e=1):
        return NF({((a.id, e),): Fr(1)})

    def num(self, c):
        c = Fr(c)
        return NF({ONE: c}) if c else ZERO

    def pi(self):
        return self.atom('pi', 0, pos=True, const=True)

    def prime(self, p):
        return self.atom('prime', p, pos=True, const=True)

    # -- sqrt atoms are kept to exponents 0/1, prime atoms to exponents in [0,1)
    def fix(self, p):
        bad = False
        for m in p:
            for a, e in m:
                k = self.atoms[a].kind
                if (k == 'sqrt' and e != 1) or (k == 'prime' and not (0 < e < 1)):
                    bad = True
                    break
            if bad:
                break
        if not bad:
            return NF(p)
        out = ZERO
        for m, c in p.items():
            keep, extra = [], []
            for a, e in m:
                at = self.atoms[a]
                if at.kind == 'prime':
                    k = math.floor(e)
                    c = c * (Fr(at.arg) ** k)
                    if e - k:
                        keep.append((a, _n(e - k)))
                elif at.kind == 'sqrt' and e != 1:
                    if Fr(e).denominator != 1:
                        keep.append((a, e))
                        continue
                    k = math.floor(Fr(e) / 2)
                    if e - 2 * k:
                        keep.append((a, 1))
                    extra.append((at.arg, k))
                else:
                    keep.append((a, e))
            t = NF({tuple(keep): c})
            for q, k in extra:
                if k > 0:
                    t = self.mul(t, NF(ppow(q, k)))
                elif k < 0:
                    t = self.mul(t, self.inv(NF(ppow(q, -k))))
            out = self.add(out, t)
        return out

    # -- field operations
    def _lift(self, n, have, want):
        """numerator over denominator `have` rewritten over `want`."""
        for k, e in want.items():
            x = e - have.get(k, 0)
            for _ in range(x):
                n = pmul(n, dict(k))
        return n

    def add(self, a, b, sgn=1):
        if not b.n:
            return a
        if not a.n:
            return b if sgn == 1 else NF(pscale(b.n, -1), b.d)
        if a.d == b.d:
            n, d = padd(a.n, b.n, sgn), dict(a.d)
        else:
            d1, d2 = dict(a.d), dict(b.d)
            d = dict(d1)
            for k, e in d2.items():
                d[k] = max(d.get(k, 0), e)
            n = padd(self._lift(a.n, d1, d), self._lift(b.n, d2, d), sgn)
        return self._reduce(n, d)

    def _reduce(self, n, d):
        if not n:
            return ZERO
        if not d:
            return NF(n)
        nd = {}
        for k, e in d.items():
            dd = dict(k)
            while e > 0:
                q = pdivexact(n, dd)
                if q is None:
                    break
                n = q
                e -= 1
            if e:
                nd[k] = e
        return NF(n, tuple(sorted(nd.items())))

    def mul(self, a, b):
        if not a.n or not b.n:
            return ZERO
        n = pmul(a.n, b.n)
        d = dict(a.d)
        for k, e in b.d:
            d[k] = d.get(k, 0) + e
        f = self.fix(n)
        if f.d:
            for k, e in f.d:
                d[k] = d.get(k, 0) + e
        r = self._reduce(f.n, d)
        return r

    def inv(self, a):
        if not a.n:
            raise ZeroDivisionError
        c, m, q = primitive(a.n)
        n = {mpow(m, -1): Fr(1) / c}
        r = self.fix(n)
        for k, e in a.d:
            r = self.mul(r, NF(ppow(dict(k), e)))
        if len(q) == 1 and ONE in q:
            return r
        # rationalise a lone square root: 1/(S*u) was handled by fix; leave sums alone
        d = dict(r.d)
        k = pkey(q)
        d[k] = d.get(k, 0) + 1
        return self._reduce(r.n, d)

    def div(self, a, b):
        return self.mul(a, self.inv(b))

    def neg(self, a):
        return NF(pscale(a.n, Fr(-1)), a.d)

    def ipow(self, a, k):
        if k < 0:
            return self.ipow(self.inv(a), -k)
        r = UNIT
        b = a
        while k:
            if k & 1:
                r = self.mul(r, b)
            k >>= 1
            if k:
                b = self.mul(b, b)
        return r

    # -- positivity of monomials
    def mono_pos(self, m):
        return all(self.atoms[a].pos or (Fr(e).denominator == 1 and int(e) % 2 == 0) for a, e in m)

    def surely_pos(self, p):
        """Every term is a positive coefficient times nonnegative atoms (and one strictly)."""
        return bool(p) and all(c > 0 and all(self.atoms[a].pos or (Fr(e).denominator == 1 and int(e) % 2 == 0) for a, e in m) for m, c in p.items())

    # -- roots
    def sqrt(self, a):
        if not a.n:
            return ZERO
        c, m, q = primitive(a.n)
        r = UNIT
        # split monomial: positive atoms get half exponents
        keep, half = [], []
        for at, e in m:
            if self.atoms[at].pos or self.atoms[at].kind == 'sqrt':
                half.append((at, _n(Fr(e) / 2)))
            else:
                keep.append((at, e))
        # even powers of other atoms cannot be split without knowing the sign
        inner = pmono(q, tuple(keep)) if keep else q
        if c < 0:
            c, inner = -c, pscale(inner, Fr(-1))
        r = self.mul(r, self.csqrt(c))
        if half:
            r = self.mul(r, self.fix({tuple(half): Fr(1)}))
        if not (len(inner) == 1 and inner.get(ONE) == 1):
            r = self.mul(r, self.polysqrt(inner))
        for k, e in a.d:
            dq = dict(k)
            if e % 2 == 0:
                if not self.surely_pos(dq):
                    s = self.sign(dq)
                    if s is None:
                        r = self.mul(r, self.div(self.polysqrt(ppow(dq, 2)), NF(ppow(dq, 2))) if e == 2 else self._raise('sqrt of an even power'))
                        continue
                    if s < 0:
                        r = self.neg(r)
                r = self.div(r, NF(ppow(dq, e // 2)))
            else:
                s = 1 if self.surely_pos(dq) else self.sign(dq)
                if s is None or s < 0:
                    raise Unsupported('sqrt with a denominator of unknown sign')
                r = self.mul(r, self.polysqrt(dq))
                r = self.div(r, NF(ppow(dq, (e + 1) // 2)))
        return r

    def _raise(self, m):
        raise Unsupported(m)

    def sign(self, p):
        return None

    def csqrt(self, c):
        """sqrt of a positive rational."""
        n = c.numerator * c.denominator
        r = Fr(1, c.denominator)
        out = UNIT
        for p, e in factorint(n).items():
            r *= Fr(p) ** (e // 2)
            if e % 2:
                out = self.mul(out, self.av(self.prime(p), Fr(1, 2)))
        return self.mul(out, self.num(r))

    def polysqrt(self, p):
        s = poly_perfect_sqrt(p)
        if s is not None:
            if self.surely_pos(s):
                return NF(s)
            neg = pscale(s, Fr(-1))
            if self.surely_pos(neg):
                return NF(neg)
            sg = self.sign(s)
            if sg is not None:
                return NF(s if sg > 0 else neg)
        a = self.atom('sqrt', p, pos=False)
        return self.av(a)

    # -- exp / ln
    def exp(self, a):
        if a.d:
            # proper content only
            c, m, q = primitive(a.n)
            body = NF({k: v for k, v in pmono(q, m).items()}, a.d)
            if not nice(c):
                return self.av(self.atom('exp', a, pos=True))
            at = self.atom('exp', body, pos=True)
            return self.av(at, _n(c))
        out = UNIT
        for m, c in a.n.items():
            if not nice(c) and not (len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == 'ln'):
                s = 1 if c > 0 else -1
                at = self.atom('exp', NF({m: c * s}), pos=True, const=m == ONE)
                out = self.mul(out, self.av(at, s))
                continue
            if m == ONE:
                at = self.atom('exp', UNIT, pos=True, const=True)
                out = self.mul(out, self.av(at, _n(c)))
                continue
            # a single ln factor with exponent one and nothing else: a power
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == 'ln':
                t = self.atoms[m[0][0]].arg
                out = self.mul(out, self.rpow(t, c))
                continue
            at = self.atom('exp', NF({m: Fr(1)}), pos=True)
            out = self.mul(out, self.av(at, _n(c)))
        return out

    def rpow(self, t, c):
        """t^c for a positive normal form t and rational c."""
        c = Fr(c)
        if c.denominator == 1 and abs(c) < 3000:
            return self.ipow(t, int(c))
        if not nice(c):
            return self.av(self.atom('exp', self.mul(self.num(c), self.lnatom(t)), pos=True))
        if not t.d and len(t.n) == 1:
            (m, k), = t.n.items()
            if k > 0 and all(self.atoms[a].pos for a, _ in m):
                r = self.fix({mpow(m, c): Fr(1)})
                if k != 1:
                    r = self.mul(r, self.cpow(k, c))
                return r
        if c.denominator == 2:
            k = math.floor(c)
            return self.mul(self.ipow(t, k), self.sqrt(t))
        # keep as exp(c*ln t)
        k = math.floor(c)
        l = self.lnatom(t)
        at = self.atom('exp', l, pos=True)
        return self.mul(self.ipow(t, k), self.av(at, _n(c - k)))

    def cpow(self, k, c):
        out = UNIT
        for p, e in factorint(k.numerator).items():
            out = self.mul(out, self.fix({((self.prime(p).id, _n(e * c)),): Fr(1)}))
        for p, e in factorint(k.denominator).items():
            out = self.mul(out, self.fix({((self.prime(p).id, _n(-e * c)),): Fr(1)}))
        return out

    def lnatom(self, t):
        const = self.isconst(t)
        return self.av(self.atom('ln', t, const=const))

    def isconst(self, t):
        for p in [t.n] + [dict(k) for k, _ in t.d]:
            for m in p:
                for a, _ in m:
                    if not self.atoms[a].const:
                        return False
        return True

    def lnrat(self, c):
        out = ZERO
        for p, e in factorint(c.numerator).items():
            out = self.add(out, self.mul(self.num(e), self.lnatom(self.num(p))))
        for p, e in factorint(c.denominator).items():
            out = self.add(out, self.mul(self.num(-e), self.lnatom(self.num(p))))
        return out

    def ln(self, a):
        if not a.n:
            raise Unsupported('ln(0)')
        out = ZERO
        c, m, q = primitive(a.n)
        keep = []
        for at, e in m:
            A = self.atoms[at]
            if A.kind == 'exp':
                out = self.add(out, self.mul(self.num(e), A.arg))
            elif A.kind == 'prime':
                out = self.add(out, self.mul(self.num(e), self.lnatom(self.num(A.arg))))
            elif A.kind == 'sqrt':
                out = self.add(out, self.mul(self.num(Fr(e) / 2), self.ln(NF(A.arg))))
            elif A.pos:
                out = self.add(out, self.mul(self.num(e), self.lnatom(self.av(A))))
            else:
                keep.append((at, e))
        inner = pmono(q, tuple(keep)) if keep else q
        if c < 0:
            c, inner = -c, pscale(inner, Fr(-1))
        rest = UNIT
        for k, e in a.d:
            dq = dict(k)
            s = 1 if self.surely_pos(dq) else self.sign(dq)
            if s is None:
                rest = self.mul(rest, self.inv(NF(ppow(dq, e))))
                continue
            if s < 0:
                dq = pscale(dq, Fr(-1))
                if e % 2:
                    inner = pscale(inner, Fr(-1))
            out = self.add(out, self.mul(self.num(-e), self.lnatom(NF(dq))))
        if c != 1:
            out = self.add(out, self.lnrat(c))
        body = self.mul(NF(inner), rest)
        if body.constant() != 1:
            fs = self.factor(body) if not body.d else None
            if fs:
                for f, e in fs:
                    out = self.add(out, self.mul(self.num(e), self.lnatom(f)))
            else:
                out = self.add(out, self.lnatom(body))
        return out

    def factor(self, t):
        """Positive factors of a polynomial, when it is a product of polynomials of known sign."""
        s = poly_perfect_sqrt(t.n)
        if s is not None:
            if self.surely_pos(s):
                return [(NF(s), 2)]
            if self.surely_pos(pscale(s, Fr(-1))):
                return [(NF(pscale(s, Fr(-1))), 2)]
            sg = self.sign(s)
            if sg:
                return [(NF(s if sg > 0 else pscale(s, Fr(-1))), 2)]
        return None

    # -- uninterpreted and half-interpreted functions
    def oddfn(self, name, a):
        if not a.n:
            return ZERO
        lead = max(a.n)
        if a.n[lead] < 0:
            return self.neg(self.av(self.atom(name, self.neg(a), const=self.isconst(a))))
        return self.av(self.atom(name, a, const=self.isconst(a)))

    def shift_int(self, a):
        """a = base + k with the constant part of base in (0, 1]."""
        if a.d:
            return a, 0
        c = a.n.get(ONE, Fr(0))
        if len(a.n) <= (1 if ONE in a.n else 0):
            k = math.ceil(c) - 1
        else:
            k = math.floor(c)
        if not k:
            return a, 0
        return self.add(a, self.num(-k)), k

    def lgamma(self, a):
        b, k = self.shift_int(a)
        if abs(k) > 400:
            return self.av(self.atom('lgamma', a, const=self.isconst(a)))
        out = ZERO
        x = b
        for _ in range(k if k > 0 else 0):
            out = self.add(out, self.ln(x))
            x = self.add(x, UNIT)
        for _ in range(-k if k < 0 else 0):
            x = self.add(x, UNIT, -1)
            out = self.add(out, self.ln(x), -1)
        if b.constant() == 1:
            return out
        if b.constant() == Fr(1, 2):
            return self.add(out, self.mul(self.num(Fr(1, 2)), self.lnatom(self.av(self.pi()))))
        return self.add(out, self.av(self.atom('lgamma', b, const=self.isconst(b))))

    def digamma(self, a):
        b, k = self.shift_int(a)
        if abs(k) > 400:
            return self.av(self.atom('digamma', a, const=self.isconst(a)))
        out = ZERO
        x = b
        for _ in range(k if k > 0 else 0):
            out = self.add(out, self.inv(x))
            x = self.add(x, UNIT)
        for _ in range(-k if k < 0 else 0):
            x = self.add(x, UNIT, -1)
            out = self.add(out, self.inv(x), -1)
        return self.add(out, self.av(self.atom('digamma', b, const=self.isconst(b))))

    def ln_beta(self, a, b):
        return self.add(self.add(self.lgamma(a), self.lgamma(b)), self.lgamma(self.add(a, b)), -1)

    def inc_beta(self, x, p, q, l):
        if self.add(l, self.ln_beta(p, q), -1).iszero():
            # I_x(p, q) = 1 - I_{1-x}(q, p)
            x2 = self.add(UNIT, x, -1)
            k1 = self._akey((x, p, q))
            k2 = self._akey((x2, q, p))
            # the inverse composed with the function
            for (xx, pp, qq, flip) in ((x, p, q, False), (x2, q, p, True)):
                inv = self._as_atom(xx, 'inv_inc_beta')
                if inv is not None and self._akey(inv.arg[1:]) == self._akey((pp, qq)):
                    return self.add(UNIT, inv.arg[0], -1) if flip else inv.arg[0]
            if x.constant() == 0:
                return ZERO
            if x.constant() == 1:
                return UNIT
            cp, cq = p.constant(), q.constant()
            if cp is not None and cq is not None and cp.denominator == cq.denominator == 1 and 0 < cp and 0 < cq and cp + cq <= 24:
                # sum over the upper tail of a binomial distribution
                n, out = int(cp + cq) - 1, ZERO
                for j in range(int(cp), n + 1):
                    out = self.add(out, self.mul(self.num(math.comb(n, j)), self.mul(self.ipow(x, j), self.ipow(x2, n - j))))
                return out
            if k1 <= k2:
                return self.av(self.atom('inc_beta', (x, p, q), pos=False))
            return self.add(UNIT, self.av(self.atom('inc_beta', (x2, q, p), pos=False)), -1)
        return self.av(self.atom('inc_beta_raw', (x, p, q, l)))

    def inv_inc_beta(self, u, p, q, l):
        if self.add(l, self.ln_beta(p, q), -1).iszero():
            if u.constant() == 0:
                return ZERO
            if u.constant() == 1:
                return UNIT
            for (uu, pp, qq, flip) in ((u, p, q, False), (self.add(UNIT, u, -1), q, p, True)):
                inv = self._as_atom(uu, 'inc_beta')
                if inv is not None and self._akey(inv.arg[1:]) == self._akey((pp, qq)):
                    return self.add(UNIT, inv.arg[0], -1) if flip else inv.arg[0]
            u2 = self.add(UNIT, u, -1)
            if self._akey((u, p, q)) <= self._akey((u2, q, p)):
                return self.av(self.atom('inv_inc_beta', (u, p, q)))
            return self.add(UNIT, self.av(self.atom('inv_inc_beta', (u2, q, p))), -1)
        return self.av(self.atom('inv_inc_beta_raw', (u, p, q, l)))

    def _as_atom(self, t, kind):
        if t.d or len(t.n) != 1:
            return None
        (m, c), = t.n.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == kind:
            return self.atoms[m[0][0]]
        return None

    def inc_gamma(self, x, k):
        c = k.constant()
        if c is not None and c.denominator == 1 and 1 <= c <= 60:
            # P(n, x) = 1 - exp(-x) sum x^i/i!
            s, t = ZERO, UNIT
            for i in range(int(c)):
                s = self.add(s, t)
                t = self.mul(t, self.mul(x, self.num(Fr(1, i + 1))))
            return self.add(UNIT, self.mul(self.exp(self.neg(x)), s), -1)
        return self.av(self.atom('inc_gamma', (x, k)))

    def atan(self, a):
        at = self._as_atom(a, 'tan')
        if at is not None:
            return at.arg
        na = self._as_atom(self.neg(a), 'tan')
        if na is not None:
            return self.neg(na.arg)
        return self.oddfn('atan', a)

    def tan(self, a):
        at = self._as_atom(a, 'atan')
        if at is not None:
            return at.arg
        na = self._as_atom(self.neg(a), 'atan')
        if na is not None:
            return self.neg(na.arg)
        return self.oddfn('tan', a)

    # -- terms
    def nf(self, t):
        r = self.cache.get(t.id)
        if r is None:
            # iterative, so that long sums do not exhaust the stack
            stack = [t]
            while stack:
                x = stack[-1]
                if x.id in self.cache:
                    stack.pop()
                    continue
                todo = [y for y in x.a if isinstance(y, T) and y.id not in self.cache]
                if todo:
                    stack.extend(todo)
                    continue
                self.cache[x.id] = self._nf(x)
                stack.pop()
            r = self.cache[t.id]
        return r

    def lit(self, v):
        if math.isinf(v) or math.isnan(v):
            raise Unsupported('non-finite literal')
        if self.exact:
            return self.num(Fr(v))
        s = snap(v)
        if s[0] == 'q':
            return self.num(s[1])
        c, d = s
        if d[0] == 'prod':
            r = self.num(c)
            if d[1]:
                r = self.mul(r, self.exp(self.num(d[1])))
            if d[2]:
                r = self.mul(r, self.fix({((self.pi().id, _n(d[2])),): Fr(1)}))
            if d[3]:
                r = self.mul(r, self.csqrt(Fr(2)))
            if d[4]:
                r = self.mul(r, self.csqrt(Fr(3)))
            return r
        if d[0] == 'ln':
            l = self.lnrat(d[1])
            return self.mul(self.num(c), l if d[2] == 1 else self.inv(l))
        if d[0] == 'lnpi':
            l = self.lnatom(self.av(self.pi()))
            if d[2]:
                l = self.add(l, self.lnrat(Fr(2)))
            return self.mul(self.num(c), l)
        if d[0] == '1mln2':
            return self.mul(self.num(c), self.add(UNIT, self.lnrat(Fr(2)), -1))
        raise Unsupported(d)

    def inputatom(self, name):
        s = self.signs.get(name)
        return self.atom('var', name, pos=s in ('pos', 'nonneg'))

    def _nf(self, t):
        op = t.op
        if t.id in self.subst:
            return self.subst[t.id]
        if op == 'const':
            return self.lit(t.cv)
        if op == 'rat':
            return self.num(t.a[0])
        if op == 'var':
            return self.av(self.inputatom(t.a[0]))
        if op == 'i2f':
            return self.inf_(t.a[0])
        c = [self.cache[x.id] for x in t.a if isinstance(x, T)]
        if op == 'add':
            return self.add(c[0], c[1])
        if op == 'sub':
            return self.add(c[0], c[1], -1)
        if op == 'mul':
            return self.mul(c[0], c[1])
        if op == 'div':
            return self.div(c[0], c[1])
        if op == 'neg':
            return self.neg(c[0])
        if op == 'pi':
            return self.av(self.pi())
        if op == 'sqrt':
            return self.sqrt(c[0])
        if op == 'exp':
            return self.exp(c[0])
        if op == 'expm1':
            return self.add(self.exp(c[0]), UNIT, -1)
        if op == 'log':
            return self.ln(c[0])
        if op == 'log1p':
            return self.ln(self.add(UNIT, c[0]))
        if op == 'pow':
            k = c[1].constant()
            if k is not None:
                if k.denominator == 1 and abs(k) < 3000:
                    return self.ipow(c[0], int(k))
                if k.denominator == 2 and abs(k) < 300:
                    return self.mul(self.ipow(c[0], math.floor(k)), self.sqrt(c[0]))
            return self.exp(self.mul(c[1], self.ln(c[0])))
        if op == 'erf':
            return self.oddfn('erf', c[0])
        if op == 'erfc':
            return self.add(UNIT, self.oddfn('erf', c[0]), -1)
        if op == 'atan':
            return self.atan(c[0])
        if op == 'tan':
            return self.tan(c[0])
        if op == 'tanh':
            e = self.exp(self.mul(self.num(2), c[0]))
            return self.div(self.add(e, UNIT, -1), self.add(e, UNIT))
        if op == 'cosh':
            return self.mul(self.num(Fr(1, 2)), self.add(self.exp(c[0]), self.exp(self.neg(c[0]))))
        if op == 'sinh':
            return self.mul(self.num(Fr(1, 2)), self.add(self.exp(c[0]), self.exp(self.neg(c[0])), -1))
        if op == 'tgamma':
            return self.exp(self.lgamma(c[0]))
        if op == 'lgamma':
            return self.lgamma(c[0])
        if op == 'digamma':
            return self.digamma(c[0])
        if op == 'ln_beta':
            return self.ln_beta(c[0], c[1])
        if op == 'inc_beta':
            return self.inc_beta(*c)
        if op == 'inv_inc_beta':
            return self.inv_inc_beta(*c)
        if op == 'inc_gamma':
            return self.inc_gamma(*c)
        return self.av(self.atom('fn:' + op, tuple(c)))

    def inf_(self, it):
        """The real value of an integer term."""
        if isinstance(it, int):
            return self.num(it)
        if it.op == 'ivar':
            return self.av(self.inputatom(it.a[0]) if it.a[0] in self.signs else self.atom('int', self.ivars.setdefault(it.a[0], it), pos=it.lo >= 0))
        if it.op == 'iadd':
            return self.add(self.inf_(it.a[0]), self.inf_(it.a[1]))
        if it.op == 'isub':
            return self.add(self.inf_(it.a[0]), self.inf_(it.a[1]), -1)
        if it.op == 'imul':
            return self.mul(self.inf_(it.a[0]), self.inf_(it.a[1]))
        if it.op == 'ffloor':
            # equal numbers have equal integer parts, however they are written
            try:
                it = self.floors.setdefault((self._akey(self.nf(it.a[0])), it.w, it.hi), it)
            except (Unsupported, Blowup):
                pass
        return self.av(self.atom('int', it, pos=it.lo >= 0))

    # -- numeric evaluation of normal forms (for axioms about constants and for triage)
    def atomval(self, a, env):
        k = a.kind
        if k == 'var':
            return env[a.arg]
        if k == 'int':
            return env[a.arg]
        if k == 'pi':
            return +mpmath.pi
        if k == 'prime':
            return mpmath.mpf(a.arg)
        ev = lambda x: self.value(x, env)
        if k == 'exp':
            return mpmath.exp(ev(a.arg))
        if k == 'ln':
            return mpmath.log(ev(a.arg))
        if k == 'sqrt':
            return mpmath.sqrt(ev(NF(a.arg)))
        if k in ('erf', 'atan', 'tan'):
            return getattr(mpmath, k)(ev(a.arg))
        if k == 'lgamma':
            return mpmath.loggamma(ev(a.arg))
        if k == 'digamma':
            return mpmath.digamma(ev(a.arg))
        if k == 'inc_beta':
            x, p, q = map(ev, a.arg)
            return mpmath.betainc(p, q, 0, x, regularized=True)
        if k == 'inc_gamma':
            x, p = map(ev, a.arg)
            return mpmath.gammainc(p, 0, x, regularized=True)
        raise Unsupported('value of ' + k)

    def pvalue(self, p, env):
        s = mpmath.mpf(0)
        for m, c in p.items():
            v = mpmath.mpf(c.numerator) / c.denominator
            for a, e in m:
                x = self.atomval(self.atoms[a], env)
                v *= x ** (e if isinstance(e, int) else mpmath.mpf(e.numerator) / e.denominator)
            s += v
        return s

    def value(self, t, env):
        v = self.pvalue(t.n, env)
        for k, e in t.d:
            v /= self.pvalue(dict(k), env) ** e
        return v


def nice(c):
    return c.denominator <= 24 and abs(c.numerator) <= 4000


@lru_cache(None)
def factorint(n):
    n = abs(n)
    out = {}
    if n in (0, 1):
        return out
    p = 2
    while p * p <= n and p < 3000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1 if p == 2 else 2
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def poly_perfect_sqrt(p):
    """q with q^2 = p, or None."""
    if not p:
        return {}
    order = sorted({a for m in p for a, _ in m})
    key = lambda m: _mcmp_key(m, order)

    def rootq(c):
        if c <= 0:
            return None
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        return Fr(n, d) if n * n == c.numerator and d * d == c.denominator else None
    lk = max(p, key=key)
    c = rootq(p[lk])
    if c is None:
        return None
    hm = []
    for a, e in lk:
        e2 = Fr(e) / 2
        if Fr(e).denominator == 1 and e2.denominator != 1:
            return None
        hm.append((a, _n(e2)))
    hm = tuple(hm)
    q = {hm: c}
    r = padd(p, pmul(q, q), -1)
    low = {a: min(dict(m).get(a, 0) for m in p) for a in order}
    steps = 0
    while r:
        steps += 1
        if steps > 60:
            return None
        rk = max(r, key=key)
        m = mmul(rk, mpow(hm, -1))
        md = dict(m)
        if any(2 * md.get(a, 0) < low[a] for a in order):
            return None
        if key(m) >= key(hm):
            return None
        k = r[rk] / (2 * c)
        # r -= 2*k*m*q + k^2 m^2
        r = padd(r, pmul({m: 2 * k}, q), -1)
        r = padd(r, {mpow(m, 2): k * k}, -1)
        q[m] = q.get(m, 0) + k
    return q
