"""Hash-consed terms for the doubles, integers and conditions met while executing IR."""
import math
import struct
from fractions import Fraction

_tab = {}


def d2b(x):
    return struct.unpack('<Q', struct.pack('<d', x))[0]


def b2d(b):
    return struct.unpack('<d', struct.pack('<Q', b))[0]


class T:
    """A double-valued term."""
    __slots__ = ('op', 'a', 'id', 'cv', 'nf', '__weakref__')

    def __repr__(self):
        return show(self)

    # arithmetic sugar for the specifications written in Python
    def __add__(s, o): return mk('add', s, lift(o))
    def __radd__(s, o): return mk('add', lift(o), s)
    def __sub__(s, o): return mk('sub', s, lift(o))
    def __rsub__(s, o): return mk('sub', lift(o), s)
    def __mul__(s, o): return mk('mul', s, lift(o))
    def __rmul__(s, o): return mk('mul', lift(o), s)
    def __truediv__(s, o): return mk('div', s, lift(o))
    def __rtruediv__(s, o): return mk('div', lift(o), s)
    def __neg__(s): return mk('neg', s)
    def __pow__(s, k):
        if isinstance(k, int) and k >= 0:
            r = None
            for _ in range(k):
                r = s if r is None else mk('mul', r, s)
            return r if r is not None else lift(1)
        return mk('pow', s, lift(k))


class IT:
    """A symbolic integer of a fixed width, with a known range."""
    __slots__ = ('op', 'a', 'w', 'lo', 'hi', 'id')

    def __repr__(self):
        return '%s(%s):i%d' % (self.op, ','.join(map(str, self.a)), self.w)


class C:
    """A symbolic condition."""
    __slots__ = ('op', 'a', 'id')

    def __repr__(self):
        return '(%s %s)' % (self.op, ' '.join(map(str, self.a)))


def _ident(x):
    if isinstance(x, (T, IT, C)):
        return (type(x).__name__, x.id)
    return (type(x).__name__, x)


def _cons(cls, op, a, extra=()):
    k = (cls, op, tuple(map(_ident, a))) + tuple(extra)
    r = _tab.get(k)
    if r is None:
        r = cls()
        r.op, r.a, r.id = op, tuple(a), len(_tab)
        _tab[k] = r
        if cls is T:
            r.cv = None
            r.nf = None
            return r, True
        return r, True
    return r, False


def const(x):
    """A literal double, held as bits."""
    b = d2b(float(x)) if not isinstance(x, tuple) else x[1]
    r, new = _cons(T, 'const', (b,))
    if new:
        r.cv = b2d(b)
    return r


def constb(bits):
    return const(('b', bits))


def rat(fr):
    """An exact rational, used by specifications only."""
    fr = Fraction(fr)
    if fr.denominator == 1 and abs(fr.numerator) < 2 ** 53:
        return const(float(fr.numerator))
    r, new = _cons(T, 'rat', (fr,))
    if new:
        r.cv = None
    return r


def lift(x):
    if isinstance(x, T):
        return x
    if isinstance(x, (int, Fraction)):
        return rat(x)
    if isinstance(x, float):
        return const(x)
    raise TypeError(x)


def var(name):
    r, new = _cons(T, 'var', (name,))
    return r


def mk(op, *a):
    r, new = _cons(T, op, a)
    return r


def fn(name, *a):
    return mk(name, *[lift(x) for x in a])


def isconst(t):
    return t.op == 'const'


def cval(t, lib):
    """The IEEE value of a closed term, or None."""
    if t.cv is not None:
        return t.cv
    if t.op == 'var' or t.op == 'i2f' or t.op == 'rat':
        return None
    vs = []
    for x in t.a:
        v = cval(x, lib)
        if v is None:
            return None
        vs.append(v)
    t.cv = feval(t.op, vs, lib)
    return t.cv


def fdiv(a, b):
    if b == 0:
        if a == 0 or a != a or b != b:
            return math.nan
        s = math.copysign(1, a) * math.copysign(1, b)
        return math.inf * s
    try:
        return a / b
    except OverflowError:
        return math.copysign(math.inf, a) * math.copysign(1, b)


def feval(op, v, lib):
    if op == 'add':
        return v[0] + v[1]
    if op == 'sub':
        return v[0] - v[1]
    if op == 'mul':
        return v[0] * v[1]
    if op == 'div':
        return fdiv(v[0], v[1])
    if op == 'neg':
        return b2d(d2b(v[0]) ^ (1 << 63))
    if op == 'abs':
        return abs(v[0])
    return lib.call(op, v)


# ---- integers

def ivar(name, w, lo=0, hi=None):
    r, new = _cons(IT, 'ivar', (name,), (w,))
    if new:
        r.w, r.lo, r.hi = w, lo, (1 << w) - 1 if hi is None else hi
    return r


def mki(op, a, w, lo, hi):
    r, new = _cons(IT, op, a, (w,))
    if new:
        r.w, r.lo, r.hi = w, lo, hi
    return r


def irange(x):
    return (x.lo, x.hi) if isinstance(x, IT) else (x, x)


# ---- conditions

TRUE, FALSE = 1, 0


def mkc(op, *a):
    r, _ = _cons(C, op, a)
    return r


def cnot(c):
    if isinstance(c, int):
        return 1 - c
    if c.op == 'not':
        return c.a[0]
    return mkc('not', c)


def cand(a, b):
    if isinstance(a, int):
        return b if a else 0
    if isinstance(b, int):
        return a if b else 0
    if a is b:
        return a
    return mkc('and', a, b)


def cor(a, b):
    if isinstance(a, int):
        return 1 if a else b
    if isinstance(b, int):
        return 1 if b else a
    if a is b:
        return a
    return mkc('or', a, b)


def cxor(a, b):
    if isinstance(a, int):
        return cnot(b) if a else b
    if isinstance(b, int):
        return cnot(a) if b else a
    return cor(cand(a, cnot(b)), cand(cnot(a), b))


def lt(a, b): return mkc('lt', lift(a), lift(b))
def le(a, b): return mkc('le', lift(a), lift(b))
def gt(a, b): return mkc('lt', lift(b), lift(a))
def ge(a, b): return mkc('le', lift(b), lift(a))
def eq(a, b): return mkc('eq', lift(a), lift(b))
def ne(a, b): return cnot(eq(a, b))


def show(t, d=0):
    if isinstance(t, T):
        if t.op == 'const':
            return repr(t.cv)
        if t.op == 'rat':
            return str(t.a[0])
        if t.op == 'var':
            return t.a[0]
        if d > 40:
            return '…'
        o = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/'}.get(t.op)
        if o:
            return '(%s%s%s)' % (show(t.a[0], d + 1), o, show(t.a[1], d + 1))
        return '%s(%s)' % (t.op, ','.join(show(x, d + 1) if isinstance(x, T) else str(x) for x in t.a))
    return repr(t)
