"""Reference evaluation of specification terms in high precision, with a rounding-error scale.

ev(t, env) -> (value, err): err is the first-order error of evaluating the same
expression in floating point, in units of one rounding per operation.  A replayed
result is accepted within UNIT * err, thousands of roundings' worth of slack.
"""
import math
from fractions import Fraction as Fr
import mpmath
from mpmath import mpf
from .term import T, IT, C
from . import term as tm

mp = mpmath.mp
UNIT = mpf('1e-12')
INF, NAN = mpmath.inf, mpmath.nan


class Undef(Exception):
    pass


def q2m(f):
    f = Fr(f)
    return mpf(f.numerator) / f.denominator


def phi_inv(p):
    """Quantile of the standard normal distribution."""
    if p <= 0:
        return -INF
    if p >= 1:
        return INF
    if p > mpf(1) / 2:
        return -phi_inv(1 - p)
    x = mpf(0)
    if p < mpf('1e-4'):
        x = -mpmath.sqrt(-2 * mpmath.log(p))
    for _ in range(200):
        f = mpmath.erfc(-x / mpmath.sqrt(2)) / 2 - p
        d = f / (mpmath.exp(-x * x / 2) / mpmath.sqrt(2 * mp.pi))
        d = max(min(d, mpf(1)), mpf(-1))
        # Halley keeps the tail stable
        d = d / (1 + x * d / 2) if abs(x * d) < 1 else d
        x -= d
        if abs(d) < mpf(10) ** (-mp.dps + 8) * (1 + abs(x)):
            break
    return x


def inc_beta_inv(u, p, q):
    if u <= 0:
        return mpf(0)
    if u >= 1:
        return mpf(1)
    lo, hi = mpf(0), mpf(1)
    # bisection on a logarithmic scale near 0
    f = lambda x: mpmath.betainc(p, q, 0, x, regularized=True)
    if f(mpf('0.5')) > u:
        hi = mpf('0.5')
        a, b = mpf('-800'), mpmath.log(mpf('0.5'))
        for _ in range(90):
            m = (a + b) / 2
            if f(mpmath.exp(m)) > u:
                b = m
            else:
                a = m
        return mpmath.exp((a + b) / 2)
    g = lambda y: mpmath.betainc(q, p, 0, y, regularized=True)
    a, b = mpf('-800'), mpmath.log(mpf('0.5'))
    for _ in range(90):
        m = (a + b) / 2
        if g(mpmath.exp(m)) > 1 - u:
            b = m
        else:
            a = m
    return 1 - mpmath.exp((a + b) / 2)


def ev(t, env):
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is None:
            r = memo[x.id] = one(x)
        return r

    def one(x):
        op = x.op
        if op == 'const':
            v = mpf(x.cv)
            return v, mpf(0)
        if op == 'rat':
            v = q2m(x.a[0])
            return v, abs(v)
        if op == 'var':
            v = env[x.a[0]]
            return (q2m(v) if isinstance(v, (Fr, int)) else mpf(v)), mpf(0)
        if op == 'i2f':
            return mpf(iev(x.a[0], env)), mpf(0)
        if op == 'pi':
            return +mp.pi, mp.pi
        c = [go(y) for y in x.a]
        a, ea = c[0]
        if len(c) > 1:
            b, eb = c[1]
        if op == 'add':
            v = a + b
            return v, ea + eb + abs(v)
        if op == 'sub':
            v = a - b
            return v, ea + eb + abs(v)
        if op == 'mul':
            v = a * b
            return v, abs(a) * eb + abs(b) * ea + abs(v)
        if op == 'div':
            if b == 0:
                if a == 0:
                    raise Undef()
                return INF if a > 0 else -INF, mpf(0)
            v = a / b
            return v, (ea + abs(v) * eb) / abs(b) + abs(v)
        if op == 'neg':
            return -a, ea
        if op == 'abs':
            return abs(a), ea
        if op == 'sqrt':
            if a < 0:
                raise Undef()
            v = mpmath.sqrt(a)
            return v, (ea / (2 * v) if v else mpmath.sqrt(ea * mpf(2) ** -52) * 2 ** 40) + abs(v)
        if op == 'exp':
            v = mpmath.exp(a)
            return v, v * ea + v
        if op == 'expm1':
            v = mpmath.expm1(a)
            return v, mpmath.exp(a) * ea + abs(v)
        if op == 'log':
            if a <= 0:
                if a == 0:
                    return -INF, mpf(0)
                raise Undef()
            v = mpmath.log(a)
            return v, ea / a + abs(v)
        if op == 'log1p':
            if a <= -1:
                if a == -1:
                    return -INF, mpf(0)
                raise Undef()
            v = mpmath.log1p(a)
            return v, ea / (1 + a) + abs(v)
        if op == 'pow':
            if a == 0:
                if b == 0:
                    return mpf(1), mpf(0)
                return (mpf(0) if b > 0 else INF), mpf(0)
            if a < 0 and b != int(b):
                raise Undef()
            v = a ** (int(b) if b == int(b) and abs(b) < 10 ** 6 else b)
            return v, abs(v) * (abs(b) * ea / abs(a) + (abs(mpmath.log(abs(a))) * eb if eb else 0) + 1)
        if op == 'erf':
            v = mpmath.erf(a)
            return v, 2 / mpmath.sqrt(mp.pi) * mpmath.exp(-a * a) * ea + abs(v)
        if op == 'erfc':
            v = mpmath.erfc(a)
            return v, 2 / mpmath.sqrt(mp.pi) * mpmath.exp(-a * a) * ea + abs(v)
        if op == 'atan':
            v = mpmath.atan(a)
            return v, ea / (1 + a * a) + abs(v)
        if op == 'tan':
            v = mpmath.tan(a)
            return v, ea * (1 + v * v) + abs(v)
        if op == 'tanh':
            v = mpmath.tanh(a)
            return v, ea + abs(v)
        if op == 'tgamma':
            v = mpmath.gamma(a)
            return v, abs(v * mpmath.digamma(a)) * ea + abs(v) * (10 + abs(a))
        if op == 'lgamma':
            v = mpmath.loggamma(a)
            return v, abs(mpmath.digamma(a)) * ea + abs(v) + 10
        if op == 'digamma':
            v = mpmath.digamma(a)
            return v, mpmath.polygamma(1, a) * ea + abs(v) * 100 + 100
        if op == 'ln_beta':
            v = mpmath.loggamma(a) + mpmath.loggamma(b) - mpmath.loggamma(a + b)
            return v, sum(abs(mpmath.loggamma(z)) for z in (a, b, a + b)) + 10
        if op == 'inc_beta':
            v = mpmath.betainc(a, b, 0, c[2][0]) if False else mpmath.betainc(b, c[2][0], 0, a, regularized=True)
            d = 0
            if 0 < a < 1:
                d = mpmath.exp((b - 1) * mpmath.log(a) + (c[2][0] - 1) * mpmath.log(1 - a) - mpmath.log(mpmath.beta(b, c[2][0]))) * ea
            return v, abs(v) + d + 1000 * (1 + b + c[2][0])
        if op == 'inv_inc_beta':
            v = inc_beta_inv(a, b, c[2][0])
            return v, abs(v) + mpf(10) ** 5
        if op == 'inc_gamma':
            v = mpmath.gammainc(b, 0, a, regularized=True)
            return v, abs(v) + 1000 * (1 + a + b)
        if op == 'probit':
            v = phi_inv(a)
            if mpmath.isinf(v):
                return v, mpf(0)
            return v, abs(v) + ea * mpmath.sqrt(2 * mp.pi) * mpmath.exp(v * v / 2)
        raise Undef(op)
    return go(t)


def iev(x, env):
    if isinstance(x, int):
        return x
    if x.op == 'ivar':
        return int(env[x.a[0]] if x.a[0] in env else env[x])
    a = [iev(y, env) if not isinstance(y, T) else y for y in x.a]
    if x.op == 'iadd':
        return a[0] + a[1]
    if x.op == 'isub':
        return a[0] - a[1]
    if x.op == 'imul':
        return a[0] * a[1]
    if x.op == 'slice':
        return (a[0] >> x.a[1]) & ((1 << x.a[2]) - 1)
    if x.op == 'ffloor':
        v = ev(x.a[0], env)[0]
        return max(0, int(mpmath.floor(v)))
    raise Undef(x.op)


def evc(c, env):
    """Truth of a condition; comparisons are exact up to the working precision."""
    if isinstance(c, int):
        return bool(c)
    if c.op == 'not':
        return not evc(c.a[0], env)
    if c.op == 'and':
        return all(evc(x, env) for x in c.a)
    if c.op == 'or':
        return any(evc(x, env) for x in c.a)
    if c.op in ('ilt', 'ile', 'ieq'):
        a, b = iev(c.a[0], env), iev(c.a[1], env)
    else:
        a, b = ev(c.a[0], env)[0], ev(c.a[1], env)[0]
    op = c.op.lstrip('i')
    if op == 'lt':
        return a < b
    if op == 'le':
        return a <= b
    if op == 'eq':
        return a == b
    raise Undef(c.op)


def fev(t, env):
    """An argument term as the double a caller would pass."""
    v = ev(t, env)[0]
    d = float(v)
    if d == 0 and v != 0 or math.isinf(d) and mpmath.isfinite(v):
        raise Undef('not a double')
    return d


def dev(t, env):
    """The term in double arithmetic, operation by operation."""
    memo = {}

    def go(x):
        v = memo.get(x.id)
        if v is None:
            v = memo[x.id] = one(x)
        return v

    def one(x):
        op = x.op
        if op == 'const':
            return x.cv
        if op == 'rat':
            return float(x.a[0])
        if op == 'var':
            return float(env[x.a[0]])
        if op == 'i2f':
            return float(iev(x.a[0], env))
        if op == 'pi':
            return math.pi
        c = [go(y) for y in x.a]
        a = c[0]
        if op == 'add':
            return a + c[1]
        if op == 'sub':
            return a - c[1]
        if op == 'mul':
            return a * c[1]
        if op == 'div':
            return a / c[1]
        if op == 'neg':
            return -a
        if op == 'abs':
            return abs(a)
        if op in ('sqrt', 'exp', 'expm1', 'log', 'log1p', 'erf', 'erfc', 'atan', 'tan', 'tanh'):
            return getattr(math, op)(a)
        return float(ev(tm.mk(op, *[tm.const(y) for y in c]), {})[0])
    return go(t)


def evd(c, env):
    """Truth of a condition in double arithmetic."""
    if isinstance(c, int):
        return bool(c)
    if c.op == 'not':
        return not evd(c.a[0], env)
    if c.op == 'and':
        return all(evd(x, env) for x in c.a)
    if c.op == 'or':
        return any(evd(x, env) for x in c.a)
    if c.op in ('ilt', 'ile', 'ieq'):
        return evc(c, env)
    a, b = dev(c.a[0], env), dev(c.a[1], env)
    return a < b if c.op == 'lt' else a <= b if c.op == 'le' else a == b


def close(r, v, e, extra=0.0):
    """Does the double r agree with the reference value v (error scale e)?"""
    if mpmath.isnan(v):
        return True
    if mpmath.isinf(v):
        return r == (math.inf if v > 0 else -math.inf)
    if r != r:
        return False
    if math.isinf(r):
        return abs(v) > mpf('1.7e308')
    if abs(v) > mpf('1.7e308'):
        return False
    d = abs(mpf(r) - v)
    return d <= UNIT * (e + abs(v)) + mpf(extra) + mpf('1e-300')
