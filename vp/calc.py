"""Derivatives and substitution of terms."""
from .term import *
from .spec import PI


class NoDerivative(Exception):
    pass


ZERO_T, ONE_T = rat(0), rat(1)


def isz(t):
    return t.op == 'const' and t.cv == 0


def isone(t):
    return t.op == 'const' and t.cv == 1


def add(a, b):
    return b if isz(a) else a if isz(b) else a + b


def sub(a, b):
    return a if isz(b) else mk('neg', b) if isz(a) else a - b


def mul(a, b):
    return ZERO_T if isz(a) or isz(b) else b if isone(a) else a if isone(b) else a * b


def div(a, b):
    return ZERO_T if isz(a) else a / b


def diff(t, v, memo=None):
    """d t / d v for the variable named v."""
    memo = {} if memo is None else memo
    r = memo.get(t.id)
    if r is None:
        r = memo[t.id] = _d(t, v, memo)
    return r


def logdiff(t, v):
    """d ln|t| / d v where t does not vanish."""
    if t.op == 'mul':
        return add(logdiff(t.a[0], v), logdiff(t.a[1], v))
    if t.op == 'div':
        return sub(logdiff(t.a[0], v), logdiff(t.a[1], v))
    if t.op == 'neg':
        return logdiff(t.a[0], v)
    if t.op == 'exp':
        return diff(t.a[0], v)
    d = diff(t, v)
    return d if isz(d) else d / t


def _d(t, v, memo):
    op = t.op
    if op == 'var':
        return ONE_T if t.a[0] == v else ZERO_T
    if op in ('const', 'rat', 'pi', 'i2f'):
        return ZERO_T
    D = [diff(x, v, memo) if isinstance(x, T) else ZERO_T for x in t.a]
    if all(isz(d) for d in D):
        return ZERO_T
    a = t.a[0]
    da = D[0]
    if op == 'add':
        return add(D[0], D[1])
    if op == 'sub':
        return sub(D[0], D[1])
    if op == 'neg':
        return mk('neg', da)
    if op == 'mul':
        return add(mul(D[0], t.a[1]), mul(a, D[1]))
    if op == 'div':
        b = t.a[1]
        return sub(div(D[0], b), div(mul(a, D[1]), b * b))
    if op == 'sqrt':
        return div(da, rat(2) * t)
    if op == 'exp':
        return mul(t, da)
    if op == 'expm1':
        return mul(fn('exp', a), da)
    if op == 'log':
        return div(da, a)
    if op == 'log1p':
        return div(da, 1 + a)
    if op in ('erf', 'erfc'):
        r = mul(rat(2) * fn('exp', mk('neg', a * a)) / fn('sqrt', PI), da)
        return r if op == 'erf' else mk('neg', r)
    if op == 'atan':
        return div(da, 1 + a * a)
    if op == 'tan':
        return mul(1 + t * t, da)
    if op == 'tanh':
        return mul(1 - t * t, da)
    if op == 'pow' and isz(D[1]):
        return mul(t.a[1] * t / a, da)
    if op == 'inc_gamma' and isz(D[1]):
        k = t.a[1]
        return mul(fn('exp', (k - 1) * fn('log', a) - a - fn('lgamma', k)), da)
    if op == 'inc_beta' and all(isz(d) for d in D[1:]):
        p, q = t.a[1], t.a[2]
        lb = t.a[3] if len(t.a) > 3 else fn('lgamma', p) + fn('lgamma', q) - fn('lgamma', p + q)
        return mul(fn('exp', (p - 1) * fn('log', a) + (q - 1) * fn('log', 1 - a) - lb), da)
    raise NoDerivative(op)


def subst(t, m, memo=None):
    """Replace variables by terms."""
    memo = {} if memo is None else memo
    if isinstance(t, (T, C)):
        r = memo.get(t.id)
        if r is None:
            if isinstance(t, T) and t.op == 'var':
                r = m.get(t.a[0], t)
            elif isinstance(t, T) and t.op in ('const', 'rat', 'pi', 'i2f'):
                r = t
            else:
                a = tuple(subst(x, m, memo) for x in t.a)
                if all(x is y for x, y in zip(a, t.a)):
                    r = t
                elif isinstance(t, T):
                    r = mk(t.op, *a)
                elif t.op == 'not':
                    r = cnot(a[0])
                elif t.op == 'and':
                    r = cand(*a)
                elif t.op == 'or':
                    r = cor(*a)
                else:
                    r = mkc(t.op, *a)
            memo[t.id] = r
        return r
    return t
