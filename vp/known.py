"""Exact descriptions of the known findings: what the code returns there, and nothing else.

Each function gets the concrete call and its result, and answers whether that result is the listed defect.
"""
import math
import mpmath
from mpmath import mpf

TYPO = mpf('7.757367548795184079e-03') - mpf('7.573675487951840795e-03')


def is_half(ws):
    """Does a running sum of the weights, taken left to right, equal one half after the first?"""
    s = 0.0
    for i, q in enumerate(ws[:-1]):
        s = s + q if i else q
        if i and s == 0.5:
            return True
    return False


def median_half(a, got):
    """Categorical::median is i - 1/2 where the running sum is 1/2 at i > 0."""
    s = 0.0
    ws = a[0][1]
    for i, q in enumerate(ws[:-1]):
        s = s + q if i else q
        if s > 0.5:
            return False
        if i and s == 0.5:
            return got == i - 0.5
    return False


def lnmass(n, x, p, q):
    p, q = mpf(p), mpf(q)
    return mpmath.loggamma(n + 1) - mpmath.loggamma(x + 1) - mpmath.loggamma(n - x + 1) + x * mpmath.log(p) + (n - x) * mpmath.log(q)


def typo_ln(n, x):
    """What the wrong table entry adds to the logarithm of a mass."""
    return TYPO * ((n == 11) - (x == 11) - (n - x == 11)) if 0 < x < n else mpf(0)


def pq(entry, a):
    """Both probabilities of a binomial call."""
    return (a[1], 1.0 - a[1]) if '_f__' not in entry else (1.0 - a[1], a[1])


def stirling_mass(entry, a, got):
    n, x = a[0], a[2]
    d = typo_ln(n, x)
    if not d or not isinstance(got, float):
        return False
    P, Q = (mpf(a[1]), 1 - mpf(a[1])) if '_f__' not in entry else (1 - mpf(a[1]), mpf(a[1]))
    w = mpmath.exp(lnmass(n, x, P, Q) + d)
    return abs(mpf(got) - w) <= mpf('1e-10') * w


def stirling_entropy(entry, a, got):
    n = a[0]
    if not 11 <= n <= 10 ** 5 or not isinstance(got, float):
        return False
    P, Q = (mpf(a[1]), 1 - mpf(a[1])) if '_f__' not in entry else (1 - mpf(a[1]), mpf(a[1]))
    t = mpf(0)
    for x in range(n + 1):
        l = lnmass(n, x, P, Q) + typo_ln(n, x)
        t -= mpmath.exp(l) * l
    return abs(mpf(got) - t) <= mpf('1e-9') * (1 + abs(t))


def newton_below(entry, a, draws, got):
    """Binomial::inverse, at least 1000 trials and n p q <= 80: the Newton iteration stops one or two below the quantile, with
    F(got) < u and u - F(got) less than half of the mass at got."""
    n = a[0]
    if not isinstance(got, int):
        try:
            got = int(str(got).split(' ')[0])
        except ValueError:
            return False
    u = mpf(a[2]) if 'inverse' in entry else mpf(float(draws[0])) / 2 ** 64 if draws else None
    P, Q = (mpf(a[1]), 1 - mpf(a[1])) if '_f__' not in entry else (1 - mpf(a[1]), mpf(a[1]))
    if u is None or n < 1000 or n * P * Q > mpf('80.0000001') or not 0 <= got < n:
        return False
    with mpmath.workdps(40):
        lp, lq = mpmath.log(P), mpmath.log(Q)
        w = m = mpmath.exp(mpmath.loggamma(n + 1) - mpmath.loggamma(got + 1) - mpmath.loggamma(n - got + 1) + got * lp + (n - got) * lq)
        F, x = m, got
        while x > 0 and w > F * mpf('1e-40'):
            w = w * x / (n - x + 1) * Q / P
            F += w
            x -= 1
        # the step is damped by 0.999 a round, and the CDF carries n units in the last place
        return F < u + n * mpf('4e-15') and u - F < mpf('0.6') * m + n * mpf('4e-15')


def beta_hang(entry, a, got):
    """The inverse of the incomplete beta function in the special crate never returns for a probability below 1e-150, or a shape
    below 1e-3 or above 1e6."""
    if got != 'hang':
        return False
    if entry.startswith('pert'):
        return 0 < a[3] < 1e-150
    u = a[4] if 'inverse' in entry else 0.5
    return 0 < u < 1e-150 or not all(1e-3 <= z <= 1e6 for z in a[:2])


FUNCS = dict(beta_hang=beta_hang, newton_below=newton_below, is_half=is_half, median_half=median_half, stirling_mass=stirling_mass, stirling_entropy=stirling_entropy)
