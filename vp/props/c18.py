"""A normal law fitted to a list of numbers."""
from .common import *
BOUNDS = 'every list of two to twelve (thorough: 32) real numbers, not all equal; lists far from the origin are replayed as well; density and CDF of the fitted law: lists of two and three'
ASSUMPTIONS = ASSUME + ['the numbers are finite; rounding is judged by replays only, where the error of a two-pass computation is allowed']


def fitted(xs):
    n = len(xs)
    m = sum(xs[1:], xs[0]) / n
    q = [(x - m) * (x - m) for x in xs]
    return m, sqrt(sum(q[1:], q[0]) / (n - 1))


def region(n, shift=None, extra=()):
    xs = [var('x%d' % i) for i in range(n)]
    if shift is not None:
        xs = [const(float(shift)) + x for x in xs]
    return Region([('in', xs), n] + list(extra), assume=[cnot(cand(*[eq(xs[i], xs[i + 1]) for i in range(n - 1)]))])


def cand(*l):
    c = 1
    for x in l:
        c = S.cand(c, x)
    return c


def jobs(W, tier):
    out = []
    top = 13 if tier == 'quick' else 33
    x = var('x')
    for n in range(2, top):
        for shift in (None, 2 ** 30):
            g = region(n, shift)
            tag = '%d numbers%s' % (n, ' far from zero' if shift else '')
            out.append(eqjob('mean of ' + tag, 'gaussian_iter__mu', g, lambda A: [(TRUE, fitted(A[0][1])[0])]))
            out.append(eqjob('deviation of ' + tag, 'gaussian_iter__sigma', g, lambda A: [(TRUE, fitted(A[0][1])[1])]))
    N = BYNAME['gaussian']
    for n in (2, 3):
        g = region(n, None, [x])
        out.append(eqjob('density fitted to %d numbers' % n, 'gaussian_iter__density', g, lambda A: N.density(list(fitted(A[0][1])), A[2])))
        out.append(eqjob('CDF fitted to %d numbers' % n, 'gaussian_iter__distribution', g, lambda A: N.distribution(list(fitted(A[0][1])), A[2])))
    return out
