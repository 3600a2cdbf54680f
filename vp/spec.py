"""What each operation of each distribution must be, as mathematics over its parameters.

A specification is a list of pieces (condition, value); the value is a term, an
integer, a list (modes), or one of the literals inf/-inf.  The same text is read
symbolically by the solver queries and numerically (vp/mpev.py) by the replays.
"""
import math
from fractions import Fraction as Fr
from .term import *

PI = mk('pi')
INF, NINF = const(math.inf), const(-math.inf)
H = rat(Fr(1, 2))


def ln(x): return fn('log', x)
def exp(x): return fn('exp', x)
def sqrt(x): return fn('sqrt', x)
def lgamma(x): return fn('lgamma', x)
def digamma(x): return fn('digamma', x)
def erf(x): return fn('erf', x)
def r(a, b=1): return rat(Fr(a, b))


def lnbeta(a, b):
    return lgamma(a) + lgamma(b) - lgamma(a + b)


def one(v):
    return [(TRUE, v)]


def ilt(a, b): return int(a < b) if isinstance(a, int) and isinstance(b, int) else mkc('ilt', a, b)
def ile(a, b): return int(a <= b) if isinstance(a, int) and isinstance(b, int) else mkc('ile', a, b)
def ieq(a, b): return int(a == b) if isinstance(a, int) and isinstance(b, int) else mkc('ieq', a, b)
def toreal(k): return mk('i2f', k) if isinstance(k, IT) else rat(k)


def floor_(x):
    """The integer part of a nonnegative number, as a term."""
    if x.op == 'i2f':
        return x
    if x.op in ('const', 'rat'):
        q = Fr(x.cv) if x.op == 'const' else x.a[0]
        return rat(q.numerator // q.denominator)
    return mk('i2f', mki('ffloor', (x,), 64, 0, (1 << 64) - 1))


class Region:
    """Where the parameters range: argument terms over free variables, with facts."""

    def __init__(self, args, signs=None, assume=(), text='', ints=()):
        self.args, self.signs, self.assume, self.text = args, dict(signs or {}), list(assume), text
        self.ints = list(ints)
        self.gen = None     # rng -> values of some variables, for replays

    def plus(self, args=(), signs=None, assume=(), ints=()):
        s = dict(self.signs)
        s.update(signs or {})
        r = Region(list(self.args) + list(args), s, self.assume + list(assume), self.text, self.ints + list(ints))
        r.gen = self.gen
        return r


a, b, w, u, v, x, p, t = map(var, ('a', 'b', 'w', 'u', 'v', 'x', 'p', 't'))


class D:
    """A distribution: its name in the harness, parameter regions, and the specification."""
    discrete = False
    cont_quantile = True
    regions = []

    def mean(s, A): raise KeyError
    def deviation(s, A):
        return [(c, sqrt(q)) for c, q in s.variance(A)]


class Uniform(D):
    name, par = 'uniform', ('a', 'b')
    regions = [Region([a, a + w], {'w': 'pos'}, text='every a < b')]
    def mean(s, A): return one((A[0] + A[1]) / 2)
    def variance(s, A): return one((A[1] - A[0]) ** 2 / 12)
    def skewness(s, A): return one(r(0))
    def kurtosis(s, A): return one(r(-6, 5))
    def entropy(s, A): return one(ln(A[1] - A[0]))
    def median(s, A): return one((A[0] + A[1]) / 2)
    def density(s, A, x): return [(cor(lt(x, A[0]), lt(A[1], x)), r(0)), (cand(le(A[0], x), le(x, A[1])), 1 / (A[1] - A[0]))]
    def distribution(s, A, x): return [(le(x, A[0]), r(0)), (le(A[1], x), r(1)), (cand(lt(A[0], x), lt(x, A[1])), (x - A[0]) / (A[1] - A[0]))]
    def inverse(s, A, p): return one(A[0] + (A[1] - A[0]) * p)
    def support(s, A): return (A[0], A[1])


class Exponential(D):
    name, par = 'exponential', ('lambda',)
    regions = [Region([a], {'a': 'pos'}, text='every rate > 0')]
    def mean(s, A): return one(1 / A[0])
    def variance(s, A): return one(1 / A[0] ** 2)
    def skewness(s, A): return one(r(2))
    def kurtosis(s, A): return one(r(6))
    def entropy(s, A): return one(1 - ln(A[0]))
    def median(s, A): return one(ln(r(2)) / A[0])
    def modes(s, A): return one([r(0)])
    def density(s, A, x): return [(lt(x, r(0)), r(0)), (le(r(0), x), A[0] * exp(-(A[0] * x)))]
    def distribution(s, A, x): return [(le(x, r(0)), r(0)), (lt(r(0), x), -mk('expm1', -(A[0] * x)))]
    def inverse(s, A, p): return [(lt(p, r(1)), -mk('log1p', -p) / A[0]), (le(r(1), p), INF)]
    def support(s, A): return (r(0), None)


class LocScale(D):
    regions = [Region([a, b], {'b': 'pos'}, text='every location, every scale > 0')]
    def modes(s, A): return one([A[0]])
    def median(s, A): return one(A[0])
    def mean(s, A): return one(A[0])
    def skewness(s, A): return one(r(0))
    def support(s, A): return (None, None)


class Gaussian(LocScale):
    name, par = 'gaussian', ('mu', 'sigma')
    def variance(s, A): return one(A[1] ** 2)
    def deviation(s, A): return one(A[1])
    def kurtosis(s, A): return one(r(0))
    def entropy(s, A): return one((1 + ln(2 * PI * A[1] ** 2)) / 2)
    def density(s, A, x): return one(exp(-((x - A[0]) ** 2) / (2 * A[1] ** 2)) / (A[1] * sqrt(2 * PI)))
    def distribution(s, A, x): return one((1 + erf((x - A[0]) / (A[1] * sqrt(r(2))))) / 2)
    def inverse(s, A, p): return [(cand(lt(r(0), p), lt(p, r(1))), A[0] + A[1] * fn('probit', p)), (le(p, r(0)), NINF), (le(r(1), p), INF)]


class Laplace(LocScale):
    name, par = 'laplace', ('mu', 'b')
    def variance(s, A): return one(2 * A[1] ** 2)
    def deviation(s, A): return one(sqrt(r(2)) * A[1])
    def kurtosis(s, A): return one(r(3))
    def entropy(s, A): return one(1 + ln(2 * A[1]))
    def density(s, A, x): return [(le(A[0], x), exp((A[0] - x) / A[1]) / (2 * A[1])), (lt(x, A[0]), exp((x - A[0]) / A[1]) / (2 * A[1]))]
    def distribution(s, A, x): return [(le(A[0], x), 1 - exp((A[0] - x) / A[1]) / 2), (lt(x, A[0]), exp((x - A[0]) / A[1]) / 2)]
    def inverse(s, A, p):
        return [(cand(lt(r(0), p), le(p, H)), A[0] + A[1] * ln(2 * p)), (cand(lt(H, p), lt(p, r(1))), A[0] - A[1] * ln(2 - 2 * p)),
                (le(p, r(0)), NINF), (le(r(1), p), INF)]


class Logistic(LocScale):
    name, par = 'logistic', ('mu', 's')
    def variance(s, A): return one((PI * A[1]) ** 2 / 3)
    def kurtosis(s, A): return one(r(6, 5))
    def entropy(s, A): return one(ln(A[1]) + 2)
    def density(s, A, x):
        z = lambda q: exp(-q) / (A[1] * (1 + exp(-q)) ** 2)
        return [(le(A[0], x), z((x - A[0]) / A[1])), (lt(x, A[0]), z((A[0] - x) / A[1]))]
    def distribution(s, A, x): return one(1 / (1 + exp(-((x - A[0]) / A[1]))))
    def inverse(s, A, p): return [(cand(lt(r(0), p), lt(p, r(1))), A[0] + A[1] * (ln(p) - ln(1 - p))), (le(p, r(0)), NINF), (le(r(1), p), INF)]


class Cauchy(LocScale):
    name, par = 'cauchy', ('x_0', 'gamma')
    mean = variance = skewness = kurtosis = deviation = None
    def entropy(s, A): return one(ln(4 * PI * A[1]))
    def density(s, A, x): return one(A[1] / (PI * (A[1] ** 2 + (x - A[0]) ** 2)))
    def distribution(s, A, x): return one(H + fn('atan', (x - A[0]) / A[1]) / PI)
    def inverse(s, A, p): return [(cand(lt(r(0), p), lt(p, r(1))), A[0] + A[1] * fn('tan', PI * (p - H))), (le(p, r(0)), NINF), (le(r(1), p), INF)]


class Lognormal(D):
    name, par = 'lognormal', ('mu', 'sigma')
    regions = LocScale.regions
    def mean(s, A): return one(exp(A[0] + A[1] ** 2 / 2))
    def variance(s, A): return one((exp(A[1] ** 2) - 1) * exp(2 * A[0] + A[1] ** 2))
    def skewness(s, A): return one((exp(A[1] ** 2) + 2) * sqrt(exp(A[1] ** 2) - 1))
    def kurtosis(s, A):
        q = A[1] ** 2
        return one(exp(4 * q) + 2 * exp(3 * q) + 3 * exp(2 * q) - 6)
    def entropy(s, A): return one(A[0] + H + ln(A[1]) + ln(2 * PI) / 2)
    def median(s, A): return one(exp(A[0]))
    def modes(s, A): return one([exp(A[0] - A[1] ** 2)])
    def density(s, A, x): return [(le(x, r(0)), r(0)), (lt(r(0), x), exp(-((ln(x) - A[0]) ** 2) / (2 * A[1] ** 2)) / (x * A[1] * sqrt(2 * PI)))]
    def distribution(s, A, x): return [(le(x, r(0)), r(0)), (lt(r(0), x), (1 + erf((ln(x) - A[0]) / (A[1] * sqrt(r(2))))) / 2)]
    def inverse(s, A, p): return [(cand(lt(r(0), p), lt(p, r(1))), exp(A[0] + A[1] * fn('probit', p))), (le(p, r(0)), r(0)), (le(r(1), p), INF)]
    def support(s, A): return (r(0), None)


class Gamma(D):
    name, par = 'gamma', ('k', 'theta')
    regions = [Region([a, b], {'a': 'pos', 'b': 'pos'}, text='every shape > 0 and scale > 0')]
    inverse = None
    median = None
    def mean(s, A): return one(A[0] * A[1])
    def variance(s, A): return one(A[0] * A[1] ** 2)
    def skewness(s, A): return one(2 / sqrt(A[0]))
    def kurtosis(s, A): return one(6 / A[0])
    def entropy(s, A): return one(A[0] + ln(A[1]) + lgamma(A[0]) + (1 - A[0]) * digamma(A[0]))
    def modes(s, A): return [(le(r(1), A[0]), [(A[0] - 1) * A[1]]), (lt(A[0], r(1)), [])]
    def density(s, A, x): return [(le(x, r(0)), r(0)), (lt(r(0), x), exp((A[0] - 1) * ln(x) - x / A[1] - A[0] * ln(A[1]) - lgamma(A[0])))]
    def distribution(s, A, x): return [(le(x, r(0)), r(0)), (lt(r(0), x), fn('inc_gamma', x / A[1], A[0]))]
    def support(s, A): return (r(0), None)


class BetaLike(D):
    def shape(s, A): raise NotImplementedError     # alpha, beta, lo, hi

    def variance(s, A):
        al, be, lo, hi = s.shape(A)
        return one((hi - lo) ** 2 * al * be / ((al + be) ** 2 * (al + be + 1)))

    def mean(s, A):
        al, be, lo, hi = s.shape(A)
        return one(lo + (hi - lo) * al / (al + be))

    def skewness(s, A):
        al, be, lo, hi = s.shape(A)
        return one(2 * (be - al) * sqrt(al + be + 1) / ((al + be + 2) * sqrt(al * be)))

    def kurtosis(s, A):
        al, be, lo, hi = s.shape(A)
        n = al + be
        return one(6 * ((al - be) ** 2 * (n + 1) - al * be * (n + 2)) / (al * be * (n + 2) * (n + 3)))

    def entropy(s, A):
        al, be, lo, hi = s.shape(A)
        return one(ln(hi - lo) + lnbeta(al, be) - (al - 1) * digamma(al) - (be - 1) * digamma(be) + (al + be - 2) * digamma(al + be))

    def distribution(s, A, x):
        al, be, lo, hi = s.shape(A)
        return [(le(x, lo), r(0)), (le(hi, x), r(1)), (cand(lt(lo, x), lt(x, hi)), fn('inc_beta', (x - lo) / (hi - lo), al, be, fn('ln_beta', al, be)))]

    def density(s, A, x):
        al, be, lo, hi = s.shape(A)
        z = (x - lo) / (hi - lo)
        y = 1 - z
        end = lambda k, c: [(cand(c, lt(r(1), k)), r(0)), (cand(c, lt(k, r(1))), INF)]
        return [(cor(lt(x, lo), lt(hi, x)), r(0)),
                (cand(lt(lo, x), lt(x, hi)), exp((al - 1) * ln(z) + (be - 1) * ln(y) - lnbeta(al, be)) / (hi - lo))] \
            + end(al, eq(x, lo)) + end(be, eq(x, hi)) \
            + [(cand(eq(al, r(1)), eq(x, lo)), exp(-lnbeta(al, be)) / (hi - lo)), (cand(eq(be, r(1)), eq(x, hi)), exp(-lnbeta(al, be)) / (hi - lo))]

    def inverse(s, A, p):
        al, be, lo, hi = s.shape(A)
        return one(lo + (hi - lo) * fn('inv_inc_beta', p, al, be, fn('ln_beta', al, be)))

    def support(s, A):
        al, be, lo, hi = s.shape(A)
        return (lo, hi)


class Beta(BetaLike):
    name, par = 'beta', ('alpha', 'beta', 'a', 'b')
    regions = [Region([u, v, a, a + w], {'u': 'pos', 'v': 'pos', 'w': 'pos'}, text='every alpha, beta > 0 and a < b')]
    def shape(s, A): return A[0], A[1], A[2], A[3]

    def modes(s, A):
        al, be, lo, hi = s.shape(A)
        o = r(1)
        return [(cand(eq(al, o), eq(be, o)), []),
                (cand(lt(o, al), lt(o, be)), [lo + (hi - lo) * (al - 1) / (al + be - 2)]),
                (cand(lt(al, o), lt(be, o)), [lo, hi]),
                (cor(cand(lt(al, o), le(o, be)), cand(eq(al, o), lt(o, be))), [lo]),
                (cor(cand(le(o, al), lt(be, o)), cand(lt(o, al), eq(be, o))), [hi])]

    def median(s, A):
        al, be, lo, hi = s.shape(A)
        o = r(1)
        mid = fn('inv_inc_beta', H, al, be, fn('ln_beta', al, be))
        return [(eq(al, be), lo + (hi - lo) / 2),
                (cand(ne(al, be), cand(lt(o, al), lt(o, be))), ('approx', lo + (hi - lo) * (al - r(1, 3)) / (al + be - r(2, 3)), lo + (hi - lo) * mid, rat(Fr(1, 50)) * (hi - lo))),
                (cand(ne(al, be), cnot(cand(lt(o, al), lt(o, be)))), lo + (hi - lo) * mid)]


class Pert(BetaLike):
    name, par = 'pert', ('a', 'b', 'c')
    # nearer to an end than this, 1 + 4 (b - a) / (c - a) rounds to 1
    regions = [Region([a, a + u * w, a + w], {'u': 'pos', 'w': 'pos'}, [lt(rat(Fr(1, 2 ** 40)), u), lt(u, rat(1 - Fr(1, 2 ** 40)))],
                      text='every a < b < c with b not nearer to an end than 1e-12 of the width')]

    def shape(s, A):
        lo, m, hi = A
        return 1 + 4 * (m - lo) / (hi - lo), 1 + 4 * (hi - m) / (hi - lo), lo, hi

    def mean(s, A): return one((A[0] + 4 * A[1] + A[2]) / 6)

    def variance(s, A):
        m = (A[0] + 4 * A[1] + A[2]) / 6
        return one((m - A[0]) * (A[2] - m) / 7)

    def modes(s, A): return one([A[1]])

    def median(s, A):
        al, be, lo, hi = s.shape(A)
        return one(lo + (hi - lo) * fn('inv_inc_beta', H, al, be, fn('ln_beta', al, be)))


class Triangular(D):
    name, par = 'triangular', ('a', 'b', 'c')
    regions = [Region([a, a + u + v, a + u], {'u': 'pos', 'v': 'pos'}, text='every a < c < b'),
               Region([a, a + u, a], {'u': 'pos'}, text='c = a'), Region([a, a + u, a + u], {'u': 'pos'}, text='c = b')]

    def q(s, A):
        lo, hi, m = A
        return (hi - lo) ** 2 + (m - lo) ** 2 - (hi - lo) * (m - lo)
    def mean(s, A): return one((A[0] + A[1] + A[2]) / 3)
    def variance(s, A): return one(s.q(A) / 18)

    def skewness(s, A):
        lo, hi, m = A
        return one(sqrt(r(2)) * ((hi - m) - (m - lo)) * ((hi - lo) + (m - lo)) * ((hi - lo) + (hi - m)) / (5 * s.q(A) * sqrt(s.q(A))))

    def kurtosis(s, A): return one(r(-3, 5))
    def entropy(s, A): return one(H + ln((A[1] - A[0]) / 2))

    def median(s, A):
        lo, hi, m = A
        c = le((lo + hi) / 2, m)
        return [(c, lo + sqrt((hi - lo) * (m - lo) / 2)), (cnot(c), hi - sqrt((hi - lo) * (hi - m) / 2))]

    def modes(s, A): return one([A[2]])

    def density(s, A, x):
        lo, hi, m = A
        return [(cor(lt(x, lo), lt(hi, x)), r(0)), (cand(le(lo, x), lt(x, m)), 2 * (x - lo) / ((hi - lo) * (m - lo))),
                (eq(x, m), 2 / (hi - lo)), (cand(lt(m, x), le(x, hi)), 2 * (hi - x) / ((hi - lo) * (hi - m)))]

    def distribution(s, A, x):
        lo, hi, m = A
        return [(le(x, lo), r(0)), (le(hi, x), r(1)), (cand(lt(lo, x), cand(le(x, m), lt(x, hi))), (x - lo) ** 2 / ((hi - lo) * (m - lo))),
                (cand(lt(m, x), cand(lt(x, hi), lt(lo, x))), 1 - (hi - x) ** 2 / ((hi - lo) * (hi - m)))]

    def inverse(s, A, p):
        lo, hi, m = A
        c = le(p * (hi - lo), m - lo)
        return [(c, lo + sqrt(p * (hi - lo) * (m - lo))), (cnot(c), hi - sqrt((1 - p) * (hi - lo) * (hi - m)))]

    def support(s, A): return (A[0], A[1])


class Bernoulli(D):
    name, par, discrete = 'bernoulli', ('p',), True
    regions = [Region([p], {'p': 'pos'}, [lt(p, r(1))], text='every 0 < p < 1')]
    def pp(s, A): return A[0]
    def qq(s, A): return 1 - A[0]
    def mean(s, A): return one(s.pp(A))
    def variance(s, A): return one(s.pp(A) * s.qq(A))
    def skewness(s, A): return one((s.qq(A) - s.pp(A)) / sqrt(s.pp(A) * s.qq(A)))
    def kurtosis(s, A): return one((1 - 6 * s.pp(A) * s.qq(A)) / (s.pp(A) * s.qq(A)))
    def entropy(s, A): return one(-(s.pp(A) * ln(s.pp(A))) - s.qq(A) * ln(s.qq(A)))
    def median(s, A): return [(lt(s.pp(A), H), r(0)), (eq(s.pp(A), H), H), (lt(H, s.pp(A)), r(1))]
    def modes(s, A): return [(lt(s.pp(A), H), [0]), (eq(s.pp(A), H), [0, 1]), (lt(H, s.pp(A)), [1])]
    def distribution(s, A, x): return [(lt(x, r(0)), r(0)), (cand(le(r(0), x), lt(x, r(1))), s.qq(A)), (le(r(1), x), r(1))]
    def inverse(s, A, p): return [(le(p, s.qq(A)), 0), (lt(s.qq(A), p), 1)]
    def mass(s, A, k): return [(ieq(k, 0), s.qq(A)), (ieq(k, 1), s.pp(A)), (ilt(1, k), r(0))]
    def sample(s, A, u): return [(lt(u, s.qq(A)), 0), (le(s.qq(A), u), 1)]


class BernoulliF(Bernoulli):
    name = 'bernoulli_f'
    par = ('q',)
    def pp(s, A): return 1 - A[0]
    def qq(s, A): return A[0]


NI = ivar('n', 64, 1, 10 ** 9)


class Binomial(D):
    name, par, discrete = 'binomial', ('n', 'p'), True
    regions = [Region([NI, p], {'p': 'pos'}, [lt(p, r(1))], text='every 1 <= n <= 10^9 and 0 < p < 1', ints=['n'])]
    def pp(s, A): return A[1]
    def qq(s, A): return 1 - A[1]
    def n(s, A): return mk('i2f', A[0]) if isinstance(A[0], IT) else rat(A[0])
    def mean(s, A): return one(s.n(A) * s.pp(A))
    def variance(s, A): return one(s.n(A) * s.pp(A) * s.qq(A))
    def skewness(s, A): return one((s.qq(A) - s.pp(A)) / sqrt(s.n(A) * s.pp(A) * s.qq(A)))
    def kurtosis(s, A): return one((1 - 6 * s.pp(A) * s.qq(A)) / (s.n(A) * s.pp(A) * s.qq(A)))

    def modes(s, A):
        if isinstance(A[0], IT):
            t = (s.n(A) + 1) * s.pp(A)
            k = mki('ffloor', (t,), 64, 0, (1 << 64) - 1)
            f = mk('i2f', k)
            return [(lt(f, t), [k]), (cand(le(t, f), lt(r(0), t)), [mki('isub', (k, 1), 64, 0, (1 << 64) - 1), k])]
        q = (A[0] + 1) * s.pp(A)
        out = []
        ks = range(A[0] + 1)
        if A[1].op == 'const' and A[0] > 8:
            # a closed number: only the pieces around it can apply
            z = Fr(A[1].cv)
            m = math.floor((A[0] + 1) * (z if s.name == 'binomial' else 1 - z))
            ks = range(max(0, m - 1), min(A[0], m + 1) + 1)
        for k in ks:
            out += [(cand(lt(r(k), q), lt(q, r(k + 1))), [k])] + ([(eq(q, r(k)), [k - 1, k])] if k else [])
        return out

    def pmf(s, A, k):
        """The mass at an integer within [0, n], for a number of trials given as a number."""
        n = A[0]
        t = rat(math.comb(n, k))
        return t * s.pp(A) ** k * s.qq(A) ** (n - k) if n <= 40 else \
            exp(lgamma(r(n + 1)) - lgamma(r(k + 1)) - lgamma(r(n - k + 1)) + k * ln(s.pp(A)) + (n - k) * ln(s.qq(A)))

    def cdf(s, A, k):
        if k < 0:
            return r(0)
        if k >= A[0]:
            return r(1)
        n = A[0]
        if n <= 40:
            t = r(0)
            for i in range(k + 1):
                t = t + s.pmf(A, i)
            return t
        return fn('inc_beta', s.qq(A), r(n - k), r(k + 1), fn('ln_beta', r(n - k), r(k + 1)))

    def mass(s, A, k):
        n = A[0]
        if isinstance(n, int) and isinstance(k, int):
            return one(s.pmf(A, k) if k <= n else r(0))
        return [(ilt(n, k), r(0)), (cand(ieq(k, 0), ilt(0, n)), exp(s.n(A) * ln(s.qq(A)))), (cand(ieq(k, n), ilt(0, n)), exp(s.n(A) * ln(s.pp(A))))]

    def distribution(s, A, x):
        n = s.n(A)
        k = floor_(x)
        a, b = n - k, k + 1
        return [(lt(x, r(0)), r(0)), (cand(le(r(0), x), cand(lt(x, r(1)), lt(x, n))), exp(n * ln(s.qq(A)))), (le(n, x), r(1)),
                (cand(le(r(1), x), lt(x, n)), fn('inc_beta', s.qq(A), a, b, fn('ln_beta', a, b)))]

    def median_n(s, A):
        """For a given number of trials: P(X < m) <= 1/2 <= P(X <= m)."""
        out = []
        for k in range(A[0] + 1):
            out.append((cand(lt(s.cdf(A, k - 1), H), lt(H, s.cdf(A, k))), r(k)))
            if k < A[0]:
                out.append((eq(s.cdf(A, k), H), ('between', r(k), r(k + 1))))
        return out

    def inverse_n(s, A, u):
        out = [(le(u, r(0)), 0), (le(r(1), u), A[0])]
        for k in range(A[0] + 1):
            out.append((cand(cand(lt(r(0), u), lt(u, r(1))), cand(lt(s.cdf(A, k - 1), u), le(u, s.cdf(A, k)))), k))
        return out

    def entropy_n(s, A):
        """For a given number of trials."""
        t = r(0)
        for k in range(A[0] + 1):
            m = s.pmf(A, k)
            t = t - m * (ln(rat(math.comb(A[0], k))) + k * ln(s.pp(A)) + (A[0] - k) * ln(s.qq(A)))
        return one(t)


class BinomialF(Binomial):
    name = 'binomial_f'
    par = ('n', 'q')
    def pp(s, A): return 1 - A[1]
    def qq(s, A): return A[1]


class Categorical(D):
    name, par, discrete = 'categorical', ('p...',), True

    def __init__(self, k):
        self.k = k
        self.w = [var('p%d' % i) for i in range(k - 1)]
        rest = r(1)
        for q in self.w:
            rest = rest - q
        self.regions = [Region([('in', self.w + [rest]), k], {'p%d' % i: 'nonneg' for i in range(k - 1)}, [le(r(0), rest)],
                               text='every vector of %d probabilities, zeros included' % k)]
        self.regions[0].gen = self.gen

    def gen(s, rng):
        """Weights with short binary expansions (their sums are exact), or arbitrary ones."""
        if rng.random() < 0.7:
            m = rng.choice((2, 4, 8, 16, 64))
            cut = sorted(rng.randint(0, m) for _ in range(s.k - 1))
            ws = [Fr(b - a, m) for a, b in zip([0] + cut, cut)]
        else:
            ws = [rng.random() ** 3 for _ in range(s.k)]
            t = sum(ws)
            ws = [Fr(x / t) for x in ws[:-1]]
        return {'p%d' % i: x for i, x in enumerate(ws)}

    def p(s, A): return A[0][1]
    def _raw(s, A, m, c=None):
        t = r(0)
        for i, q in enumerate(s.p(A)):
            t = t + q * ((r(i) - c if c is not None else r(i)) ** m)
        return t
    def mean(s, A): return one(s._raw(A, 1))
    def variance(s, A): return one(s._raw(A, 2, s._raw(A, 1)))
    def skewness(s, A):
        m = s._raw(A, 1)
        V = s._raw(A, 2, m)
        return [(lt(r(0), V), s._raw(A, 3, m) / (V * sqrt(V)))]
    def kurtosis(s, A):
        m = s._raw(A, 1)
        V = s._raw(A, 2, m)
        return [(lt(r(0), V), s._raw(A, 4, m) / V ** 2 - 3)]

    def cdf(s, A, k):
        t = r(0)
        for q in s.p(A)[:k + 1]:
            t = t + q
        return t

    def mass(s, A, k): return one(s.p(A)[k])

    def distribution(s, A, x):
        return [(lt(x, r(0)), r(0)), (le(r(s.k - 1), x), r(1))] + [(cand(le(r(i), x), lt(x, r(i + 1))), s.cdf(A, i)) for i in range(s.k - 1)]

    def entropy(s, A):
        # one piece per set of vanishing probabilities
        out = []
        ps = s.p(A)
        for m in range(1, 1 << len(ps)):
            c, t = TRUE, r(0)
            for i, q in enumerate(ps):
                on = m >> i & 1
                c = cand(c, lt(r(0), q) if on else eq(q, r(0)))
                if on:
                    t = t - q * ln(q)
            out.append((c, t))
        return out

    def modes(s, A):
        ps = s.p(A)
        out = []
        for m in range(1, 1 << len(ps)):
            on = [i for i in range(len(ps)) if m >> i & 1]
            c = TRUE
            for i, q in enumerate(ps):
                if i != on[0]:
                    c = cand(c, eq(q, ps[on[0]]) if i in on else lt(q, ps[on[0]]))
            out.append((c, on))
        return out

    def median(s, A):
        """The middle of the interval of medians, in steps: P(X < m) <= 1/2 <= P(X <= m)."""
        out = []
        ps = s.p(A)
        for i in range(s.k):
            below, upto = s.cdf(A, i - 1) if i else r(0), s.cdf(A, i) if i < s.k - 1 else r(1)
            out.append((cand(lt(below, H), lt(H, upto)), r(i)))
            # F(i) = 1/2: the medians are [i, j], j the next category of positive probability
            for j in range(i + 1, s.k):
                c = cand(eq(upto, H), lt(r(0), ps[i]))
                for z in range(i + 1, j):
                    c = cand(c, eq(ps[z], r(0)))
                c = cand(c, lt(r(0), ps[j]))
                out.append((c, ('between', r(i), r(j))))
        return out

    def inverse(s, A, p):
        """The smallest category of positive probability whose cumulative probability reaches p."""
        out = []
        ps = s.p(A)
        for i in range(s.k):
            below, upto = s.cdf(A, i - 1) if i else r(0), s.cdf(A, i) if i < s.k - 1 else r(1)
            out.append((cand(lt(r(0), ps[i]), cand(cor(lt(below, p), cand(eq(p, r(0)), eq(below, r(0)))), le(p, upto))), i))
        return out


DISTS = [Uniform(), Exponential(), Gaussian(), Laplace(), Logistic(), Cauchy(), Lognormal(), Gamma(), Beta(), Pert(), Triangular(),
         Bernoulli(), BernoulliF(), Binomial(), BinomialF()]
BYNAME = {d.name: d for d in DISTS}
CONT = [d for d in DISTS if not d.discrete]
