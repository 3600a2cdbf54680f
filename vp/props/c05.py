"""Discrete quantiles."""
from .discrete import *
BOUNDS = ('every probability u in [0, 1]; Bernoulli: every p; categorical: 2 to 5 (thorough 7) categories, vanishing ones included; '
          'binomial: n <= 10 (thorough 24), p in [2^-20, 1 - 2^-20]; the normal expansion and the Newton iteration (n >= 1000) are under C20')
ASSUMPTIONS = ASSUME

Q = var('u')


def unit(g, extra=()):
    R = g.plus([Q], signs={'u': 'nonneg'}, assume=[le(Q, r(1))] + list(extra))
    return R


def cdfs(n, pr, upto):
    """F(0..upto) of a binomial with given numbers, as rationals."""
    with mpmath.workdps(60):
        P, Q, t, out = mpf(pr), 1 - mpf(pr), mpf(0), []
        lp, lq, L = mpmath.log(P), mpmath.log(Q), mpmath.loggamma
        for k in range(upto + 1):
            t += mpmath.exp(L(n + 1) - L(k + 1) - L(n - k + 1) + k * lp + (n - k) * lq)
            out.append(t)
        return [rat(Fr(int(t * 10 ** 45), 10 ** 45)) for t in out]


def windowed(n, pr, d, width=8):
    """Given numbers of trials and probability, every u of a few windows."""
    P = pr if d.name == 'binomial' else 1 - pr
    sd = math.sqrt(n * P * (1 - P))
    out = []
    for z in (-4, -1.5, 0, 2, 4):
        k0 = max(0, min(n - 1, int(n * P + z * sd)))
        k1 = min(n - 1, k0 + width)

        def f(job, k0=k0, k1=k1):
            F = cdfs(n, P, k1)
            below = F[k0 - 1] if k0 else r(0)
            R = Region([n, const(pr), Q], {'u': 'nonneg'}, [lt(below + r(1, 10 ** 12), Q), lt(Q, F[k1] - r(1, 10 ** 12))])
            R.slack = mpf('1e-12')
            lo, hi = float(below.a[0]), float(F[k1].a[0])

            def spec(A):
                out = []
                for k in range(k0, k1 + 1):
                    out.append((cand(lt((F[k - 1] if k else r(0)) + r(1, 10 ** 12), A[2]), le(A[2], F[k] - r(1, 10 ** 12))), k))
                return out
            equal(job, d.name + '__inverse', R, spec, 'i', fold=True, ranges={'u': (lo, hi)}, probes=False)
        out.append(('%s.inverse(n=%d, p=%g) from %d' % (d.name, n, P, k0), f, None))
    return out


def jobs(W, tier):
    out = []
    for d in (BYNAME['bernoulli'], BYNAME['bernoulli_f']):
        out.append(eqjob(d.name + '.inverse', d.name + '__inverse', unit(d.regions[0]), lambda A, d=d: d.inverse(A[:1], A[1]), 'i'))
    for d in cats(tier):
        out.append(eqjob('categorical(%d).inverse' % d.k, 'categorical__inverse', unit(d.regions[0]), lambda A, d=d: d.inverse(A[:2], A[2]), 'i', ranges={'u': (0, 1)}))
    for n in range(1, 11 if tier == 'quick' else 25):
        for d in BINS:
            R = unit(bin_region(n, Fr(1, 2 ** 20)))
            R.slack = mpf('1e-14')
            out.append(eqjob('%s.inverse(n=%d)' % (d.name, n), d.name + '__inverse', R, lambda A, d=d: d.inverse_n(A[:2], A[2]), 'i', split=n + 1,
                             ranges={'p': (1e-6, 1 - 1e-6), 'u': (0, 1)}))
    # fair trials whose sums are exact in doubles: ties count
    for n in (1, 2, 3, 5):
        for d in BINS:
            R = Region([n, const(0.5), Q], {'u': 'nonneg'}, [le(Q, r(1))])
            out.append(eqjob('%s.inverse(n=%d, p=1/2)' % (d.name, n), d.name + '__inverse', R, lambda A, d=d: d.inverse_n(A[:2], A[2]), 'i', fold=True))
    for n, pr in ((999, 0.6), (999, 0.25), (500, 0.01), (40, 0.5)) if tier == 'quick' else ((999, 0.6), (999, 0.4), (999, 0.25), (999, 0.9375), (998, 0.5), (500, 0.01), (500, 0.99), (100, 0.5), (100, 0.125), (40, 0.5)):
        for d in BINS if tier != 'quick' or n == 999 else BINS[:1]:
            out += windowed(n, pr, d)
    return out
