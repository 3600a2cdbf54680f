"""Binomial laws of many trials."""
from .discrete import *
from . import c05
BOUNDS = ('moments, modes, CDF, mass at 0: every n in [10^9, 2^52] and every p; masses: the (n, x) pairs of the obligations, n up to 10^12, every p of the windows without a series; quantiles: '
          'the (n, p) pairs of the obligations, every u between the CDF values of a window of four or so neighbours, around the mean and up to five deviations from it '
          '(exact within 2.9 deviations, within 2 % of a mass up to 4.7, within 10 % at 5); Newton iteration: u not within a tenth of the half-way points between neighbours')
ASSUMPTIONS = ASSUME + ['gaussian::inverse is the normal quantile to within 1e-12 (decided under C04)',
                        'the incomplete beta function computes what it names']


def probit(t):
    """Normal quantile of a 50-digit probability."""
    with mpmath.workdps(40):
        return mpmath.sqrt(2) * mpmath.erfinv(2 * t - 1)


def rt(x, n=30):
    return rat(Fr(int(mpmath.nint(mpf(x) * 10 ** n)), 10 ** n))


def cdf_at(n, P, ks):
    """F(k) for the given k, to 40 digits, by summing masses outwards from the first."""
    with mpmath.workdps(50):
        P = mpf(P.numerator) / P.denominator
        Q = 1 - P
        lp, lq, L = mpmath.log(P), mpmath.log(Q), mpmath.loggamma
        out = {}
        k = ks[0]
        m = mpmath.exp(L(n + 1) - L(k + 1) - L(n - k + 1) + k * lp + (n - k) * lq)
        t, w, x = m, m, k
        while x > 0:
            w = w * x / (n - x + 1) * Q / P
            t += w
            x -= 1
            if w < t * mpf('1e-45'):
                break
        out[k] = t
        while k < ks[-1]:
            m = m * (n - k) / (k + 1) * P / Q
            k += 1
            t += m
            out[k] = t
        return out


def expansion(n, pr, d, z, width, part):
    """Every u of a window, through the normal expansion."""
    P = Fr(pr) if d.name == 'binomial' else 1 - Fr(pr)
    sd = math.sqrt(n * P * (1 - P))
    k0 = max(1, int(n * P + z * sd))
    k1 = k0 + width
    Q, w = var('u'), var('w')

    def f(job):
        F = cdf_at(n, P, list(range(k0 - 1, k1 + 1)))
        # the incomplete beta function loses n units in the last place of the smaller tail
        gap = {k: rt(n * mpf('4e-15') * min(F[k], 1 - F[k]) + mpf('1e-14') + part * (F[max(k, k0)] - F[max(k, k0) - 1]), 45) for k in F}
        Z = {k: rt(probit(F[k])) for k in F}
        F = {k: rt(F[k], 45) for k in F}
        link = []
        for k in F:
            link.append(cor(cand(lt(Q, F[k]), lt(w, Z[k] + r(1, 10 ** 12))), cand(le(F[k], Q), lt(Z[k] - r(1, 10 ** 12), w))))
        R = Region([n, const(pr), Q], {'u': 'pos'}, [lt(F[k0 - 1], Q), lt(Q, F[k1])] + link)
        lo, hi = float(F[k0 - 1].a[0]), float(F[k1].a[0])

        def gen(rng):
            u = rng.uniform(lo, hi)
            return {'u': Fr(u), 'w': Fr(float(probit(mpf(u))))}
        R.gen = gen
        R.slack = mpf('1e-14')

        def spec(A):
            return [(cand(lt(F[k - 1] + gap[k - 1], A[2]), le(A[2], F[k] - gap[k])), k) for k in range(k0, k1 + 1)]
        equal(job, d.name + '__inverse', R, spec, 'i', fold=True, probes=False, split=(k0 - 2, k1 + 3),
              summaries={'8gaussian7inverse': lambda u: w if isinstance(u, T) and not u.op == 'const' else None})
    return ('%s.inverse(n=%d, p=%g), u from F(%d)' % (d.name, n, float(P), k0), f, None)


def newton(n, pr, d, z, width, exact=False):
    """Every u of a window, through the Newton iteration."""
    P = Fr(pr) if d.name == 'binomial' else 1 - Fr(pr)
    sd = math.sqrt(n * P * (1 - P))
    k0 = max(5, int(n * P + z * sd))
    k1 = min(n - 1, k0 + width)
    k0 = min(k0, k1)
    Q = var('u')

    def f(job):
        F = cdf_at(n, P, list(range(k0 - 5, k1 + 1)))
        m = {k: F[k] - F[k - 1] for k in F if k > k0 - 5}
        err = n * mpf('4e-15') + mpf('1e-14')
        for k in range(k0, k1 + 1):
            if job.left() < 5:
                job.undecided.append('out of time')
                return
            # close to half way between two values the iteration swings until its damping ends it; stay off
            rho = m[k] / m[k - 1]
            for t0, t1 in ((mpf(0), min(mpf('.4') / rho, mpf(1))), (mpf('.55'), mpf(1))):
                a, b = F[k - 1] + t0 * m[k] + err, F[k - 1] + t1 * m[k] - err
                if b <= a or t0 and t1 * mpf('.4') / rho > 1:
                    continue
                # the listed finding: values below the quantile whose CDF misses u by less than 0.6 of their mass
                low = min([k] + [j for j in range(k - 3, k) if a < F[j] + mpf('.6') * m[j]])
                v = k if exact or low == k else ('between', r(low), r(k))
                R = Region([n, const(pr), Q], {'u': 'pos'}, [lt(rt(a, 45), Q), lt(Q, rt(b, 45))])
                equal(job, d.name + '__inverse', R, lambda A, v=v: one(v), 'i', fold=True, probes=False,
                      ranges={'u': (float(a), float(b))}, split=(max(0, int(n * P - 14 * sd)), int(n * P + 14 * sd) + 40))
    return ('%s.inverse(n=%d, p=%g), Newton, u from F(%d)%s' % (d.name, n, float(P), k0, ', exact' if exact else ''), f, None)


NB = ivar('nb', 64, 10 ** 9, 2 ** 52)


def many(tier):
    """More trials than fit 32 bits."""
    out = []
    x = var('x')
    for d in BINS:
        g = d.regions[0]
        A = [NB, g.args[1]]
        R = Region(A, g.signs, g.assume, ints=['nb'])
        R.gen = lambda rng, g=g: {'nb': rng.randint(10 ** 9, 2 ** rng.randint(31, 52))}
        for op in ('mean', 'variance', 'skewness', 'kurtosis', 'modes'):
            kind = 'modes_i' if op == 'modes' else 'f'
            out.append(eqjob('%s.%s, n up to 2^52' % (d.name, op), '%s__%s' % (d.name, op), R, getattr(d, op), kind, extra_args=(('out', 16),) if op == 'modes' else ()))
        out.append(eqjob('%s.distribution, n up to 2^52' % d.name, d.name + '__distribution', R.plus([x]), lambda A, d=d: d.distribution(A[:2], A[2])))
        out.append(eqjob('%s.mass(0), n up to 2^52' % d.name, d.name + '__mass', R.plus([0]), lambda A, d=d: one(exp(d.n(A) * ln(d.qq(A))))))
    pairs = [(2 ** 32 + 12, 12), (2 ** 32 + 300, 2 ** 32)]
    for n, k in pairs if tier == 'quick' else pairs + [(2 ** 33, 1000), (10 ** 12, 10 ** 6), (2 ** 40, 2 ** 40 - 3), (2 ** 32, 2 ** 16), (2 ** 32 - 1, 100), (65536, 300), (65537, 65000)]:
        for d in BINS:
            out.append(massjob(n, k, False, d.name))
    for d in BINS:
        out.append(('%s masses at the mean' % d.name, lambda job, d=d: at_mean(job, d), None))
    return out


def at_mean(job, d):
    """Near x = n p the mass is 1 / sqrt(2 pi n p q) to within 1 / (n p q): solver-chosen p around x / n."""
    for n, x in ((2 ** 32 + 5, 2 ** 31), (2 ** 33, 2 ** 32 + 7), (2 ** 40, 2 ** 20), (2 ** 52, 2 ** 51), (2 ** 52, 10 ** 6)):
        c = Fr(x, n) if d.name == 'binomial' else 1 - Fr(x, n)
        R = Region([n, p, x], {'p': 'pos'}, [lt(p, r(1)), lt(rat(c * (1 - Fr(1, 10 ** 7))), p), lt(p, rat(c * (1 + Fr(1, 10 ** 7))))])
        ctx = job.ctx(R)
        try:
            ps = job.exec(ctx, d.name + '__mass', R.args, max_paths=60, soft=True)
        except (symex.SymError, Unsupported, Blowup, llir.IRError) as e:
            job.undecided.append('mass: %s' % e)
            continue
        for q in ps:
            s, m = ctx.check(q.pc, timeout=3, model=True)
            z = mpev.fev(p, job.env_of(m, R)) if s == 'sat' else None
            if z is None:
                continue
            l, P, Q = exact_mass(d, n, x, z)
            dev = abs(x - n * P)
            # rounding of p, of n p and of the deviance near the mean
            tol = mpf(2) ** -52 * (64 + n * mpf(2) ** -52 / min(P, Q) * (2 + dev) + 8 * dev * dev / (n * P * Q) + 8 * dev * (1 + dev * n * mpf(2) ** -53) / min(n * P, n * Q) * max(1, mpf(2) ** -52 * n))
            tol += mpf(2) ** -50 * (1 + dev / (n * P * Q) * mpf(max(x, n - x)))
            res = job.call(d.name + '__mass', [n, z, x])
            if l > -600 and (res[0] != 'ok' or not abs(mpf(res[1]) / mpmath.exp(l) - 1) <= tol):
                job.violate(d.name + '__mass', [n, z, x], None, res[1] if res[0] == 'ok' else res[0], mpmath.nstr(mpmath.exp(l), 17), 'mass near the mean')
            else:
                job.concrete += 1


def jobs(W, tier):
    out = many(tier)
    quick = ((1000, .0885), (1000, .9115), (1001, .25), (10 ** 6, .3), (10 ** 9, .7), (10 ** 9, 1e-7))
    for n, pr in quick if tier == 'quick' else quick + ((10 ** 5, .00081), (2500, .55), (1500, .15), (4000, .5), (10 ** 4, .99), (2 ** 33, .5), (2 ** 33, 2 ** -20)):
        for d in BINS if tier != 'quick' or n == 1001 else BINS[:1]:
            for z in (-5, -3.5, 0, 1, 4) if tier == 'quick' else (-5, -4, -3, -2, -1, 0, 1, 2, 3, 4, 5):
                out.append(expansion(n, pr, d, z, 3, 0 if abs(z) < 2.9 else mpf('.02') if abs(z) < 4.7 else mpf('.1')))
    small = ((10 ** 6, 2.5e-5), (3666, .9810204628647335), (1000, .04), (10 ** 9, 6.66e-9))
    for n, pr in small if tier == 'quick' else small + ((1024, .009765625), (1001, .5 ** 9), (10 ** 5, 7e-4), (2000, .97)):
        for d in BINS if tier != 'quick' or n == 1000 else BINS[:1]:
            for z in (-2, 0, 1, 3):
                out.append(newton(n, pr, d, z, 3))
    out.append(newton(10 ** 6, 2.5e-5, BINS[0], 0, 2, True))
    return out
