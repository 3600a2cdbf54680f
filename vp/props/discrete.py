"""Obligations about the discrete distributions shared by several properties."""
from .common import *
from ..rel import *
from .. import calc, smt

CAT_Q, CAT_T = range(2, 6), range(2, 8)


def cats(tier, lo=2):
    return [Categorical(k) for k in (CAT_Q if tier == 'quick' else CAT_T)]


class CatMass:
    """mass(k) of a categorical distribution with the index in the argument list."""


def catjobs(op, tier, arg=None, signs=None, assume=(), kind='f', rng=None, opts=False):
    out = []
    for d in cats(tier):
        for g in d.regions:
            if op == 'mass':
                for k in range(d.k):
                    R = g.plus([k])
                    out.append(eqjob('categorical(%d).mass(%d)' % (d.k, k), 'categorical__mass', R, lambda A, d=d: d.mass(A[:2], A[2])))
            elif arg:
                R = g.plus([var(arg)], signs=signs, assume=assume)
                out.append(eqjob('categorical(%d).%s' % (d.k, op), 'categorical__' + op, R, lambda A, d=d: getattr(d, op)(A[:2], A[2]), kind, ranges=rng, **({'split': d.k} if opts else {})))
    return out


# ---------------------------------------------------------------- binomial masses
BM = {'binomial': lambda A: (A[1], 1 - A[1]), 'binomial_f': lambda A: (1 - A[1], A[1])}


def windows(n, x):
    """Where neither deviance takes its series: p above or below everything near x / n."""
    out = []
    if x * 10 <= 8 * n:
        lo = max(1 - Fr(8, 10) * (1 - Fr(x, n)), Fr(125, 100) * Fr(x, n))
        if lo < 1:
            out.append([lt(rat(lo), p), lt(p, r(1))])
    if (n - x) * 10 <= 8 * n:
        hi = min(Fr(8, 10) * Fr(x, n), 1 - Fr(125, 100) * (1 - Fr(x, n)))
        if hi > 0:
            out.append([lt(r(0), p), lt(p, rat(hi))])
    return out


def massjob(n, x, series, entry='binomial', tol=None):
    """ln(mass / (C(n,x) p^x q^(n-x))) has a vanishing derivative on every path, and is small at one point of it."""
    d = BYNAME[entry]

    def f(job):
        for pre in [[]] if series else windows(n, x):
            one_window(job, d, n, x, pre, tol)
    return ('%s mass(n=%d, x=%d)%s' % (entry, n, x, ' every p' if series else ''), f, None)


def one_window(job, d, n, x, pre, tol):
    R = Region([n, p, x], {'p': 'pos'}, [lt(p, r(1))] + pre)
    ctx = job.ctx(R)
    entry = d.name + '__mass'
    spec = (lambda A: d.mass(A[:2], A[2])) if tol is None else \
        (lambda A: [(c, ('near', v, rat(Fr(tol)) * v)) for c, v in d.mass(A[:2], A[2])])
    try:
        paths = job.exec(ctx, entry, R.args, max_paths=250)
    except (symex.SymError, Unsupported, Blowup, llir.IRError) as e:
        job.undecided.append('%s: not encoded: %s' % (entry, e))
        hunt(job, entry, R, spec, 'f', R.args, None, None, {'p': (1e-9, 1 - 1e-9)})
        return
    P, Q = d.pp(R.args), d.qq(R.args)
    for q in paths:
        if job.left() < 0:
            job.undecided.append('out of time')
            return
        bad = q.kind != 'ret'
        if not bad:
            try:
                V = q.ret
                # (p q / n) d/dp ln(value / specification)
                E = calc.logdiff(V, 'p') * (p * (1 - p)) / n - (x * (1 - p) - (n - x) * p if P is p else (n - x) * (1 - p) - x * p) / r(n)
                for g in (E, -E):
                    res, m = ctx.check(q.pc + [lt(const(1e-11), g)], timeout=20, model=True)
                    if res == 'unsat':
                        job.proved += 1
                    else:
                        bad = True
            except (Unsupported, Blowup, ZeroDivisionError, calc.NoDerivative) as e:
                bad = True
        s, m = ctx.check(q.pc, timeout=5, model=True)
        if s == 'unsat':
            continue
        n0 = len(job.violations)
        if s == 'sat':
            env = job.env_of(m, R)
            if not try_point(job, entry, R, spec, 'f', R.args, env, 'mass at one point of the path'):
                job.concrete += 1
                fine(job, ctx, d, n, x, R, q, env)
        if bad and len(job.violations) == n0:
            hunt(job, entry, R, spec, 'f', R.args, q, None, {'p': (1e-9, 1 - 1e-9)})
            if len(job.violations) == n0:
                job.undecided.append('%s(n=%d, x=%d): derivative not bounded on {%s}' % (entry, n, x, '; '.join(str(c)[:60] for c in q.pc)))
    job.sample('%s(n=%d, p, x=%d): %d paths; |p q d/dp ln(mass / exact)| <= 1e-11 n on each' % (entry, n, x, len(paths)))


def exact_mass(d, n, x, z):
    with mpmath.workdps(40):
        P, Q = (mpf(z), 1 - mpf(z)) if d.name == 'binomial' else (1 - mpf(z), mpf(z))
        l = mpmath.loggamma(n + 1) - mpmath.loggamma(x + 1) - mpmath.loggamma(n - x + 1) + x * mpmath.log(P) + (n - x) * mpmath.log(Q)
        return l, P, Q


def fine(job, ctx, d, n, x, R, q, env):
    """The formula itself, evaluated without rounding at a solver-chosen point of the path, is exact to 1e-15; if not, the
    compiled code is held to what rounding the terms of the saddle-point expansion costs."""
    try:
        z = mpev.fev(p, env)
        if not 0 < z < 1:
            return
        l, P, Q = exact_mass(d, n, x, z)
        with mpmath.workdps(40):
            v, _ = mpev.ev(q.ret, {'p': Fr(z)})
            off = abs(mpmath.log(v) - l)
    except (mpev.Undef, ValueError, OverflowError, ZeroDivisionError, KeyError, mpmath.libmp.NoConvergence):
        return
    # constants of the code carry sixteen digits
    if off < mpf('1e-15') * (8 + (abs(x * mpmath.log(x / (n * P))) + abs((n - x) * mpmath.log((n - x) / (n * Q))))):
        job.proved += 1
        return
    n0, k0 = len(job.violations), len(job.known)
    zs = [z] + [float(Fr(x, n) * Fr(k, 16)) for k in (16, 15, 17, 12, 20, 8)]
    for z in zs:
        if d.name != 'binomial':
            z = 1 - z
        if not 0 < z < 1 or len(job.violations) > n0:
            continue
        l, P, Q = exact_mass(d, n, x, z)
        if l < -690:
            continue
        res = job.call(d.name + '__mass', [n, z, x])
        w = mpmath.exp(l)
        size = 4 + abs(x * mpmath.log(x / (n * P))) + abs((n - x) * mpmath.log((n - x) / (n * Q))) + 2 * abs(x - n * P)
        tol = 8 * mpf(2) ** -53 * (size + n * mpf(2) ** -53 / min(P, Q))
        if res[0] != 'ok' or not abs(mpf(res[1]) / w - 1) <= tol:
            job.violate(d.name + '__mass', [n, z, x], None, res[1] if res[0] == 'ok' else res[0], mpmath.nstr(w, 17), 'mass')
    if len(job.violations) == n0 and len(job.known) == k0:
        job.undecided.append('%s__mass(n=%d, x=%d): the formula is off by %s, within what rounding may cost' % (d.name, n, x, mpmath.nstr(off, 3)))


def hard(job, entry, R, spec):
    """Replay a grid of every-day points (used where no path could be encoded)."""
    hunt(job, entry, R, spec, 'f', R.args, None, None, {'p': (1e-9, 1 - 1e-9)})


def bernoulli_mass():
    out = []
    for d in (BYNAME['bernoulli'], BYNAME['bernoulli_f']):
        for g in d.regions:
            k = ivar('k', 64, 0, 255)
            R = g.plus([k], ints=['k'])
            out.append(eqjob('%s.mass' % d.name, d.name + '__mass', R, lambda A, d=d: d.mass(A[:1], A[1])))
    return out


def binomial_edge_masses():
    out = []
    x = ivar('x', 64, 0, 2 * 10 ** 9)
    for d in (BYNAME['binomial'], BYNAME['binomial_f']):
        g = d.regions[0]
        sp = lambda A, d=d: d.mass(A[:2], A[2])
        out.append(eqjob('%s mass(0)' % d.name, d.name + '__mass', g.plus([0]), lambda A, d=d: one(exp(d.n(A) * ln(d.qq(A))))))
        out.append(eqjob('%s mass(n)' % d.name, d.name + '__mass', Region([NI, g.args[1], NI], g.signs, g.assume, ints=['n']), lambda A, d=d: one(exp(d.n(A) * ln(d.pp(A))))))
        out.append(eqjob('%s mass beyond n' % d.name, d.name + '__mass', g.plus([x], assume=[mkc('ilt', NI, x)], ints=['x']), lambda A: one(r(0))))
    return out


def masses(tier):
    """(n, x) pairs: all of the small ones, and both sides of every switch of the Stirling error."""
    small = 8 if tier == 'quick' else 40
    pairs = [(n, x) for n in range(2, small + 1) for x in range(1, n)]
    marks = [1, 15, 16, 35, 36, 80, 81, 500, 501, 10 ** 6, 10 ** 9]
    other = (4, 12, 20, 50, 200, 1000) if tier == 'quick' else marks + [17, 34, 37, 79, 82, 499, 502, 10 ** 4]
    pairs += [(a + b, b if (i + j) % 2 else a) for i, a in enumerate(marks) for j, b in enumerate(other) if a + b > small and (tier != 'quick' or (i + j) % 3 == 0)]
    pairs += [(9 + i, i + 1) for i in range(8)] if tier == 'quick' else []
    return pairs


def massjobs(tier):
    out = []
    ps = masses(tier)
    # groups keep the number of jobs small

    def group(l):
        def f(job):
            for n, x in l:
                if job.left() < 5:
                    job.undecided.append('out of time at n=%d x=%d' % (n, x))
                    return
                for d in ('binomial', 'binomial_f') if (n + x) % 5 == 0 else ('binomial',):
                    massjob(n, x, False, d)[1](job)
        return ('binomial masses away from n p, (n, x) = %s ..' % (l[0],), f, None)
    k = 24
    out += [group(ps[i::k]) for i in range(k)]
    ser = [(2, 1), (5, 2), (30, 12)] if tier == 'quick' else [(n, x) for n in (2, 3, 4, 5, 8, 12, 30, 100, 1000) for x in sorted({1, n // 3, n // 2, n - 1}) if 0 < x < n]
    out += [massjob(n, x, True) for n, x in ser]
    return out


# ---------------------------------------------------------------- binomial, a given number of trials and every probability
BINS = (BYNAME['binomial'], BYNAME['binomial_f'])


def bin_region(n, eps=None):
    return Region([n, p], {'p': 'pos'}, [lt(p, r(1))] + ([le(rat(eps), p), le(p, rat(1 - eps))] if eps else []))


def bin_medians(tier):
    out = []
    for n in range(1, 8 if tier == 'quick' else 13):
        for d in BINS:
            out.append(eqjob('%s.median(n=%d)' % (d.name, n), d.name + '__median', bin_region(n), d.median_n, split=n + 1, ranges={'p': (1e-6, 1 - 1e-6)}))
    return out


def bin_entropies(tier):
    """The entropy is the one of the masses the object reports, and the documented approximation for many trials."""
    out = []
    for d in BINS:
        def many(job, d=d):
            g = d.regions[0]
            A = [ivar('many', 64, 10001, 10 ** 9), g.args[1]]
            R = Region(A, g.signs, g.assume + [lt(r(80), d.n(A) * d.pp(A) * d.qq(A))], ints=['many'])
            equal(job, d.name + '__entropy', R, lambda A: one((1 + ln(2 * PI * d.n(A) * d.pp(A) * d.qq(A))) / 2))
        out.append(('%s.entropy, many trials' % d.name, many, None))
        for n in (1, 2, 3, 4) if tier == 'quick' else range(1, 9):
            for i, wnd in enumerate(common_windows(n)):
                def few(job, d=d, n=n, wnd=wnd):
                    R = Region([n, p], {'p': 'pos'}, [lt(p, r(1))] + wnd)
                    runs = [Run(d.name + '__mass', lambda A, v, k=k: [n, A[1], k]) for k in range(n + 1)] + [Run(d.name + '__entropy', lambda A, v: [n, A[1]])]

                    def claims(A, v):
                        t = r(0)
                        for m in v[:-1]:
                            t = t - m * ln(m)
                        return [Claim('eq', v[-1], t, 'entropy is that of the masses')]
                    relate(job, R, runs, claims, ranges={'p': (1e-4, 1 - 1e-4)})
                out.append(('%s.entropy(n=%d)[%d]' % (d.name, n, i), few, None))
    return out


def common_windows(n):
    """Windows of p in which no mass of n trials takes a series."""
    if n == 1:
        return [[]]
    lo = max(max(Fr(125, 100) * Fr(x, n), 1 - Fr(8, 10) * (1 - Fr(x, n))) for x in range(1, n))
    hi = min(min(Fr(8, 10) * Fr(x, n), 1 - Fr(125, 100) * (1 - Fr(x, n))) for x in range(1, n))
    return ([[lt(rat(lo), p), lt(p, r(1))]] if lo < 1 else []) + ([[lt(p, rat(hi))]] if hi > 0 else [])


def exact_entropy(n, P, Q):
    """In nats, 30 digits; the masses beyond 60 deviations of the mean are below 1e-100."""
    with mpmath.workdps(30):
        m, w = n * P, 60 * mpmath.sqrt(n * P * Q) + 400
        t = mpf(0)
        x = max(0, int(m - w))
        lp, lq = mpmath.log(P), mpmath.log(Q)
        l = mpmath.loggamma(n + 1) - mpmath.loggamma(x + 1) - mpmath.loggamma(n - x + 1) + x * lp + (n - x) * lq
        while True:
            t -= mpmath.exp(l) * l
            if x >= min(n, int(m + w)):
                return t
            l += mpmath.log(mpf(n - x) / (x + 1)) + lp - lq
            x += 1


def bin_shortcuts(tier):
    """Where the sum over the masses is documented, an answer found without summing is still the entropy."""
    out = []
    for d in BINS:
        for name, lo, hi, few in (('up to 10000 trials', 20, 10000, False), ('more than 10000 trials and n p q <= 80', 10001, 10 ** 9, True)):
            def f(job, d=d, lo=lo, hi=hi, few=few):
                N = ivar('n%d' % lo, 64, lo, hi)
                A = [N, d.regions[0].args[1]]
                v = mk('i2f', N) * d.pp(A) * d.qq(A)
                R = Region(A, d.regions[0].signs, d.regions[0].assume + ([le(v, r(80))] if few else []), ints=[N.a[0]])
                ctx = job.ctx(R)
                entry = d.name + '__entropy'
                ps = job.exec(ctx, entry, A, max_steps=100, max_paths=40, soft=True)
                for q in ps:
                    n0 = len(job.violations)
                    # both ends of every path: the answer, or the sum that is under way there
                    size = [mkc('ilt', N, lo + 3 * lo)] if q.kind != 'ret' else []
                    for extra in ([], [lt(r(40), v)], [lt(v, r(1))], [lt(d.pp(A), r(1, 1000))], [lt(d.qq(A), r(1, 1000))], [lt(r(1, 4), d.pp(A)), lt(d.pp(A), r(3, 4))], [mkc('ilt', 2 * lo, N)])[:7 if q.kind == 'ret' or tier != 'quick' else 3]:
                        s, m = ctx.check(q.pc + size + extra, timeout=2, model=True)
                        if s == 'sat':
                            env = job.env_of(m, R)
                            entropy_point(job, entry, d, job.conc(A, env))
                        if len(job.violations) > n0:
                            break
                    if q.kind != 'ret':
                        job.proved += 1         # no answer without the sum on this path
                    elif len(job.violations) == n0:
                        s, _ = ctx.check(q.pc, timeout=5)
                        if s != 'unsat':
                            job.undecided.append('%s: an answer without summing that no replay refutes: %s on %s' % (entry, str(q.ret)[:80], q.pc))
                job.sample('%s, %d <= n <= %d: %d paths, none answers before the first mass is added' % (entry, lo, hi, len(ps)))
            out.append(('%s.entropy, %s' % (d.name, name), f, None))
    return out


def entropy_point(job, entry, d, cargs):
    n, z = cargs
    if not 0 < z < 1 or z == 1.0:
        return
    P, Q = (mpf(z), 1 - mpf(z)) if entry[8:10] != '_f' else (1 - mpf(z), mpf(z))
    w = exact_entropy(n, P, Q)
    res = job.call(entry, cargs)
    # what rounding leaves of the smaller probability, of a sum of n terms, and of their logarithms
    tol = mpf(2) ** -52 * (n * mpf(2) ** -2 / min(P, Q) ** mpf('.5') + 64 * n) + mpf('1e-10') * (1 + w)
    if res[0] != 'ok' or not abs(mpf(res[1]) - w) <= tol:
        job.violate(entry, cargs, None, res[1] if res[0] == 'ok' else res[0], mpmath.nstr(w, 15), 'entropy')
