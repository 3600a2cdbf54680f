"""Quantiles of continuous distributions."""
from .common import *
from ..rel import *
from .. import calc, smt
BOUNDS = ('every parameter in the constructors\' domains and every p in [0, 1] (real-valued); normal quantile: every double p in (0, 1); '
          'beta and PERT quantiles: the library\'s inverse of the incomplete beta function is taken as its specification')
ASSUMPTIONS = ASSUME + ['a function whose logarithmic derivative is within 1e-10 of that of the normal quantile on an interval and which agrees at one end differs by the integrated bound']
EPS = 1e-10


def normal_quantile(job):
    """X(p) = quantile of N(0,1): the solver bounds |d/ds ln(phi(X(s)) X'(s)/p'(s))| on every path.

    The tails are parametrised by p = exp(-s^2) or 1 - exp(-s^2), the middle by p = 1/2 + s, so that every path is a rational function of s.
    """
    t, s = var('t'), var('s')
    R = Region([r(0), r(1), t], {'t': 'pos'}, [lt(t, r(1))])
    ctx = job.ctx(R)
    try:
        paths = job.exec(ctx, 'gaussian__inverse', [const(0.0), const(1.0), t])
    except (symex.SymError, Unsupported, Blowup, llir.IRError) as e:
        job.undecided.append('not encoded: %s' % e)
        paths = []
    for p in paths:
        if p.kind != 'ret' or not isinstance(p.ret, T):
            if ctx.check(p.pc, timeout=5)[0] != 'unsat':
                job.undecided.append('path without a value: %s %s' % (p.kind, p.info))
            continue
        if p.ret.op == 'const':
            # a literal: only at a single point (checked by the other obligations)
            if ctx.check(p.pc, timeout=5)[0] != 'unsat':
                job.undecided.append('constant quantile on a path')
            continue
        done = False
        for sub, sg, tail in ((H + s, {}, None), (exp(-(s * s)), {'s': 'pos'}, 1), (1 - exp(-(s * s)), {'s': 'pos'}, -1)):
            try:
                X = calc.subst(p.ret, {'t': sub})
                pc = [calc.subst(c, {'t': sub}) for c in p.pc]
                c2 = smt.Ctx(job.W.lib, sg, [])
                job.ctxs.append(c2)
                nf = c2.N.nf(X)
                if any(c2.N.atoms[a].kind != 'var' for q in [nf.n] + [dict(k) for k, _ in nf.d] for m in q for a, _ in m):
                    continue
                X1 = calc.diff(X, 's')
                E = calc.diff(X1, 's') / X1 - X * X1
                if tail:
                    E = E - 1 / s + 2 * s
                    pc = pc + [lt(s, r(273, 10) if tail == 1 else r(7))]
                nf = c2.N.nf(E)
                if any(c2.N.atoms[a].kind != 'var' for q in [nf.n] + [dict(k) for k, _ in nf.d] for m in q for a, _ in m):
                    continue
            except (Unsupported, Blowup, ZeroDivisionError, calc.NoDerivative):
                continue
            done = True
            for g in (E, -E):
                res, m = c2.check(pc + [lt(const(EPS), g)], timeout=40, model=True)
                if res == 'unsat':
                    job.proved += 1
                    continue
                n0 = len(job.violations)
                if res == 'sat' and m:
                    sv = m.get('s', Fr(1))
                    for d in (Fr(0), Fr(1, 100), Fr(-1, 100), Fr(1, 10), Fr(-1, 10)):
                        tv = mpev.ev(sub, {'s': sv + d})[0]
                        env = {'t': Fr(float(tv))} if 0 < float(tv) < 1 else None
                        if env and try_point(job, 'gaussian__inverse', R, lambda A: BYNAME['gaussian'].inverse(A[:2], A[2]), 'f', R.args, env, 'normal quantile'):
                            break
                if len(job.violations) == n0:
                    job.undecided.append('normal quantile residual (%s) on {%s}' % (res, '; '.join(map(str, p.pc))))
            # the initial values, in 50-digit arithmetic on the exact coefficients
            try:
                ends(job, c2, X, X1, sub, pc, tail)
            except (mpev.Undef, ValueError, ZeroDivisionError) as e:
                job.undecided.append('initial value: %s' % e)
            break
        if not done:
            job.undecided.append('normal quantile: no rational form on {%s}' % '; '.join(map(str, p.pc)))
    # the same points the paths are glued at, on the real code
    pts = [0.5, 0.075, 0.925, math.exp(-25), 1 - math.exp(-25), 1e-300, 5e-324, 1e-16, 1 - 2 ** -53] + [i / 64 for i in range(1, 64)] + [10.0 ** -k for k in range(1, 300, 7)]
    for q in pts + [math.nextafter(q, 0) for q in pts] + [math.nextafter(q, 1) for q in pts]:
        if 0 < q < 1:
            try_point(job, 'gaussian__inverse', R, lambda A: BYNAME['gaussian'].inverse(A[:2], A[2]), 'f', R.args, {'t': Fr(q)}, 'normal quantile')


def ends(job, c2, X, X1, sub, pc, tail):
    """ln(phi(X) X' / p') at both ends of the path's range of s, and Phi(X) = p at the outer one."""
    lo, hi = (mpf(0), mpf('27.3')) if tail else (mpf('-0.5'), mpf('0.5'))
    grid_ = [lo + (hi - lo) * i / 4000 for i in range(1, 4000)]
    ok = [v for v in grid_ if all(mpev.evc(c, {'s': v}) for c in pc)]
    if not ok:
        return
    tol = mpf('1e-8')
    for v in (ok[0], ok[-1]):
        x, x1 = mpev.ev(X, {'s': v})[0], mpev.ev(X1, {'s': v})[0]
        lnd = -x * x / 2 - mpmath.log(2 * mpmath.pi) / 2 + mpmath.log(abs(x1))
        lnp = mpmath.log(2 * v) - v * v if tail else mpf(0)
        q = mpmath.erfc(abs(x) / mpmath.sqrt(2)) / 2
        want = mpmath.exp(-v * v) if tail else mpf(1) / 2 - abs(v)
        good = abs(lnd - lnp) <= tol and abs(q / want - 1) <= tol and (x < 0) == ((tail == 1) if tail else v < 0)
        job.concrete += 1
        if not good:
            tv = float(mpev.ev(sub, {'s': v})[0])
            R = Region([r(0), r(1), var('t')], {'t': 'pos'}, [])
            if not (0 < tv < 1 and try_point(job, 'gaussian__inverse', R, lambda A: BYNAME['gaussian'].inverse(A[:2], A[2]), 'f', R.args, {'t': Fr(tv)}, 'normal quantile')):
                job.undecided.append('normal quantile: value at s = %s' % mpmath.nstr(v, 6))


def affine(job):
    """Normal quantile with parameters = mu + sigma X; lognormal = exp of that."""
    t = var('t')
    R = Region([a, b, t], {'b': 'pos', 't': 'nonneg'}, [le(t, r(1))])
    relate(job, R, [Run('gaussian__inverse', lambda A, v: A), Run('gaussian__inverse', lambda A, v: [const(0.0), const(1.0), A[2]])],
           lambda A, v: [Claim('eq', v[0], v[1] if v[1].op == 'const' and math.isinf(v[1].cv) else A[0] + A[1] * v[1], 'quantile = mu + sigma X')])


def lognorm(job):
    t = var('t')
    R = Region([a, b, t], {'b': 'pos', 't': 'nonneg'}, [le(t, r(1))])

    def claim(A, v):
        x = v[1]
        if x.op == 'const' and math.isinf(x.cv):
            w = INF if x.cv > 0 else r(0)
        else:
            w = exp(x)
        return [Claim('eq', v[0], w, 'lognormal quantile = exp(normal quantile)')]
    relate(job, R, [Run('lognormal__inverse', lambda A, v: A), Run('gaussian__inverse', lambda A, v: A)], claim)


def roundtrip(d, g):
    """The code's own CDF at the code's own quantile."""
    n = len(g.args)
    t = var('t')
    R = g.plus([t], {'t': 'pos'}, [lt(t, r(1))])

    def sens(job, done, vals):
        # how far the CDF moves when the quantile moves by its own rounding
        (e, ca), (e2, ca2) = done
        q = ca2[-1]
        w = (1e-14 if d.name not in ('beta', 'pert') else 1e-6) * (abs(q) + sum(abs(x) for x in ca if isinstance(x, float)))
        fs = [job.call(e2, ca2[:-1] + [q + s_ * w])[1] for s_ in (-1, 1)]
        return mpf(abs(fs[1] - fs[0])) + mpf('1e-9')

    def f(job):
        relate(job, R, [Run(d.name + '__inverse', lambda A, v: A), Run(d.name + '__distribution', lambda A, v: A[:n] + [v[0]])],
               lambda A, v: [Claim('eq', v[1], A[n], 'CDF(quantile(p)) = p', tol=sens)])
    return ('%s roundtrip' % d.name, f, None)


def monotone(d, g):
    n = len(g.args)
    t, e = var('t'), var('e')
    R = g.plus([t, e], {'t': 'nonneg', 'e': 'pos'}, [le(t + e, r(1))])

    def f(job):
        relate(job, R, [Run(d.name + '__inverse', lambda A, v: A[:n + 1]), Run(d.name + '__inverse', lambda A, v: A[:n] + [A[n] + A[n + 1]])],
               lambda A, v: [Claim('le', v[0], v[1], 'quantiles do not decrease')], probes=False)
    return ('%s monotone' % d.name, f, None)


def jobs(W, tier):
    direct = [d for d in S.CONT if d.name not in ('gaussian', 'lognormal')]
    out = fnjobs('inverse', dists=direct, arg='t', signs={'t': 'nonneg'}, assume=[le(t, r(1))])
    out += [('gaussian quantile function', normal_quantile, None), ('gaussian affine', affine, None), ('lognormal', lognorm, None)]
    for d in direct:
        if d.inverse is None:
            continue
        for g in d.regions:
            out += [roundtrip(d, g), monotone(d, g)]
    return out


t = var('t')
