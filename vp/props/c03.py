"""The density is the derivative of the distribution function, the masses are its steps."""
from .discrete import *
from ..rel import *
from ..rel import errs, resolved
BOUNDS = ('continuous: every parameter vector and every x other than the ends of the support; categorical: 2 to 5 (thorough 7) categories, every x; Bernoulli: every x; '
          'binomial: up to 5 (thorough 9) trials with p where no mass takes a series, and every p for the pairs listed; symbolic n for the mass at 0 and n')
ASSUMPTIONS = ASSUME + ['the derivatives of the incomplete beta and gamma functions and of erf are the textbook ones',
                        'a binomial mass whose logarithmic derivative in p is that of the law and which agrees at one point of a path agrees on the path']


def smooth(d, i, g):
    name = '%s density is the derivative[%d]' % (d.name, i)

    def f(job):
        lo, hi = d.support(g.args)
        R = g.plus([x], assume=[ne(x, z) for z in (lo, hi) if z is not None])
        ctx = job.ctx(R)
        e1, e2 = d.name + '__distribution', d.name + '__density'
        try:
            combos = [(dedup(q.pc + z.pc), q, z) for q in job.exec(ctx, e1, R.args) for z in job.exec(ctx, e2, R.args, pre=q.pc)]
        except (symex.SymError, Unsupported, Blowup, llir.IRError) as e:
            job.undecided.append('%s: not encoded: %s' % (d.name, e))
            return
        for pc, q, z in combos:
            if q.kind != 'ret' or z.kind != 'ret':
                s, _ = ctx.check(pc, timeout=5)
                if s != 'unsat':
                    job.undecided.append('%s: a path without a result' % d.name)
                continue
            try:
                dF = calc.diff(q.ret, 'x') if isinstance(q.ret, T) else r(0)
                res, m = ctx.check(pc + [K.neq(z.ret, dF)], timeout=20, model=True)
            except (Unsupported, Blowup, ZeroDivisionError, calc.NoDerivative) as e:
                res, m, dF = 'unknown', None, None
            n0 = len(job.violations) + len(job.known)
            if res == 'unsat':
                job.proved += 1
                job.sample('%s: on {%s} the derivative of the distribution path is the density path' % (d.name, '; '.join(str(c)[:80] for c in pc) or 'every input'))
            elif dF is not None:
                # models first, then points of the path
                for extra in [[]] + K.probe_conds(R)[:12]:
                    s, m = ctx.check(pc + [K.neq(z.ret, dF)] + extra, timeout=2, model=True)
                    if s == 'sat' and at(job, R, e1, e2, pc, q.ret, dF, z.ret, job.env_of(m, R)):
                        break
                else:
                    for env in K.grid(R, 600):
                        if job.left() < 5 or at(job, R, e1, e2, pc, q.ret, dF, z.ret, env):
                            break
            if res != 'unsat' and len(job.violations) + len(job.known) == n0:
                job.undecided.append('%s: derivative (%s) on {%s}' % (d.name, res, '; '.join(str(c)[:100] for c in pc)))
            if dF is not None:
                for extra in [[]] + K.probe_conds(R)[:6]:
                    s, m = ctx.check(pc + extra, timeout=0.7, model=True)
                    if s == 'sat' and at(job, R, e1, e2, pc, q.ret, dF, z.ret, job.env_of(m, R)):
                        break
    return (name, f, None)


def at(job, R, e1, e2, pc, F, dF, f, env):
    """Replay: the compiled distribution follows the path there, and the compiled density is not the path's derivative."""
    try:
        for k, v in env.items():
            if isinstance(v, Fr):
                env = dict(env, **{k: Fr(float(v))})
        cargs = job.conc(R.args, env)
        if not resolved(R.args, cargs, env) or not all(mpev.evc(c, env) for c in list(R.assume) + pc) or not all(mpev.evd(c, env) for c in pc):
            return False
        a, b = job.call(e1, cargs), job.call(e2, cargs)
        if a[0] != 'ok' or b[0] != 'ok':
            return False        # under C17
        v, e = K.numeric(F, env)
        if not abs(mpf(a[1]) - v) <= K.UNIT * (e + abs(v)):
            return False
        w, ew = K.numeric(dF, env)
        ew += errs(f, env)
        if b[1] != b[1] or not abs(mpf(b[1]) - w) <= K.UNIT * (ew + abs(w)) + mpf('1e-300'):
            job.violate(e2, cargs, None, b[1], mpmath.nstr(w, 17), 'the derivative of %s at the same point' % e1)
            return True
    except (mpev.Undef, ValueError, OverflowError, ZeroDivisionError, mpmath.libmp.NoConvergence, KeyError, TypeError):
        return False
    return False


# ---------------------------------------------------------------- steps

def steps(d, g, n):
    """n + 1 values: between j and j + 1 the distribution function is the sum of the first j + 1 masses."""
    out = []
    at_ = len(g.args)
    for j in range(-1, n + 1):
        def f(job, j=j):
            R = g.plus([x], assume=([le(r(j), x)] if j >= 0 else []) + ([lt(x, r(j + 1))] if j < n else []))
            runs = [Run(d.name + '__mass', lambda A, v, i=i: A[:at_] + [i]) for i in range(j + 1)] + [Run(d.name + '__distribution', lambda A, v: list(A))]

            def claims(A, v):
                t = r(0)
                for z in v[:-1]:
                    t = t + z
                cl = [Claim('eq', v[-1], t, 'the sum of the masses up to x')]
                return cl + ([Claim('eq', t, r(1), 'the masses sum to one')] if j == n else [])
            relate(job, R, runs, claims, split=getattr(d, 'k', 0), ranges={'p': (0, 1), 'x': (max(j, -3), j + 1 if j < n else n + 4)})
        out.append(('%s%s steps at %d' % (d.name, '(%d)' % d.k if hasattr(d, 'k') else '', j), f, None))
    return out


def number(t, j):
    """The value of a term which depends on x in [j, j + 1) only through its integer part, or None."""
    def ok(z):
        if isinstance(z, int) or isinstance(z, IT) and z.op == 'ffloor' and z.a[0] is x:
            return True
        return (isinstance(z, IT) and z.op in ('iadd', 'isub', 'imul') or isinstance(z, T) and z.op in ('const', 'rat', 'i2f', 'add', 'sub', 'mul', 'neg')) and \
            all(ok(y) for y in z.a if isinstance(y, (T, IT)))
    return mpev.ev(t, {'x': Fr(j)})[0] if ok(t) else None


def polynomial(t, j):
    """Incomplete beta functions with small integer parameters, as polynomials."""
    memo = {}

    def go(t):
        if t.id in memo:
            return memo[t.id]
        k = tuple(go(z) if isinstance(z, T) else z for z in t.a)
        v = mk(t.op, *k) if any(isinstance(z, T) for z in t.a) else t
        ab = [number(z, j) for z in k[1:3]] if t.op == 'inc_beta' else [None]
        if all(z is not None and z == int(z) and 0 < z < 64 for z in ab):
            a_, b_ = map(int, ab)
            N = a_ + b_ - 1
            v = r(0)
            for i in range(a_, N + 1):
                v = v + r(math.comb(N, i)) * k[0] ** i * (1 - k[0]) ** (N - i)
        memo[t.id] = v
        return v
    return go(t)


def trials(d, n, j):
    """The distribution function between j and j + 1 is the polynomial of the first j + 1 masses."""
    def f(job):
        R = Region([n, p, x], {'p': 'pos'}, [lt(p, r(1)), le(r(j), x), lt(x, r(j + 1))])
        ctx = job.ctx(R)
        want = d.cdf([n, p], j)
        n0 = len(job.violations) + len(job.known)
        try:
            ps = job.exec(ctx, d.name + '__distribution', R.args)
            for q in ps:
                res, m = ctx.check(q.pc + [K.neq(polynomial(q.ret, j), want)] if q.kind == 'ret' else q.pc, timeout=10)
                if res == 'unsat':
                    job.proved += 1
                    job.sample('%s(n=%d).distribution on [%d, %d): %s' % (d.name, n, j, j + 1, str(q.ret)[:100]))
                else:
                    sums(job, d, n, j)
                    if len(job.violations) + len(job.known) == n0:
                        job.undecided.append('%s(n=%d).distribution on [%d, %d)' % (d.name, n, j, j + 1))
        except (symex.SymError, Unsupported, Blowup, llir.IRError) as e:
            job.undecided.append('%s: not encoded: %s' % (d.name, e))
            sums(job, d, n, j)
        if 0 < j < n:
            for pre in [[]] if (n, j) in ((2, 1), (5, 2)) else windows(n, j):
                flat(job, d, n, j, pre)
        sums(job, d, n, j)
    return ('%s(n=%d) steps at %d' % (d.name, n, j), f, None)


def flat(job, d, n, j, pre):
    """The mass at j is a constant multiple of p^j q^(n-j) on every path."""
    R = Region([n, p, j], {'p': 'pos'}, [lt(p, r(1))] + pre)
    ctx = job.ctx(R)
    n0 = len(job.violations) + len(job.known)
    try:
        paths = job.exec(ctx, d.name + '__mass', R.args, max_paths=250)
    except (symex.SymError, Unsupported, Blowup, llir.IRError) as e:
        job.undecided.append('%s: not encoded: %s' % (d.name, e))
        return
    s1 = j if d.name == 'binomial' else n - j
    for q in paths:
        if job.left() < 0:
            job.undecided.append('out of time')
            return
        bad = q.kind != 'ret'
        try:
            E = None if bad else calc.diff(q.ret, 'p') / q.ret * (p * (1 - p)) / n - (s1 * (1 - p) - (n - s1) * p) / r(n)
            for g in () if bad else (E, -E):
                if ctx.check(q.pc + [lt(const(1e-11), g)], timeout=20)[0] == 'unsat':
                    job.proved += 1
                else:
                    bad = True
        except (Unsupported, Blowup, ZeroDivisionError, calc.NoDerivative):
            bad = True
        s, m = ctx.check(q.pc, timeout=5, model=True)
        if s == 'sat':
            sums(job, d, n, j, [job.env_of(m, R)['p']])
        if bad and s != 'unsat':
            sums(job, d, n, j)
            if len(job.violations) + len(job.known) == n0:
                job.undecided.append('%s(n=%d).mass(%d) on {%s}' % (d.name, n, j, '; '.join(str(c)[:60] for c in q.pc)))


def sums(job, d, n, j, ps=None):
    """Replay: the compiled masses up to j add up to the compiled distribution function at j."""
    n0 = len(job.violations)
    for z in ps or [Fr(k, 32) for k in range(1, 32, 5)]:
        z = float(z)
        if not 1e-9 < z < 1 - 1e-9 or len(job.violations) > n0:
            continue
        ms = [job.call(d.name + '__mass', [n, z, i]) for i in range(j + 1)]
        F = job.call(d.name + '__distribution', [n, z, j + 0.5])
        if any(m[0] != 'ok' for m in ms + [F]):
            continue
        t = math.fsum(m[1] for m in ms)
        if not abs(t - F[1]) <= 1e-11:
            job.violate(d.name + '__distribution', [n, z, j + 0.5], None, F[1], repr(t), 'the sum of the masses up to x')


def jobs(W, tier):
    out = []
    for d in S.DISTS:
        if not d.discrete and getattr(d, 'density', None) is not None:
            out += [smooth(d, i, g) for i, g in enumerate(d.regions)]
    for n_ in ('bernoulli', 'bernoulli_f'):
        out += steps(BYNAME[n_], BYNAME[n_].regions[0], 1)
    for d in cats(tier):
        out += steps(d, d.regions[0], d.k - 1)
    for d in BINS:
        for n in range(1, 6 if tier == 'quick' else 10):
            out += [trials(d, n, j) for j in range(n + 1)]
    return out
