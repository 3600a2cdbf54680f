"""Every operation returns a number on every valid input."""
from .discrete import *
from ..rel import resolved
from .zig import *
BOUNDS = ('every parameter vector and argument (both infinities included); shapes of beta laws in quantiles and medians between 1e-3 and 1e6 and probabilities not below 1e-100; categorical: 1 to 5 (thorough 7) categories; '
          'binomial: 0 to 6 (thorough 12) trials where an operation loops over them, a symbolic number up to 1e9 where it does not, the first steps of the Newton iteration for symbolic n, and replays at solver-chosen points of it and of the normal expansion; '
          'samplers: all contents of the first words (normal: every layer and sign, three words; gamma, beta, PERT: three layers)')
ASSUMPTIONS = ASSUME + ['functions of the special crate return for arguments within the bounds', 'intermediate results are real numbers: overflow is covered by replays at solver-chosen points between 1e-40 and 1e40']

lo_, hi_ = Fr(1, 1000), Fr(10 ** 6)
FINE = ('ret', 'draws')


def safe(job, entry, region, kind='f', extra=(), draws=None, far=True, soft=False, hunting=40, ranges=None, witness=True, **opts):
    from .. import samp
    G = samp.region_with(region, draws) if draws else region
    ctx = job.ctx(G)
    args = list(region.args) + list(extra)
    try:
        paths = job.exec(ctx, entry, args, **dict(opts, soft=soft, **({'draws': list(draws), 'max_draws': len(draws)} if draws else {})))
    except (symex.SymError, Unsupported, Blowup, llir.IRError) as e:
        job.undecided.append('%s: not encoded: %s' % (entry, e))
        for env in K.grid(G, 10 * hunting, ranges=ranges):
            if number_at(job, entry, G, kind, args, env, draws):
                return
        return
    for q in paths:
        if job.left() < 0:
            job.undecided.append('%s: out of time' % entry)
            return
        bad = q.kind not in FINE and not (soft and q.kind == 'limit')
        if q.kind == 'ret':
            v = K.path_value(kind, q)
            bad = v is None or any(isinstance(z, T) and z.op == 'const' and z.cv != z.cv for z in (v if isinstance(v, list) else [v]))
        if bad:
            n0 = len(job.violations) + len(job.known)
            for ex in [[]] + K.probe_conds(region)[:12]:
                s, m = ctx.check(q.pc + ex, timeout=5, model=True)
                if s == 'unsat' and not ex:
                    job.proved += 1
                    break
                if s == 'sat' and number_at(job, entry, G, kind, args, environment(job, m, G, draws), draws):
                    break
            else:
                hunt_path(job, entry, G, kind, args, q, draws, ranges)
                if len(job.violations) + len(job.known) == n0:
                    job.undecided.append('%s: %s (%s) on {%s}' % (entry, q.kind if q.kind != 'ret' else 'NaN', q.info, '; '.join(str(c)[:120] for c in q.pc)))
            continue
        job.proved += 1
        for ex in [] if not witness else [[]] + K.probe_conds(region)[:4] + (outlying(region) if far else []):
            if job.left() < 5:
                break
            s, m = ctx.check(q.pc + ex, timeout=0.7, model=True)
            if s == 'sat' and number_at(job, entry, G, kind, args, environment(job, m, G, draws), draws):
                break
    job.sample('%s: %d paths, each returns a number%s' % (entry, len(paths), ' or asks for more words' if draws else ''))


def outlying(region):
    """Far out, in one variable at a time."""
    out = []
    for n in K.free_vars(region):
        if n[0] == 'U' or n in region.ints:
            continue
        t = var(n)
        for z in (Fr(10 ** 40), Fr(1, 10 ** 40)):
            out.append([lt(rat(z), t), lt(t, rat(10 * z))])
            if n not in region.signs:
                out.append([lt(t, rat(-z)), lt(rat(-10 * z), t)])
    return out[:12]


def environment(job, m, G, draws):
    from .. import samp
    return samp.fill(m, G) if draws else job.env_of(m, G)


def hunt_path(job, entry, G, kind, args, q, draws, ranges):
    from .. import samp
    for env in K.grid(G, 300, ranges=ranges):
        try:
            e = samp.words(G, env)[1] if draws else env
            if all(mpev.evc(c, e) for c in list(G.assume) + q.pc) and number_at(job, entry, G, kind, args, env, draws):
                return
        except (mpev.Undef, ValueError, OverflowError, ZeroDivisionError, KeyError, mpmath.libmp.NoConvergence):
            continue


def number_at(job, entry, G, kind, args, env, draws=None):
    """Replay; True when the call does not return a number."""
    from .. import samp
    try:
        ws = None
        if draws:
            ws, env = samp.words(G, env)
        env = {k: Fr(float(v)) if isinstance(v, Fr) else v for k, v in env.items()}
        if not all(mpev.evc(c, env) for c in G.assume):
            return False
        cargs = job.conc(args, env)
        if not resolved(G.args, cargs, env):
            return False
        for z, y in zip(args, cargs):
            if isinstance(z, tuple) and z[0] == 'in' and not abs(math.fsum(y[1]) - 1) < 1e-13:
                return False
            if isinstance(z, T) and (y == 0) != (mpev.ev(z, env)[0] == 0):
                return False
    except (mpev.Undef, ValueError, OverflowError, ZeroDivisionError, KeyError, mpmath.libmp.NoConvergence):
        return False
    res = job.call(entry, cargs, ws) if ws is not None else job.call(entry, cargs)
    if res[0] == 'ok':
        v = K.nat_value(kind, res)
        if all(not isinstance(z, float) or z == z for z in (v if isinstance(v, list) else [v])):
            return False
        res = ('NaN',)
    elif res[0] == 'hang' and draws:
        return False        # the words repeat for ever: rejections may, too
    job.violate(entry, cargs, ws, res[0], 'a number', 'no number')
    return True


def job_of(name, entry, region, kind='f', **k):
    def f(job):
        safe(job, entry, region, kind, **k)
    return (name, f, None)


CONTOPS = ('mean', 'variance', 'deviation', 'skewness', 'kurtosis', 'entropy', 'median', 'modes', 'density', 'distribution', 'inverse')
PR = var('pr')


def continuous(tier):
    out = []
    for d in S.DISTS:
        if d.discrete:
            continue
        for op in CONTOPS:
            if getattr(d, op, None) is None and not (d.name == 'uniform' and op == 'modes'):
                continue
            if d.name == 'uniform' and op == 'modes':
                continue        # not defined
            for i, g in enumerate(d.regions):
                e = '%s__%s' % (d.name, op)
                name = '%s.%s[%d]' % (d.name, op, i)
                far = d.name not in ('beta', 'pert', 'lognormal', 'gamma')
                shapes = []
                if d.name == 'beta' and op in ('inverse', 'median'):
                    shapes = [c for z in g.args[:2] for c in (le(rat(lo_), z), le(z, rat(hi_)))]
                if op in ('density', 'distribution'):
                    out.append(job_of(name, e, g.plus([x]), far=far))
                    for v, t in ((INF, '+inf'), (NINF, '-inf')):
                        out.append(job_of('%s at %s' % (name, t), e, g.plus([v]), far=far))
                elif op == 'inverse':
                    R = g.plus([PR], {'pr': 'nonneg'}, [le(PR, r(1))] + shapes + ([cor(eq(PR, r(0)), le(rat(Fr(1, 10 ** 100)), PR))] if d.name in ('beta', 'pert') else []))
                    out.append(job_of(name, e, R, far=far, ranges={'pr': (0, 1)}))
                else:
                    R = g.plus([], {}, shapes)
                    out.append(job_of(name, e, R, 'modes_f' if op == 'modes' else 'f', extra=(('out', 16),) if op == 'modes' else (), far=far))
    return out


DISCOPS = ('mean', 'variance', 'deviation', 'skewness', 'kurtosis', 'entropy', 'median', 'modes', 'distribution', 'inverse')


def discrete(tier):
    out = []

    def ops(name, pre, g, only=DISCOPS, split=0, label=''):
        for op in only:
            e = '%s__%s' % (name, op)
            k = dict(split=split) if split else {}
            rg = {'p': (0, 1), 'pr': (0, 1)}
            if op == 'distribution':
                out.append(job_of('%s%s.%s' % (name, label, op), e, g.plus([x]), ranges=rg, far=False, **k))
                for v, t in ((INF, '+inf'), (NINF, '-inf')):
                    out.append(job_of('%s%s.%s at %s' % (name, label, op, t), e, g.plus([v]), ranges=rg, far=False, **k))
            elif op == 'inverse':
                out.append(job_of('%s%s.%s' % (name, label, op), e, g.plus([PR], {'pr': 'nonneg'}, [le(PR, r(1))]), 'i', ranges=rg, far=False, **k))
            else:
                R = g
                if op in ('skewness', 'kurtosis') and name == 'categorical':
                    # undefined when one category is certain
                    R = g.plus([], {}, [lt(q, r(1)) for q in g.args[0][1]])
                out.append(job_of('%s%s.%s' % (name, label, op), e, R, 'modes_i' if op == 'modes' else 'f', extra=(('out', 16),) if op == 'modes' else (), ranges=rg, far=False, **k))
    for d in (BYNAME['bernoulli'], BYNAME['bernoulli_f']):
        ops(d.name, [], d.regions[0])
        k = ivar('k', 8, 0, 255)
        out.append(job_of(d.name + '.mass', d.name + '__mass', d.regions[0].plus([k], ints=['k'])))
    one_ = Region([('in', [const(1.0)]), 1], text='one category')
    ops('categorical', [], one_, [o for o in DISCOPS if o not in ('skewness', 'kurtosis', 'distribution')], label='(1)')
    for v in (float('-inf'), -0.5, 0.0, 0.5, 1.0, 3.0, float('inf')):
        out.append(job_of('categorical(1).distribution(%s)' % v, 'categorical__distribution', one_.plus([const(v)]), far=False))
    out.append(job_of('categorical(1).mass', 'categorical__mass', one_.plus([0])))
    for d in cats(tier):
        ops('categorical', [], d.regions[0], split=d.k, label='(%d)' % d.k)
        for k in range(d.k):
            out.append(job_of('categorical(%d).mass(%d)' % (d.k, k), 'categorical__mass', d.regions[0].plus([k])))
    many = ivar('n', 64, 1, 10 ** 9)
    xx = ivar('x', 64, 0, 2 * 10 ** 9)
    for d in BINS:
        g = d.regions[0]
        ops(d.name, [], g, ('mean', 'variance', 'deviation', 'skewness', 'kurtosis', 'modes', 'distribution'))
        for n in range(0, 7 if tier == 'quick' else 13):
            lim = Region([n, p], {'p': 'pos'}, [lt(p, r(1)), le(rat(Fr(1, 2 ** 20)), p), le(p, rat(1 - Fr(1, 2 ** 20)))])
            full = ('mean', 'variance', 'deviation', 'modes', 'distribution') if n == 0 else ()
            ops(d.name, [], lim, full + ('median', 'inverse') + (('entropy',) if n < 3 else ()), split=n + 1, label='(n=%d)' % n)
            out.append(job_of('%s(n=%d).mass(0)' % (d.name, n), d.name + '__mass', bin_region(n).plus([0]), ranges={'p': (0, 1)}))
        out.append(job_of('%s.mass(0)' % d.name, d.name + '__mass', g.plus([0]), ranges={'p': (0, 1)}))
        out.append(job_of('%s.mass beyond n' % d.name, d.name + '__mass', g.plus([xx], assume=[mkc('ilt', NI, xx)], ints=['x']), ranges={'p': (0, 1)}))
        for n, k in ((5, 2), (30, 12), (1000, 999), (10 ** 6, 5), (2 * 10 ** 9, 10 ** 9)):
            for wnd in windows(n, k):
                out.append(job_of('%s(n=%d).mass(%d)' % (d.name, n, k), d.name + '__mass', Region([n, p, k], {'p': 'pos'}, [lt(p, r(1))] + wnd), ranges={'p': (0, 1)}))
        # the normal expansion, and the first steps of the Newton iteration
        N = ivar('nn', 64, 1000, 10 ** 9)
        A = [N, g.args[1], PR]
        v = mk('i2f', N) * d.pp(A) * d.qq(A)
        base = Region(A, dict(g.signs, pr='nonneg'), g.assume + [le(PR, r(1))], ints=['nn'])
        for label, c, steps in (('expansion', lt(r(80), v), 0), ('Newton', le(v, r(80)), 600)):
            def f(job, d=d, c=c, steps=steps, base=base):
                if steps:
                    safe(job, d.name + '__inverse', base.plus([], {}, [c]), 'i', soft=True, far=False, max_steps=steps, max_paths=12, feas=0.2, witness=False, ranges={'p': (0, 1), 'pr': (0, 1)})
                # where a path stops short, the compiled code goes on from points of it
                newton(job, d, base.plus([], {}, [c]))
            out.append(('%s.inverse, %s' % (d.name, label), f, None))
    return out


def newton(job, d, R):
    """Probabilities and parameters at all distances from the ends, chosen by the solver."""
    ctx = job.ctx(R)
    N, P, U = R.args
    ends = [Fr(1, 10 ** k) for k in (1, 3, 8, 17)]
    for i, e in enumerate(ends):
        for f in ends:
            for up in (0, 1):
                for uq in (0, 1):
                    a_ = [lt(rat(e / 10), U), lt(U, rat(e))] if not uq else [lt(rat(1 - e), U), lt(U, rat(1 - e / 10))]
                    b_ = [lt(rat(f / 10), P), lt(P, rat(f))] if not up else [lt(rat(1 - f), P), lt(P, rat(1 - f / 10))]
                    s, m = ctx.check(a_ + b_, timeout=1, model=True)
                    if s == 'sat' and number_at(job, d.name + '__inverse', R, 'i', R.args, job.env_of(m, R)):
                        return


def samplers(tier):
    out = []
    for n in ('uniform', 'exponential', 'laplace', 'logistic', 'triangular'):
        for i, g in enumerate(BYNAME[n].regions):
            out.append(job_of('%s.sample[%d]' % (n, i), n + '__sample', g, 'out_f', extra=(('out', 2),), draws=[word(0)]))
    for d in (BYNAME['bernoulli'], BYNAME['bernoulli_f']):
        out.append(job_of(d.name + '.sample', d.name + '__sample', d.regions[0], 'out_i', extra=(('out', 2),), draws=[word(0)]))
    for d in cats(tier):
        out.append(job_of('categorical(%d).sample' % d.k, 'categorical__sample', d.regions[0], 'out_i', extra=(('out', 2),), draws=[word(0)], split=d.k))
    for d in BINS:
        for n in (0, 1, 2, 3, 5):
            lim = Region([n, p], {'p': 'pos'}, [lt(p, r(1)), le(rat(Fr(1, 2 ** 20)), p), le(p, rat(1 - Fr(1, 2 ** 20)))])
            out.append(job_of('%s(n=%d).sample' % (d.name, n), d.name + '__sample', lim, 'out_i', extra=(('out', 2),), draws=[word(0)], split=n + 1))

    def group(i):
        def f(job):
            for s in (1, -1):
                for n in ('gaussian',) + (('lognormal',) if i % 8 == 0 else ()):
                    R = BYNAME[n].regions[0]
                    safe(job, n + '__sample', R, 'out_f', extra=(('out', 2),), draws=round_words(i, s, 0, 0), far=False)
                if i % 16 == 5:
                    safe(job, 'cauchy__sample', BYNAME['cauchy'].regions[0], 'out_f', extra=(('out', 2),), draws=[zword(0, low(i, s)), zword(1, low(127 - i, -s))], far=False)
        return ('normal samplers, layer %d' % i, f, None)
    return out + [group(i) for i in range(128)]


def ratios(tier):
    """Gamma, beta and PERT samples from the core of a few layers; but for plain gamma ones, accepted at once."""
    from .c13 import gamma_region, core, bounds, accepted, SHAPE, s_, t_
    out = []

    def gam(i, s):
        def f(job):
            X = place(job, i, s)
            z = zword(0, low(i, s))
            safe(job, 'gamma__sample', gamma_region(False, [core(i, 0)]), 'out_f', extra=(('out', 2),), draws=[z, word(1)], far=False)
            safe(job, 'gamma__sample', gamma_region(True, [core(i, 0)], accepted(s_, X, UN[1])), 'out_f', extra=(('out', 2),), draws=[z, word(1), word(2)], far=False)
        return ('gamma.sample, layer %d' % i, f, None)

    def two(i, o, s, lx, ly, pert=False):
        def f(job):
            X, Y = place(job, i, s), place(job, o, -s, 1)
            ws = [zword(0, low(i, s)), word(1)] + ([word(2)] if lx else [])
            n = len(ws)
            ws += [zword(1, low(o, -s)), word(n + 1)] + ([word(n + 2)] if ly else [])
            y_ = sqrt(r(16, 3) - s_ * s_) if pert else t_
            ok = [core(i, 0), core(o, 1)] + accepted(s_, X, UN[1]) + accepted(y_, Y, UN[n + 1]) + ([lt(r(0), UN[2])] if lx else []) + ([lt(r(0), UN[n + 2])] if ly else [])
            if pert:
                R = Region([a, a + w * (SHAPE[False](s_) - 1) / 4, a + w], {'s': 'pos', 'w': 'pos'}, [lt(r(2, 3), s_ * s_), lt(s_ * s_, r(14, 3))] + ok)
            else:
                R = Region([SHAPE[lx](s_), SHAPE[ly](t_), a, a + w], {'s': 'pos', 't': 'pos', 'w': 'pos'}, bounds(s_, lx) + bounds(t_, ly) + ok)
            safe(job, ('pert' if pert else 'beta') + '__sample', R, 'out_f', extra=(('out', 2),), draws=ws, far=False)
        return ('%s.sample, layers %d and %d, %d%d' % ('pert' if pert else 'beta', i, o, lx, ly), f, None)
    for i, s in ((5, 1), (64, -1), (127, 1)):
        out.append(gam(i, s))
    for i, o, s in ((5, 64, 1),) if tier == 'quick' else ((5, 64, 1), (100, 30, -1), (127, 90, 1)):
        out += [two(i, o, s, lx, ly) for lx in (False, True) for ly in (False, True)] + ([two(i, o, s, False, False, True)] if tier != 'quick' else [])
    return out


def outside(W):
    """Where the quantile of the special crate does not return."""
    def f(job):
        for e, a_ in (('pert__inverse', [0.0, 2.0, 3.75, 1e-300]), ('beta__inverse', [2.0, 3.0, 0.0, 1.0, 1e-300]), ('beta__median', [1e-8, 1.0, 0.0, 1.0])):
            res = job.call(e, a_)
            if res[0] != 'ok':
                job.violate(e, a_, None, res[0], 'a number', 'no number')
    return [('beta quantiles beyond the bounds', f, None)]


def jobs(W, tier):
    return continuous(tier) + discrete(tier) + samplers(tier) + ratios(tier) + outside(W)
