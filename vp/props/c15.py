"""Constructors and accessors."""
from .common import *
from ..rel import Run, Claim, relate
from .. import check as K, native, mpev
BOUNDS = ('every tuple of real numbers given to a constructor, and NaN in every constrained place; binomial: 0 to 2^62 trials; categorical: vectors of zero to four numbers '
          '(sums within 1e-13 of one have to be accepted, sums off by 1e-9 rejected, between the two nothing is required); '
          'whether a binomial law accepts a success probability of exactly 0 or 1 is left open: its documentation and its assertion differ; infinite parameters are left open')
ASSUMPTIONS = ASSUME

y = [var('y%d' % i) for i in range(7)]


def inside(t, lo=None, hi=None):
    c = 1
    if lo is not None:
        c = cand(c, lt(r(lo), t))
    if hi is not None:
        c = cand(c, lt(t, r(hi)))
    return c


def unit(t):
    return inside(t, 0, 1)


def shut(t):
    return cor(lt(t, r(0)), lt(r(1), t))


PERT_AL = lambda A: 1 + 4 * (A[1] - A[0]) / (A[2] - A[0])
PERT_BE = lambda A: 1 + 4 * (A[2] - A[1]) / (A[2] - A[0])
pos = lambda i: lambda A: lt(r(0), A[i])
AT = lambda i: lambda A: A[i]
# name: number of real parameters, domain, accessors, constrained places
LAWS = {
    'bernoulli': (1, lambda A: unit(A[0]), dict(p=AT(0), q=lambda A: 1 - A[0]), (0,)),
    'bernoulli_f': (1, lambda A: unit(A[0]), dict(q=AT(0), p=lambda A: 1 - A[0]), (0,)),
    'beta': (4, lambda A: cand(cand(lt(r(0), A[0]), lt(r(0), A[1])), lt(A[2], A[3])), dict(alpha=AT(0), beta=AT(1), a=AT(2), b=AT(3)), (0, 1, 2, 3)),
    'cauchy': (2, pos(1), dict(x_0=AT(0), gamma=AT(1)), (1,)),
    'exponential': (1, pos(0), {'lambda': AT(0)}, (0,)),
    'gamma': (2, lambda A: cand(lt(r(0), A[0]), lt(r(0), A[1])), dict(k=AT(0), theta=AT(1)), (0, 1)),
    'gaussian': (2, pos(1), dict(mu=AT(0), sigma=AT(1)), (1,)),
    'laplace': (2, pos(1), dict(mu=AT(0), b=AT(1)), (1,)),
    'logistic': (2, pos(1), dict(mu=AT(0), s=AT(1)), (1,)),
    'lognormal': (2, pos(1), dict(mu=AT(0), sigma=AT(1)), (1,)),
    'pert': (3, lambda A: cand(lt(A[0], A[1]), lt(A[1], A[2])), dict(a=AT(0), b=AT(1), c=AT(2), alpha=PERT_AL, beta=PERT_BE), (0, 1, 2)),
    'triangular': (3, lambda A: cand(lt(A[0], A[1]), cand(le(A[0], A[2]), le(A[2], A[1]))), dict(a=AT(0), b=AT(1), c=AT(2)), (0, 1, 2)),
    'uniform': (2, lambda A: lt(A[0], A[1]), dict(a=AT(0), b=AT(1)), (0, 1)),
}


def construct(job, entry, region, accept, reject, value, kind='f'):
    """The entry returns where the parameters are accepted, with the value, and panics where they are to be rejected."""
    ctx = job.ctx(region)
    for p in job.exec(ctx, entry, list(region.args)):
        ask = []
        if p.kind == 'ret':
            ask.append(reject(region.args))
            if value:
                ask.append(cand(accept(region.args), K.differs(K.path_value(kind, p), value(region.args))))
        else:
            ask.append(accept(region.args))
        for c in ask:
            if c is FALSE or (isinstance(c, int) and not c):
                job.proved += 1
                continue
            res, m = ctx.check(p.pc + [c], model=True)
            if res == 'unsat':
                job.proved += 1
                continue
            n0 = len(job.violations)
            for ex in [[]] + K.probe_conds(region)[:10]:
                if ex:
                    res, m = ctx.check(p.pc + [c] + ex, timeout=2.0, model=True)
                if res == 'sat' and one_point(job, entry, region, accept, reject, value, kind, job.env_of(m, region)):
                    break
            if len(job.violations) == n0:
                for env in K.grid(region, 200):
                    if one_point(job, entry, region, accept, reject, value, kind, env):
                        break
            if len(job.violations) == n0:
                job.undecided.append('%s: %s (%s)' % (entry, p.kind, res))
        # a point of the path on the compiled code
        s, m = ctx.check(p.pc, timeout=1.0, model=True)
        if s == 'sat':
            one_point(job, entry, region, accept, reject, value, kind, job.env_of(m, region))
    for env in K.grid(region, 24):
        one_point(job, entry, region, accept, reject, value, kind, env)
    job.sample('%s: accepts and rejects as its domain says' % entry)


def one_point(job, entry, region, accept, reject, value, kind, env):
    try:
        cargs = job.conc(list(region.args), env)
        A = job.lifted(cargs)
        yes, no = (mpev.evc(f(A), {}) if not isinstance(f(A), int) else f(A) for f in (accept, reject))
        want = value(A) if value else None
    except (mpev.Undef, ValueError, OverflowError, ZeroDivisionError):
        return False
    res = job.call(entry, cargs)
    if yes and (res[0] != 'ok' or want is not None and not K.agrees(K.nat_value(kind, res), want)):
        job.violate(entry, cargs, None, res[0] if res[0] != 'ok' else K.nat_value(kind, res), K.showv(want) if want is not None else 'a value', 'valid parameters')
        return True
    if no and res[0] == 'ok':
        job.violate(entry, cargs, None, K.nat_value(kind, res), 'a panic', 'invalid parameters')
        return True
    return False


def law(name):
    n, dom, accs, places = LAWS[name]
    out = []
    g = Region(y[:n])
    for acc, val in accs.items():
        entry = '%s__acc_%s' % (name, acc)
        out.append(('%s.%s' % (name, acc), lambda job, entry=entry, val=val: construct(job, entry, g, dom, lambda A: cnot(dom(A)), val), None))

    def nans(job):
        for i in places:
            A = list(y[:n])
            A[i] = const(math.nan)
            R = Region(A)
            construct(job, '%s__acc_%s' % (name, next(iter(accs))), R, lambda A: 0, lambda A: 1, None)
    out.append((name + ' of NaN', nans, None))
    return out


def binomial(name):
    N = ivar('n', 64, 0, 1 << 62)
    g = Region([N, y[0]], ints=['n'])
    dom, out_ = lambda A: unit(A[1]), lambda A: shut(A[1])
    mine, other = ('p', 'q') if name == 'binomial' else ('q', 'p')
    out = [('%s.n' % name, lambda job: construct(job, name + '__acc_n', g, dom, out_, lambda A: A[0], 'i'), None),
           ('%s.%s' % (name, mine), lambda job: construct(job, '%s__acc_%s' % (name, mine), g, dom, out_, lambda A: A[1]), None),
           ('%s.%s' % (name, other), lambda job: construct(job, '%s__acc_%s' % (name, other), g, dom, out_, lambda A: 1 - A[1]), None)]
    out.append((name + ' of NaN', lambda job: construct(job, name + '__acc_n', Region([N, const(math.nan)], ints=['n']), lambda A: 0, lambda A: 1, None, 'i'), None))
    return out


def categorical(k):
    g = Region([('in', y[:k]), k])

    def total(A):
        t = r(0)
        for v in A[0][1]:
            t = t + v
        return t - 1

    def ok(A):
        c = cand(lt(r(-1, 10 ** 13), total(A)), lt(total(A), r(1, 10 ** 13)))
        for v in A[0][1]:
            c = cand(c, cand(le(r(0), v), le(v, r(1))))
        return c

    def bad(A):
        c = cor(lt(total(A), r(-1, 10 ** 9)), lt(r(1, 10 ** 9), total(A)))
        for v in A[0][1]:
            c = cor(c, shut(v))
        return c
    out = [('categorical(%d).k' % k, lambda job: construct(job, 'categorical__k', g, ok, bad, lambda A: k, 'i'), None)]
    if k:
        h = Region([('in', y[:k]), k, ('out', 8)])
        out.append(('categorical(%d).p' % k, lambda job: construct(job, 'categorical__p', h, ok, bad, lambda A: list(A[0][1]), 'modes_f'), None))

        def nans(job):
            for i in range(k):
                v = list(y[:k])
                v[i] = const(math.nan)
                construct(job, 'categorical__k', Region([('in', v), k]), lambda A: 0, lambda A: 1, None, 'i')
        out.append(('categorical(%d) of NaN' % k, nans, None))
    return out


def defaults():
    """Defaults are the standard laws, in every operation."""
    out = []
    x, u = var('x'), var('u')
    for name in ('gaussian', 'logistic', 'lognormal', 'uniform'):
        for op in ('distribution', 'density', 'inverse', 'entropy', 'mean', 'variance', 'deviation', 'skewness', 'kurtosis', 'median', 'modes'):
            if name == 'uniform' and op == 'modes':
                continue
            tail = [u] if op == 'inverse' else [x] if op in ('distribution', 'density') else []
            g = Region(tail, {'u': 'nonneg'} if op == 'inverse' else {}, [le(u, r(1))] if op == 'inverse' else [])
            ex = [('out', 8)] if op == 'modes' else []
            kind = 'modes_f' if op == 'modes' else 'f'

            def f(job, name=name, op=op, g=g, ex=ex, kind=kind):
                relate(job, g, [Run('%s_default__%s' % (name, op), lambda A, V: list(A) + ex, kind),
                                Run('%s__%s' % (name, op), lambda A, V: [const(0.0), const(1.0)] + list(A) + ex, kind)],
                       lambda A, V: [Claim('eq', V[0], V[1], 'default')], ranges={'u': (0, 1)})
            out.append(('%s default: %s' % (name, op), f, None))
    return out


def jobs(W, tier):
    out = []
    for n in LAWS:
        out += law(n)
    out += binomial('binomial') + binomial('binomial_f')
    for k in range(0, 5 if tier == 'quick' else 7):
        out += categorical(k) if k <= 4 or tier != 'quick' else []
    return out + defaults()
