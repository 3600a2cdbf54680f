"""Related distributions agree: both sides of every claim are runs of the real code."""
from .common import *
from ..rel import Run, Claim, relate
from .. import check as K
BOUNDS = ('every parameter vector and argument on which the two sides are defined, except that a probability handed over as its complement is at least 1e-9 and that the mode of '
          'a PERT law is at least 1e-9 of its width away from the corners (nearer, the complement rounds to one); binomial with one or two trials, categorical with two categories; '
          'entropies, distributions and quantiles through special functions are related as terms of the same functions')
ASSUMPTIONS = ASSUME

x, pr, m, s = var('x'), var('pr'), var('m'), var('s')
TINY = rat(Fr(1, 10 ** 9))
CONTOPS = ('density', 'distribution', 'inverse', 'mean', 'variance', 'deviation', 'skewness', 'kurtosis', 'entropy', 'median', 'modes')


def has(W, e):
    return e in W.mod.funcs if hasattr(W.mod, 'funcs') else True


def tail(op, discrete=False):
    if op == 'inverse':
        return [pr], {'pr': 'nonneg'}, [le(pr, r(1))]
    if op in ('density', 'distribution'):
        return [x], {}, []
    return [], {}, []


def kind(op, discrete=False):
    return 'modes_i' if op == 'modes' and discrete else 'modes_f' if op == 'modes' else 'i' if op == 'inverse' and discrete else 'f'


def claim(text, entry1, entry2, region, args1, args2, op, trans=None, discrete=False, kinds=None, **k):
    """entry1(args1) equals trans(entry2(args2))."""
    ex = [('out', 8)] if op == 'modes' else []
    k1, k2 = kinds or (kind(op, discrete),) * 2

    def f(job):
        relate(job, region, [Run(entry1, lambda A, V: list(args1(A)) + ex, k1), Run(entry2, lambda A, V: list(args2(A)) + ex, k2)],
               lambda A, V: [Claim('eq', V[0], image(trans, A, V[1]), text)], ranges={'pr': (0, 1), 'p': (0, 1), 'q': (0, 1)}, npoints=200, track=True, **k)
    return ('%s: %s' % (text, op), f, None)


def image(trans, A, v):
    if trans is None:
        return v
    if isinstance(v, list):
        v = [image(trans, A, y) for y in v]
        return v[::-1] if getattr(trans, 'back', False) else v
    if isinstance(v, T) and v.op == 'const' and (v.cv != v.cv or math.isinf(v.cv)):
        return trans(A, v) if getattr(trans, 'special', False) else v
    return trans(A, v)


def flips(t):
    """A transformation that turns infinities around."""
    def f(A, v):
        if isinstance(v, T) and v.op == 'const' and math.isinf(v.cv):
            return const(-v.cv)
        return t(A, v)
    f.special = True
    return f


def affine(name):
    """Shifting by m and scaling by s the parameters which are locations and scales."""
    d = BYNAME[name]
    out = []
    LOC = {'gaussian': 'ls', 'laplace': 'ls', 'logistic': 'ls', 'cauchy': 'ls', 'uniform': 'll', 'triangular': 'lll', 'pert': 'lll', 'beta': '..ll', 'gamma': '.s', 'exponential': 'r'}[name]
    moved = 'l' in LOC

    def place(A):
        return [m + s * a if c == 'l' else s * a if c == 's' else a / s if c == 'r' else a for a, c in zip(A, LOC)]
    pt = (lambda v: m + s * v) if moved else (lambda v: s * v)
    T_ = dict(density=lambda A, v: v / s, distribution=None, inverse=lambda A, v: pt(v), mean=lambda A, v: pt(v), variance=lambda A, v: s * s * v, deviation=lambda A, v: s * v,
              skewness=None, kurtosis=None, entropy=lambda A, v: v + ln(s), median=lambda A, v: pt(v), modes=lambda A, v: pt(v))
    for op in CONTOPS:
        if getattr(d, op, None) is None or name == 'uniform' and op == 'modes':
            continue
        if name == 'gamma' and op in ('inverse', 'median') or name == 'cauchy' and op in ('mean', 'variance', 'deviation', 'skewness', 'kurtosis'):
            continue
        for i, g in enumerate(d.regions):
            t, sg, asm = tail(op)
            n = len(g.args)
            if any(not isinstance(z, T) for z in g.args):
                continue
            R = g.plus(t + [m, s], dict(sg, s='pos'), asm)

            def a1(A, n=n, t=t, op=op):
                # exact sums: the runs get the same doubles the claim is about
                return [lift_at(z, A, n, len(t)) for z in place_at(A, n, len(t), LOC)] + ([point_at(A, n, moved)] if t and op != 'inverse' else list(A[n:n + len(t)]))

            def a2(A, n=n, t=t):
                return list(A[:n + len(t)])
            tr = T_[op]

            def tr_(A, v, tr=tr, n=n, t=t):
                mm, ss = A[n + len(t)], A[n + len(t) + 1]
                return substitute(tr(A, v), mm, ss)
            out.append(claim('%s[%d] moved and scaled' % (name, i), '%s__%s' % (name, op), '%s__%s' % (name, op), R, a1, a2, op, None if tr is None else tr_))
    return out


def place_at(A, n, nt, LOC):
    mm, ss = A[n + nt], A[n + nt + 1]
    return [mm + ss * a if c == 'l' else ss * a if c == 's' else a / ss if c == 'r' else a for a, c in zip(A[:n], LOC)]


def point_at(A, n, moved):
    mm, ss = A[-2], A[-1]
    return mm + ss * A[n] if moved else ss * A[n]


def lift_at(z, A, n, nt):
    return z


def substitute(t, mm, ss):
    memo = {}

    def go(t):
        if t is m:
            return mm
        if t is s:
            return ss
        if not isinstance(t, T) or t.id in memo:
            return memo[t.id] if isinstance(t, T) else t
        v = mk(t.op, *[go(z) if isinstance(z, T) else z for z in t.a]) if any(isinstance(z, T) for z in t.a) else t
        memo[t.id] = v
        return v
    return go(t)


def reflected():
    out = []
    for name, mirror in (('triangular', lambda A: [-A[1], -A[0], -A[2]]), ('beta', lambda A: [A[1], A[0], -A[3], -A[2]]), ('pert', lambda A: [-A[2], -A[1], -A[0]]),
                         ('uniform', lambda A: [-A[1], -A[0]]), ('gaussian', lambda A: [-A[0], A[1]]), ('laplace', lambda A: [-A[0], A[1]]),
                         ('logistic', lambda A: [-A[0], A[1]]), ('cauchy', lambda A: [-A[0], A[1]])):
        d = BYNAME[name]
        neg = lambda A, v: -v
        neg.back = True
        T_ = dict(density=None, distribution=lambda A, v: 1 - v, inverse=flips(neg), mean=neg, variance=None, deviation=None, skewness=neg, kurtosis=None, entropy=None, median=neg, modes=neg)
        for op in CONTOPS:
            if getattr(d, op, None) is None or name == 'uniform' and op == 'modes' or name == 'cauchy' and op in ('mean', 'variance', 'deviation', 'skewness', 'kurtosis'):
                continue
            for i, g in enumerate(d.regions):
                t, sg, asm = tail(op)
                n = len(g.args)
                R = g.plus(t, sg, asm + ([le(TINY, pr)] if op == 'inverse' else []))

                def a1(A, n=n, op=op, mirror=mirror):
                    return mirror(A[:n]) + ([1 - A[n]] if op == 'inverse' else [-A[n]] if len(A) > n else [])
                out.append(claim('%s[%d] reflected' % (name, i), '%s__%s' % (name, op), '%s__%s' % (name, op), R, a1, lambda A: list(A), op, T_[op]))
    return out


def same(W):
    out = []
    # one trial
    g = BYNAME['bernoulli'].regions[0]
    p = g.args[0]
    g = g.plus([], {}, [le(TINY, p), le(p, r(1) - TINY)])
    for f, one_trial in (('bernoulli', 'binomial'), ('bernoulli_f', 'binomial_f')):
        for op in ('distribution', 'inverse', 'mean', 'variance', 'deviation', 'skewness', 'kurtosis', 'entropy', 'median', 'mass0', 'mass1'):
            t, sg, asm = tail(op)
            R = g.plus(t, sg, asm)
            e = 'mass' if op[:4] == 'mass' else op
            k = [int(op[4])] if e == 'mass' else []
            out.append(claim('%s and one binomial trial' % f, f + '__' + e, one_trial + '__' + e, R, lambda A, k=k: list(A) + k, lambda A, k=k: [1] + list(A) + k, op, discrete=True))
            if f == 'bernoulli' and op != 'distribution':
                out.append(claim('bernoulli and two categories', f + '__' + e, 'categorical__' + e, R, lambda A, k=k: list(A) + k,
                                 lambda A, k=k: [('in', [1 - A[0], A[0]]), 2] + list(A[1:]) + k, op, discrete=True))
    # the failure probability
    for op in ('distribution', 'inverse', 'mean', 'variance', 'deviation', 'skewness', 'kurtosis', 'entropy', 'median', 'modes', 'mass0', 'mass1'):
        t, sg, asm = tail(op)
        R = g.plus(t, sg, asm)
        e = 'mass' if op[:4] == 'mass' else op
        k = [int(op[4])] if e == 'mass' else []
        for f, pre in (('bernoulli', []), ('binomial', [1 if op[:4] in ('mass', 'entr', 'mode') else 2])):
            if f == 'binomial' and op in ('inverse', 'median'):
                continue        # under C05 and C08, for both
            out.append(claim('%s by success and by failure' % f, f + '__' + e, f + '_f__' + e, R, lambda A, k=k, pre=pre: pre + list(A) + k,
                             lambda A, k=k, pre=pre: pre + [1 - A[0]] + list(A[1:]) + k, op, discrete=True))
    # unit shapes
    th = var('theta')
    for op in ('density', 'distribution', 'mean', 'variance', 'deviation', 'skewness', 'kurtosis', 'entropy', 'modes'):
        t, sg, asm = tail(op)
        R = Region([th] + t, dict(sg, theta='pos'), asm + ([lt(r(0), x)] if op == 'density' else []))
        out.append(claim('gamma of shape one and exponential', 'gamma__' + op, 'exponential__' + op, R, lambda A: [const(1.0)] + list(A), lambda A: [1 / A[0]] + list(A[1:]), op))
    g = BYNAME['uniform'].regions[0]
    for op in ('density', 'distribution', 'mean', 'variance', 'deviation', 'skewness', 'kurtosis', 'entropy', 'median'):
        t, sg, asm = tail(op)
        R = g.plus(t, sg, asm)
        out.append(claim('beta of unit shapes and uniform', 'beta__' + op, 'uniform__' + op, R, lambda A: [const(1.0), const(1.0)] + list(A), lambda A: list(A), op))
    # reparametrisations
    for i, g in enumerate(BYNAME['pert'].regions):
        for op in CONTOPS:
            if op == 'median':
                continue        # the beta law documents an approximation; see C08
            t, sg, asm = tail(op)
            R = g.plus(t, sg, asm + [le(TINY * (z[2] - z[0]), y) for z in [g.args] for y in (z[1] - z[0], z[2] - z[1])])

            def as_beta(A):
                a_, b_, c_ = A[:3]
                return [1 + 4 * (b_ - a_) / (c_ - a_), 1 + 4 * (c_ - b_) / (c_ - a_), a_, c_] + list(A[3:])
            out.append(claim('pert[%d] and its beta' % i, 'pert__' + op, 'beta__' + op, R, lambda A: list(A), as_beta, op))
    g = BYNAME['gaussian'].regions[0]
    y = var('y')
    for op, tr in (('density', lambda A, v: v / exp(A[-1])), ('distribution', None), ('inverse', lambda A, v: exp(v)), ('median', lambda A, v: exp(v))):
        t, sg, asm = tail(op)
        R = g.plus([y] if op in ('density', 'distribution') else t, sg, asm)
        if op in ('density', 'distribution'):
            out.append(claim('lognormal and the normal of the logarithm', 'lognormal__' + op, 'gaussian__' + op, R, lambda A: list(A[:2]) + [exp(A[2])], lambda A: list(A), op, tr))
        else:
            def f(A, v, tr=tr):
                if v.op == 'const' and math.isinf(v.cv):
                    return r(0) if v.cv < 0 else v
                return tr(A, v)
            f.special = True
            out.append(claim('lognormal and the normal of the logarithm', 'lognormal__' + op, 'gaussian__' + op, R, lambda A: list(A), lambda A: list(A), op, f))
    return out


def jobs(W, tier):
    out = same(W)
    for n in ('gaussian', 'laplace', 'logistic', 'cauchy', 'uniform', 'triangular', 'pert', 'beta', 'gamma', 'exponential'):
        out += affine(n)
    return out + reflected()
