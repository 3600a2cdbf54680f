"""Cumulative distribution functions."""
from .discrete import *
BOUNDS = ('every parameter in the constructors\' domains and every real argument x, and x = -inf, +inf; categorical: 2 to 5 (thorough 7) categories; '
          'binomial: every n <= 1e9')
ASSUMPTIONS = ASSUME + ['for x < y the claim F(x) <= F(y) is decided over the reals, rounding steps backwards are not excluded']

y = var('y')


def ends(d):
    out = []
    for i, g in enumerate(d.regions):
        for v, w in ((NINF, r(0)), (INF, r(1))):
            R = g.plus([v])
            out.append(eqjob('%s.distribution(%s)[%d]' % (d.name, v.cv, i), d.name + '__distribution', R, lambda A, w=w: one(w)))
    return out


def monotone(d):
    out = []
    for i, g in enumerate(d.regions):
        R = g.plus([x, y], assume=[lt(x, y)])
        n = len(g.args)

        def f(job, R=R, n=n, d=d):
            e = d.name + '__distribution'
            runs = [Run(e, lambda A, v: A[:n] + [A[n]]), Run(e, lambda A, v: A[:n] + [A[n + 1]])]
            relate(job, R, runs, lambda A, v: [Claim('le', r(0), v[0], 'F(x) >= 0'), Claim('le', v[0], v[1], 'F(x) <= F(y)'), Claim('le', v[1], r(1), 'F(y) <= 1')],
                   split=getattr(d, 'k', 0))
        out.append(('%s.distribution is monotone[%d]' % (d.name, i), f, None))
    return out


def jobs(W, tier):
    out = fnjobs('distribution', dists=S.DISTS) + catjobs('distribution', tier, 'x', opts=True)
    for d in S.DISTS + cats(tier):
        out += ends(d)
        out += monotone(d)
    return out
