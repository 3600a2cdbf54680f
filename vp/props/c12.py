"""Normal-based samplers."""
from .zig import *
BOUNDS = ('every word of the source: all 128 layers and both signs for one round of the ziggurat, selected pairs of layers for two rounds (thorough: more); every location and scale; '
          'positions within 2 of 2^24 of a boundary of a core, and heights within 1e-9 of the density, may fall on either side; '
          'lognormal: one round in every eighth layer; Cauchy: two samples accepted at once and selected rejections')
ASSUMPTIONS = ASSUME + ['the base of the ziggurat is at R = 3.44428647676; the decomposition is computed from the density']


def round_job(i):
    def f(job):
        for s in (1, -1):
            X = place(job, i, s)
            if X is not None:
                geometry(job, i, s, X)
            ws = round_words(i, s, 0, 0)
            g = BYNAME['gaussian'].regions[0]
            sampled(job, 'gaussian__sample', g, ws, lambda A: image(layer(i, s, X, 0, UN[1:3]), lambda x: A[0] + A[1] * x), hunting=60)
    return ('ziggurat layer %d' % i, f, None)


def geometry(job, i, s, X):
    """x = +- j x_(i+1) / 2^24."""
    ctx = smt.Ctx(job.W.lib)
    job.ctxs.append(ctx)
    want = jreal(0) * rat(W24[i])
    d = (X if s > 0 else -X) - want
    for e in (d, -d):
        res, m = ctx.check([lt(EPS * want, e)], model=True)
        if res == 'unsat':
            job.proved += 1
        else:
            job.violate('gaussian__sample', [0.0, 1.0, ('out', 2)], [mpev.iev(zword(0, low(i, s)), fill(m, Region([]))) if m else 0], str(X), str(want), 'the layer is misplaced')


def two_rounds(a, b, s):
    def f(job):
        Xa, Xb = place(job, a, s, 0), place(job, b, -s, 1)
        first = round_words(a, s, 0, 0)
        ws = first + round_words(b, -s, 1, len(first))
        p1 = layer(a, s, Xa, 0, UN[1:])
        p2 = layer(b, -s, Xb, 1, UN[len(first) + 1:])
        sampled(job, 'gaussian__sample', BYNAME['gaussian'].regions[0], ws, lambda A: image(then(p1, (len(first), p2)), lambda x: A[0] + A[1] * x), hunting=60, witness=False)
    return ('ziggurat layer %d, then %d' % (a, b), f, None)


def lognormal(i):
    def f(job):
        for s in (1, -1):
            X = place(job, i, s)
            sampled(job, 'lognormal__sample', BYNAME['lognormal'].regions[0], round_words(i, s, 0, 0),
                    lambda A: image(layer(i, s, X, 0, UN[1:3]), lambda x: exp(A[0] + A[1] * x)), hunting=60)
    return ('lognormal.sample, layer %d' % i, f, None)


def absolute(X, s):
    return X if s > 0 else -X


def cauchy(a, b, sa, sb):
    """Numerator from layer a, denominator from layer b."""
    def f(job):
        Xa, Xb = place(job, a, sa, 0), place(job, b, sb, 1)
        core = [(c, v) for c, v in layer(a, sa, Xa, 0, UN[1:]) if v is not MORE and v[1] == 1]
        ws = [zword(0, low(a, sa))] + round_words(b, sb, 1, 1)
        p2 = layer(b, sb, Xb, 1, UN[2:])
        g = BYNAME['cauchy'].regions[0]
        R = g.plus(assume=[c for c, _ in core], signs={})
        tiny = const(2.2250738585072014e-308)

        def spec(A):
            out = []
            for c, v in core:
                for d, w in p2:
                    out.append((cand(c, d), w if w is MORE else (A[0] + A[1] * v[0] / (absolute(w[0], sb) + tiny), v[1] + w[1])))
            return out
        sampled(job, 'cauchy__sample', R, ws, spec, hunting=60)
    return ('cauchy.sample, layers %d and %d' % (a, b), f, None)


def jobs(W, tier):
    out = [round_job(i) for i in range(128)]
    pairs = [(0, 5), (64, 0), (127, 127), (3, 127), (127, 64), (1, 126)] if tier == 'quick' else [(a, b) for a in (0, 1, 5, 31, 64, 100, 126, 127) for b in (0, 1, 63, 126, 127)]
    out += [two_rounds(a, b, 1 if (a + b) % 2 else -1) for a, b in pairs]
    out += [lognormal(i) for i in (range(0, 128, 8) if tier == 'quick' else range(128))] + [lognormal(127)]
    out += [cauchy(a, b, 1 if a % 2 else -1, 1 if b % 2 else -1) for a, b in ((5, 6), (64, 127), (127, 3), (100, 0))]
    return out
