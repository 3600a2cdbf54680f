"""Gamma, beta and PERT samplers."""
from .zig import *
BOUNDS = ('every shape and scale; every content of the words read; normal draws from the cores of eight layers (thorough: 24) with both signs and from the wedges and tails of two (four); '
          'up to one rejection of either kind, one rejected and one vanishing acceptance word; beta and PERT: both gamma variates accepted at once, shapes above and below one')
ASSUMPTIONS = ASSUME + ['the layers of the normal sampler are as decided under C12']

s_, t_, th = var('s'), var('t'), var('theta')
SHAPE = {False: lambda s: s * s + r(1, 3), True: lambda s: s * s - r(2, 3)}     # from the square root of d; True: below one


def at_shape(s, X):
    """Constants of the method with d = s^2 and its transform of a standard normal value."""
    t = 1 + r(1, 3) / s * X
    return s * s, t, t ** 3


def accepts(s, X, u):
    """The acceptance rule: the squeeze, then the exact one."""
    d, t, v = at_shape(s, X)
    return cor(lt(u, 1 - const(0.0331) * X ** 4), lt(ln(u), X * X / 2 + d * (1 - v + ln(v))))


def usable(s, X):
    return lt(r(0), at_shape(s, X)[1])


def accepted(s, X, u):
    """Conditions under which a round ends with a sample."""
    return [usable(s, X), lt(r(0), u), accepts(s, X, u)]


def bounds(s, low):
    """The shape on its side of one."""
    return [lt(r(2, 3), s * s), lt(s * s, r(5, 3))] if low else [le(r(2, 3), s * s)]


def gamma_region(low, assume=(), firm=()):
    R = Region([SHAPE[low](s_), th], signs={'s': 'pos', 'theta': 'pos'}, assume=bounds(s_, low) + list(assume) + list(firm))
    R.firm = list(firm)
    return R


def core(i, k):
    return mkc('ilt', zj(k), K24[i] - 2)


def trial(s, X, u, n):
    """Pieces of one round in which the normal value is X, the word u, and n words have been used."""
    d, t, v = at_shape(s, X)
    ok = cand(usable(s, X), lt(r(0), u))
    return [(cand(ok, accepts(s, X, u)), (d * v, n)), (cand(ok, cnot(accepts(s, X, u))), MORE), (cand(usable(s, X), le(u, r(0))), MORE)]


def gamma_jobs(i, s):
    """Everything a gamma sample does when its first normal value comes from the core of a layer."""
    def f(job):
        X = place(job, i, s)
        z = zword(0, low(i, s))
        c = [core(i, 0)]
        # no use of a value that is too far left
        if s < 0:
            sampled(job, 'gamma__sample', gamma_region(False, c, [le(at_shape(s_, X)[1], r(0))]), [z], lambda A: [(TRUE, MORE)], hunting=20, probes=3)
        use = [usable(s_, X)]
        sampled(job, 'gamma__sample', gamma_region(False, c, use), [z, word(1)], lambda A: image(trial(s_, X, UN[1], 2), lambda x: x * A[1]), hunting=60, probes=3)
        # a vanishing word is read again
        sampled(job, 'gamma__sample', gamma_region(False, c + [eq(UN[1], r(0))], use), [z, word(1), word(2)], lambda A: image(trial(s_, X, UN[2], 3), lambda x: x * A[1]), hunting=20, probes=3)

        def boosted(A):
            d, t, v = at_shape(s_, X)
            return [(lt(r(0), UN[2]), (A[1] * (d * v * UN[2] ** (1 / A[0])), 3)), (le(UN[2], r(0)), (r(0), 3))]
        sampled(job, 'gamma__sample', gamma_region(True, c, accepted(s_, X, UN[1])), [z, word(1), word(2)], boosted, hunting=60, probes=3)
    return ('gamma.sample, layer %d%s' % (i, '+' if s > 0 else '-'), f, None)


def gamma_wedge(i, s):
    def f(job):
        X = place(job, i, s)
        ws = round_words(i, s, 0, 0)
        n = len(ws)
        body = [(c, v) for c, v in layer(i, s, X, 0, UN[1:]) if v is not MORE and v[1] == n]
        for c, v in body:
            sampled(job, 'gamma__sample', gamma_region(False, [], [c, usable(s_, v[0])]), ws + [word(n)], lambda A: image(trial(s_, v[0], UN[n], n + 1), lambda x: x * A[1]), hunting=60, probes=3)
    return ('gamma.sample, outside the core of layer %d%s' % (i, '+' if s > 0 else '-'), f, None)


def gamma_again(i, j, s):
    """One rejected round, then another."""
    def f(job):
        X, Y = place(job, i, s), place(job, j, -s, 1)
        c = [core(i, 0), core(j, 1)]
        R = gamma_region(False, c + [lt(r(0), UN[1])], [usable(s_, X), usable(s_, Y), cnot(accepts(s_, X, UN[1]))])
        sampled(job, 'gamma__sample', R, [zword(0, low(i, s)), word(1), zword(1, low(j, -s)), word(3)], lambda A: image(trial(s_, Y, UN[3], 4), lambda x: x * A[1]), hunting=40, probes=3)
        # after a value too far left
        if s < 0:
            R = gamma_region(False, c, [le(at_shape(s_, X)[1], r(0)), usable(s_, Y)])
            sampled(job, 'gamma__sample', R, [zword(0, low(i, s)), zword(1, low(j, -s)), word(2)], lambda A: image(trial(s_, Y, UN[2], 3), lambda x: x * A[1]), hunting=40, probes=3)
    return ('gamma.sample, layer %d rejected, then %d' % (i, j), f, None)


def ratio(name, i, j, s, lowx, lowy):
    """A beta-like sample from two gamma variates; lowx, lowy: shapes below one."""
    lowx, lowy = bool(lowx), bool(lowy)

    def f(job):
        o = -s if i != j else s
        X, Y = place(job, i, s), place(job, j, o, 1)
        ws = [zword(0, low(i, s)), word(1)] + ([word(2)] if lowx else [])
        n = len(ws)
        ws += [zword(1, low(j, o)), word(n + 1)] + ([word(n + 2)] if lowy else [])
        if name == 'beta':
            sx, sy = s_, t_
            al, be = SHAPE[lowx](sx), SHAPE[lowy](sy)
            args = [al, be, a, a + w]
            pre = bounds(sx, lowx) + bounds(sy, lowy)
        else:
            # the mode that gives the first shape; the shapes add up to six
            sx, sy = s_, sqrt(r(16, 3) - s_ * s_)
            al, be = SHAPE[False](sx), 6 - SHAPE[False](sx)
            args = [a, a + w * (al - 1) / 4, a + w]
            pre = [lt(r(2, 3), sx * sx), lt(sx * sx, r(14, 3))]
        signs = {'s': 'pos', 't': 'pos', 'w': 'pos'} if name == 'beta' else {'s': 'pos', 'w': 'pos'}
        R = Region(args, signs=signs, assume=pre + [core(i, 0), core(j, 1)] + accepted(sx, X, UN[1]) + ([lt(r(0), UN[2])] if lowx else []) +
                   (accepted(sy, Y, UN[n + 1]) if lowy else [usable(sy, Y)]))

        R.firm = accepted(sx, X, UN[1])[::2] + (accepted(sy, Y, UN[n + 1])[::2] if lowy else [usable(sy, Y)])

        def spec(A):
            dx, tx, vx = at_shape(sx, X)
            dy, ty, vy = at_shape(sy, Y)
            lx, ly = ln(dx * vx), ln(dy * vy)
            if lowx:
                lx = lx + ln(UN[2]) / al
            if lowy:
                ly = ly + ln(UN[n + 2]) / be
            val = a + w / (1 + exp(ly - lx))
            if lowy:
                return [(lt(r(0), UN[n + 2]), (val, n + 3)), (le(UN[n + 2], r(0)), MORE)]
            return image(trial(sy, Y, UN[n + 1], n + 2), lambda _: val)
        sampled(job, name + '__sample', R, ws, spec, hunting=60, probes=3, timeout=20.0)
        if lowx:
            # a vanishing word cannot be raised to a power without leaving the numbers
            Z = Region(args, signs=signs, assume=pre + [core(i, 0)] + accepted(sx, X, UN[1]) + [eq(UN[2], r(0))])
            sampled(job, name + '__sample', Z, ws[:3], lambda A: [(TRUE, MORE)], hunting=20, probes=3)
    return ('%s.sample, layers %d%s and %d, shapes %s and %s one' % (name, i, '+-'[s < 0], j, 'below' if lowx else 'from', 'below' if lowy else 'from'), f, None)


def jobs(W, tier):
    ls = (1, 5, 31, 64, 90, 100, 126, 127) if tier == 'quick' else list(range(1, 128, 6)) + [126, 127]
    out = [gamma_jobs(i, s) for i in ls for s in (1, -1)]
    out += [gamma_wedge(i, s) for i in ((3, 127) if tier == 'quick' else (3, 64, 126, 127)) for s in (1, -1)]
    out += [gamma_again(i, j, s) for i, j in (((5, 64), (127, 5)) if tier == 'quick' else ((5, 64), (64, 5), (100, 127), (127, 100), (126, 1))) for s in (1, -1)]
    for lowx in (0, 1):
        for lowy in (0, 1):
            for i, j, s in ((5, 64, 1),) if tier == 'quick' else ((5, 64, 1), (64, 5, -1), (127, 100, 1), (100, 127, -1)):
                out.append(ratio('beta', i, j, s, lowx, lowy))
    for i, j, s in ((5, 64, 1), (64, 5, -1)) if tier == 'quick' else ((5, 64, 1), (64, 5, -1), (127, 100, 1), (100, 127, -1), (1, 126, 1)):
        out.append(ratio('pert', i, j, s, 0, 0))
    return out[::-1]        # the slowest first
