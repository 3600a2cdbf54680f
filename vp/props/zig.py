"""The ziggurat decomposition of the normal density, computed from the density alone.

Layer i of 128 is the strip between the heights f(x_i) and f(x_(i+1)), f(x) = exp(-x^2/2); the base layer, 127, is a rectangle of
width R together with the tail, which is sampled under the majorant f(R) exp(-R (x - R)).  All have the area f(R) (R + 1/R).
"""
from .common import *
from ..samp import *

RR = 3.44428647676


def tables():
    with mpmath.workdps(40):
        R = mpf('3.44428647676')
        f = lambda x: mpmath.exp(-x * x / 2)
        v = f(R) * (R + 1 / R)
        xs = [mpf(0)] * 129
        xs[127], xs[128] = R, R + 1 / R
        for i in range(126, 0, -1):
            xs[i] = mpmath.sqrt(-2 * mpmath.log(f(xs[i + 1]) + v / xs[i + 1]))
        q = lambda z: Fr(int(mpmath.nint(z * 10 ** 30)), 10 ** 30)
        K = [int(xs[i] / xs[i + 1] * 2 ** 24) for i in range(128)]
        W = [q(xs[i + 1] / 2 ** 24) for i in range(128)]
        Y = [q(f(xs[i])) for i in range(128)]
        return K, W, Y


K24, W24, Y24 = tables()
EPS = r(1, 10 ** 9)


def jreal(k):
    return mk('i2f', zj(k))


def low(i, s):
    """Layer i, sign s: bit 7 set is a positive sample."""
    return i + (128 if s > 0 else 0)


def place(job, i, s, k=0):
    """Where the code puts the point of a layer: its own term for x, as a standard normal sample accepted at once."""
    ctx = smt.Ctx(job.W.lib)
    for ws in ([zword(k, low(i, s))], [zword(k, low(i, s)), word(k + 1)]):
        ps = job.exec(ctx, 'gaussian__sample', [const(0.0), const(1.0), ('out', 2)], draws=ws, max_draws=len(ws))
        xs = [K.path_value('out_f', p) for p in ps if p.kind == 'ret']
        if xs:
            # layer 0 has no core
            return xs[0]
    return None


def layer(i, s, X, k, us):
    """Pieces of one round in layer i: (condition, (standard normal, words)) or (condition, MORE)."""
    j = zj(k)
    if X is None:
        X = (1 if s > 0 else -1) * jreal(k) * rat(W24[i])
    core = mkc('ilt', j, max(0, K24[i] - 2)) if K24[i] > 2 else FALSE
    out = [(core, (X, 1))] if core is not FALSE else []
    rest = mkc('ilt', K24[i] + 2, j) if K24[i] else mkc('ilt', 0, j)
    if i < 127:
        T = rat(Y24[i + 1]) + rat(Y24[i] - Y24[i + 1]) * us[0]
        E = exp(-(X * X) / 2)
        return out + [(cand(rest, lt(T, E - EPS)), (X, 2)), (cand(rest, lt(E + EPS, T)), MORE)]
    R = const(RR)
    x = R - ln(1 - us[0]) / R
    T, E = exp(-(R * (x - R / 2))) * us[1], exp(-(x * x) / 2)
    u1 = lt(us[0], r(1))
    return out + [(cand(rest, cand(u1, lt(T, E))), (x if s > 0 else -x, 3)), (cand(rest, cand(u1, le(E, T))), MORE), (cand(rest, le(r(1), us[0])), MORE)]


def round_words(i, s, k, first):
    """The words of one round: the layer's, then whole ones."""
    return [zword(k, low(i, s))] + [word(first + 1 + n) for n in range(1 if i < 127 else 2)]


def then(pieces, cont):
    """What follows a rejection: pieces of the next round, its words counted on."""
    out = []
    for c, v in pieces:
        if v is MORE:
            n, l = cont
            out += [(cand(c, d), w if w is MORE else (w[0], w[1] + n)) for d, w in l]
        else:
            out.append((c, v))
    return out


def image(pieces, f):
    return [(c, v if v is MORE else (f(v[0]), v[1])) for c, v in pieces]
