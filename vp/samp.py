"""Samplers: what one sample returns, and how many words it takes, for every content of the source.

A whole word of the source read as a double is the real number U_i in [0, 1], both ends included (the conversion rounds);
a word read bit by bit is an integer term.  A specification is a list of (condition, (value, words)) or (condition, MORE):
the sampler must ask for a word beyond the last one described.
"""
from .check import *
from . import check as K
from . import mpev, term as tm, symex, llir, smt
from .term import *
from .poly import Unsupported, Blowup

MORE = 'more'
UN = [tm.var('U%d' % i) for i in range(16)]
ERR = (mpev.Undef, ValueError, OverflowError, ZeroDivisionError, mpmath.libmp.NoConvergence, KeyError)


def word(i):
    return ivar('u%d' % i, 64)


def zword(k, low):
    """A word whose low eight bits are given: layer and sign of the ziggurat."""
    return mki('iadd', (mki('imul', (ivar('h%d' % k, 56), 256), 64, 0, (1 << 64) - 256), low), 64, low, (1 << 64) - 1)


def zj(k):
    """The 24 bits of such a word which place a point in the layer, as an integer."""
    return mki('slice', (ivar('h%d' % k, 56), 0, 24), 24, 0, (1 << 24) - 1)


def region_with(R, draws):
    """The region with the draws as inputs."""
    s, assume, ints = {}, [], []
    for d in draws:
        if d.op == 'ivar':
            n = 'U' + d.a[0][1:]
            s[n] = 'nonneg'
            assume.append(le(tm.var(n), const(1.0)))
        else:
            ints.append(d.a[0].a[0].a[0])
    G = R.plus(signs=s, assume=assume)
    G.draws, G.hs = draws, ints
    G.firm = getattr(R, 'firm', ())      # assumptions that have to hold despite rounding
    G.slack = getattr(R, 'slack', 0)     # absolute error of the probabilities compared
    inner = R.gen

    def gen(rng):
        env = inner(rng) if inner else {}
        for k in s:
            c = rng.random()
            env[k] = Fr(1, 2 ** 64) if c < .03 else Fr(1) if c < .06 else Fr(0) if c < .09 else Fr(rng.getrandbits(53), 2 ** 53) if c < .6 else Fr(rng.getrandbits(53) ** 3, 2 ** 159) if c < .8 else 1 - Fr(rng.getrandbits(53) ** 3, 2 ** 159)
        for k in ints:
            # a shallow or an edge position within the layer
            c = rng.random()
            j = rng.getrandbits(24) if c < .5 else (1 << 24) - 1 - rng.getrandbits(rng.choice((4, 8, 12, 16, 18)))
            env[k] = j + (rng.getrandbits(32) << 24)
        return env
    G.gen = gen
    return G


def words(region, env):
    """The words of the source at a point, and the environment they really give."""
    env = dict(env)
    out = []
    for d in region.draws:
        if d.op == 'ivar':
            n = 'U' + d.a[0][1:]
            u = env.get(n)
            w = env.get(d.a[0], 0) if u is None else min((1 << 64) - 1, max(0, int(Fr(u) * (1 << 64))))
            env[n] = Fr(float(w)) / (1 << 64)
            env[d.a[0]] = w
        else:
            env.setdefault(d.a[0].a[0].a[0], 1)
            env[d.a[0].a[0].a[0]] = int(env[d.a[0].a[0].a[0]]) % (1 << 56)
            w = mpev.iev(d, env)
        out.append(int(w))
    return out, env


def fill(model, region):
    env = {}
    for k, v in (model or {}).items():
        if isinstance(k, IT):
            if k.op == 'slice':
                # a window of a word
                n = k.a[0].a[0]
                env[n] = env.get(n, 0) + (int(v) << k.a[1])
            else:
                env[k.a[0] if k.op == 'ivar' else k] = int(v)
        else:
            env[k] = v
    for n in K.free_vars(region) + [n for n in region.signs if n[0] == 'U']:
        if n not in env:
            env[n] = (Fr(1, 2) if n[0] == 'U' else Fr(1)) if n in region.signs else Fr(0)
        elif region.signs.get(n) == 'pos' and env[n] <= 0:
            env[n] = Fr(1, 10 ** 30)
    for n in region.ints:
        env[n] = int(env.get(n, 1))
    return env


def sampled(job, entry, region, draws, spec, kind='out_f', extra=(('out', 2),), timeout=10.0, max_paths=200, witness=True, hunting=300, probes=99, **opts):
    """Every path of a sampler over the region and the words agrees with the specification."""
    G = region_with(region, draws)
    ctx = job.ctx(G)
    args = list(region.args) + list(extra)
    nd = len(draws)
    try:
        pieces = spec(region.args)
        paths = job.exec(ctx, entry, args, draws=list(draws), max_draws=nd, max_paths=max_paths, **opts)
    except (symex.SymError, Unsupported, Blowup, llir.IRError) as e:
        job.undecided.append('%s: not encoded: %s' % (entry, e))
        search(job, entry, G, spec, kind, args, None, hunting)
        return
    for p in paths:
        if job.left() < 0:
            job.undecided.append('%s: out of time' % entry)
            break
        val = K.path_value(kind, p) if p.kind == 'ret' else None
        ok = True
        for c, v in pieces:
            if c is FALSE:
                continue
            if p.kind == 'draws' and v is MORE:
                job.proved += 1
                continue
            q = [c]
            if p.kind == 'ret' and v is not MORE and v[1] == len(p.draws):
                q.append(K.differs(val, v[0]))
            try:
                res, m = ctx.check(p.pc + q, timeout=timeout, model=True)
            except (Unsupported, Blowup, ZeroDivisionError):
                res, m = 'unknown', None
            if res == 'unsat':
                job.proved += 1
                continue
            ok = False
            n0 = len(job.violations) + len(job.known)
            if res == 'sat':
                at(job, entry, G, spec, kind, args, fill(m, G))
            for ex in K.probe_conds(region)[:8]:
                if len(job.violations) + len(job.known) > n0 or job.left() < 0:
                    break
                s, m = ctx.check(p.pc + q + ex, timeout=2.0, model=True)
                if s == 'sat':
                    at(job, entry, G, spec, kind, args, fill(m, G))
            if len(job.violations) + len(job.known) == n0:
                search(job, entry, G, spec, kind, args, p, hunting)
            if len(job.violations) + len(job.known) == n0:
                job.undecided.append('%s: %s after %d words (%s) on {%s}' % (entry, p.kind, len(p.draws), res, '; '.join(str(x)[:120] for x in p.pc + q)))
        if ok:
            job.sample('%s on {%s}: %s after %d words' % (entry, '; '.join(str(x)[:60] for x in p.pc), str(val)[:120] if val is not None else 'asks for more', len(p.draws)))
        if witness and ok and p.kind == 'ret':
            for ex in ([[]] + K.probe_conds(region))[:probes]:
                if job.left() < 5:
                    break
                s, m = ctx.check(p.pc + ex, timeout=0.7, model=True)
                if s == 'sat' and at(job, entry, G, spec, kind, args, fill(m, G)):
                    break
    return paths


def at(job, entry, G, spec, kind, args, env):
    """Replay one point on the compiled code; True when the specification fails there."""
    try:
        ws, env = words(G, env)
        if not all(mpev.evc(c, env) for c in G.assume):
            return False
        # rounding may move the point out of the region
        if any(nearly_(c, env, pos=False) for c in getattr(G, 'firm', ())):
            return False
        cargs = job.conc(args, env)
        pieces = close_(spec(job.lifted(cargs[:len(G.args)])), env)
        want = [(c, v) for c, v in pieces if holds(c, env)]
    except ERR:
        return False
    if not want or want[0][1] is MORE:
        return False
    res = job.call(entry, cargs, ws)
    if res[0] != 'ok':
        if res[0] == 'hang' and any(v is MORE and nearly_(c, env) for c, v in pieces):
            return False
        if not K.apart(job, G, cargs, env):
            return False
        job.violate(entry, cargs, ws, res[0], show(want[0][1], env), 'no result')
        return True
    got, used = K.nat_value(kind, res), res[3]
    try:
        good = any(used == v[1] and agree(got, v[0], env) for c, v in want if v is not MORE)
        if not good:
            # rounding may move a point across a boundary
            good = any(v is MORE or used == v[1] and agree(got, v[0], env) for c, v in pieces if nearly_(c, env, slack=getattr(G, 'slack', 0)))
    except ERR:
        return False
    if not good:
        job.violate(entry, cargs, ws, '%s after %d words' % (got, used), show(want[0][1], env), 'sample')
        return True
    return False


def close_(pieces, env):
    return pieces


def holds(c, env):
    return mpev.evc(c, env)


def nearly_(c, env, pos=True, slack=0):
    if isinstance(c, int):
        return bool(c) == pos
    if c.op == 'not':
        return nearly_(c.a[0], env, not pos, slack)
    if c.op in ('and', 'or'):
        return (all if (c.op == 'and') == pos else any)(nearly_(x, env, pos, slack) for x in c.a)
    if c.op in ('ilt', 'ile', 'ieq'):
        return mpev.evc(c, env) == pos
    (x, ex), (y, ey) = K.numeric(c.a[0], env), K.numeric(c.a[1], env)
    if mpmath.isinf(x) or mpmath.isinf(y):
        return mpev.evc(c, env) == pos
    tol = UNIT * (ex + ey + abs(x) + abs(y)) + slack
    if c.op == 'eq':
        return abs(x - y) <= tol if pos else True
    return x <= y + tol if pos else x >= y - tol


def agree(got, v, env):
    if isinstance(v, int):
        return got == v
    if isinstance(v, tuple) and v[0] == 'near':
        val, _ = K.numeric(v[1], env)
        tol, _ = K.numeric(v[2], env)
        return got == got and abs(mpf(got) - val) <= tol
    if isinstance(v, tuple) and v[0] == 'between':
        return got == got and K.numeric(v[1], env)[0] <= mpf(got) <= K.numeric(v[2], env)[0]
    val, e = K.numeric(v, env)
    return mpev.close(float(got), val, e)


def show(v, env):
    x = v[0]
    if isinstance(x, tuple):
        x = x[1]
    return '%s after %d words' % (x if isinstance(x, int) else mpmath.nstr(K.numeric(x, env)[0], 17), v[1])


def search(job, entry, G, spec, kind, args, p, n):
    for env in K.grid(G, n):
        if job.left() < -20:
            return
        try:
            _, e = words(G, env)
            if p is not None and not all(mpev.evc(c, e) for c in p.pc):
                continue
        except ERR:
            continue
        if at(job, entry, G, spec, kind, args, env):
            return
