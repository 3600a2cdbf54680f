"""Independent samplers: an endless sequence of direct samples.

Both sides are the real code: the items an iterator yields over symbolic words are compared with what direct sampling makes of
the same words, one sample after another.
"""
from .discrete import *
from .zig import *
from . import c13
BOUNDS = ('every word of the source; every parameter the constructors accept (binomial: n = 2; categorical: 3 categories); zero to three items (thorough: five) by next, take and nth, '
          'a sampler left and another begun on the same source; the normal and gamma samplers: layers 5 and 64, accepted at once or after one rejection; '
          'the other distributions without sampling by inversion share the one generic implementation')
ASSUMPTIONS = ASSUME


def direct(job, ctx, d, args, pc, draws, n, kind, tail=()):
    """Everything n direct samples can do with the words: (conditions, values or None when words run out, words used)."""
    done = [(list(pc), [], 0)]
    out = []
    for _ in range(n):
        nxt = []
        for c, vs, at in done:
            rest = draws[at:]
            for q in job.exec(ctx, d + '__sample', list(args) + [('out', 2)], draws=list(rest), max_draws=len(rest), pre=c, max_paths=400):
                qc = dedup(c + q.pc)
                if q.kind == 'ret':
                    nxt.append((qc, vs + [K.path_value(kind, q)], at + len(q.draws)))
                elif q.kind == 'draws':
                    out.append((qc, None, None))
                else:
                    job.undecided.append('%s: a direct sample ends with %s' % (d, q.kind))
        done = nxt
    return out + done


def dedup(l):
    out, seen = [], set()
    for c in l:
        k = c if isinstance(c, int) else c.id
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out


def compare(job, d, region, draws, entry, k, n, pick, kind):
    """The run of `entry` with the item count k equals n direct samples, of which it reports those in pick."""
    G = region_with(region, draws)
    ctx = job.ctx(G)
    extra = [('out', 8), k]
    try:
        paths = job.exec(ctx, '%s__%s' % (d, entry), list(region.args) + extra, draws=list(draws), max_draws=len(draws), max_paths=400)
    except (symex.SymError, Unsupported, Blowup, llir.IRError) as e:
        job.undecided.append('%s__%s: not encoded: %s' % (d, entry, e))
        replays(job, d, G, entry, k, n, pick, kind, None, 60)
        return
    for p in paths:
        if job.left() < 0:
            job.undecided.append('%s__%s: out of time' % (d, entry))
            return
        bad = False
        if p.kind not in ('ret', 'draws'):
            bad = True
        else:
            if p.kind == 'ret':
                got = [(K.as_int if kind == 'out_i' else K.as_double)(p.out.get(i, 0)) for i in range(p.ret)] if isinstance(p.ret, int) else None
            try:
                all_ = direct(job, ctx, d, region.args, p.pc, draws, n, kind)
            except (symex.SymError, Unsupported, Blowup, llir.IRError) as e:
                job.undecided.append('%s: direct samples not encoded: %s' % (d, e))
                continue
            for c, vs, used in all_:
                if p.kind == 'draws':
                    good = vs is None
                elif vs is None or got is None or len(got) != len(pick) or used != len(p.draws):
                    good = False
                else:
                    good = True
                    neq = K.neq(got, [vs[i] for i in pick])
                    if not (isinstance(neq, int) and not neq):
                        good = ctx.check(c + [neq])[0] == 'unsat'
                if not good and ctx.check(c)[0] == 'unsat':
                    good = True
                if good:
                    job.proved += 1
                    continue
                bad = True
        n0 = len(job.violations)
        s, m = ctx.check(p.pc, timeout=2.0, model=True)
        if s == 'sat':
            same(job, d, G, entry, k, n, pick, kind, fill(m, G))
        if bad:
            replays(job, d, G, entry, k, n, pick, kind, p, 200)
            if len(job.violations) == n0:
                job.undecided.append('%s__%s: %s after %d words' % (d, entry, p.kind, len(p.draws)))
        elif len(job.violations) == n0:
            job.sample('%s__%s(%s): %s after %d words equals %d direct samples' % (d, entry, k, p.kind, len(p.draws), n))


def same(job, d, G, entry, k, n, pick, kind, env):
    """Replay: items against direct samples on the compiled code, bit by bit."""
    try:
        ws, env = words(G, env)
        if not all(mpev.evc(c, env) for c in G.assume):
            return False
        cargs = job.conc(list(G.args), env)
    except ERR:
        return False
    if not ws:
        ws = [0x123456789abcdef]
    ws = ws + [(w * 0x9e3779b97f4a7c15 + 12345) % 2 ** 64 for w in ws] + [(0x9e3779b97f4a7c15 * (i + 1)) % 2 ** 64 for i in range(24)]
    vals, at = [], 0
    for _ in range(n):
        if at >= len(ws):
            return False
        r_ = job.call(d + '__sample', cargs + [('out', 2)], ws[at:])
        if r_[0] != 'ok' or at + r_[3] > len(ws):
            return False
        vals.append(r_[2][0])
        at += r_[3]
    res = job.call('%s__%s' % (d, entry), cargs + [('out', 8), k], ws)
    want = [vals[i] for i in pick]
    if res[0] != 'ok' or list(res[2][:res[1]]) != want or res[1] != len(want) or res[3] != at:
        job.violate('%s__%s' % (d, entry), cargs + [('out', 8), k], ws, res[0] if res[0] != 'ok' else '%s after %d words' % (vs_(res[2][:res[1]], kind), res[3]),
                    '%s after %d words' % (vs_(want, kind), at), 'items are not the direct samples')
        return True
    return False


def vs_(l, kind):
    return [x if kind == 'out_i' else native.f2d(x) for x in l]


def replays(job, d, G, entry, k, n, pick, kind, p, m):
    for env in K.grid(G, m):
        if job.left() < -20 or same(job, d, G, entry, k, n, pick, kind, env):
            return


def single(name, region, kind, tier, most=3, make=None):
    """Jobs for one distribution; make(i): the words of item i, in front of which region(i items) states what they are."""
    make = make or (lambda i: [word(i)])
    out = []
    top = 4 if tier == 'quick' else 6
    cases = [('indep', k, k, list(range(k))) for k in range(top)] + [('indep_take', k, k, list(range(k))) for k in range(top)]
    if name != 'categorical':
        cases += [('indep_nth', k, k + 2, [k, k + 1]) for k in range(top - 1)]
        cases += [('indep_resume', k, k + 2, list(range(k + 2))) for k in range(1, top - 1)] + [('indep_shared', 0, 2, [0, 1])]
    else:
        cases = [c for c in cases if c[0] == 'indep']
    for entry, k, n, pick in cases:
        if n > most:
            continue

        def f(job, entry=entry, k=k, n=n, pick=pick):
            ws = [w for i in range(n) for w in make(i)]
            compare(job, name, region(n), ws, entry, k, n, pick, kind)
        out.append(('%s.%s(%d)' % (name, entry, k), f, None))
    return out


def hint(name, region, kind, n=1):
    def f(job):
        for k in (0, 1):
            sampled(job, name + '__indep_hint', region, [word(i) for i in range(k)], lambda A: [(TRUE, (1, k))], 'ret_i', extra=(('out', 8), k))
    return ('%s.size_hint' % name, f, None)


def jobs(W, tier):
    N = BYNAME
    out = []
    for n in ('uniform', 'exponential', 'laplace', 'logistic', 'triangular', 'bernoulli', 'bernoulli_f'):
        d = N[n]
        g = d.regions[0]
        out += single(n, lambda _, g=g: g, 'out_i' if d.discrete else 'out_f', tier, most=(9 if n in ('uniform', 'exponential') else 3) if tier == 'quick' else 4 if n == 'triangular' else 9)
        out.append(hint(n, g, 'out_f'))
    for d in BINS:
        g = bin_region(2, Fr(1, 2 ** 20))
        out += [x for x in single(d.name, lambda _, g=g: g, 'out_i', 'quick')]
    for d in cats('quick'):
        if d.k == 3:
            out += single('categorical', lambda _, g=d.regions[0]: g, 'out_i', 'quick')
    ls = (5, 64, 100)

    def normal(n):
        return N['gaussian'].regions[0]
    # one word when in the core, two otherwise: the words of an item can be those of the next one
    def cores(n):
        return N['gaussian'].regions[0].plus(assume=[c13.core(ls[i % 3], i) for i in range(n)])
    out += single('gaussian', cores, 'out_f', tier, most=9, make=lambda i: [zword(i, low(ls[i % 3], 1 if i % 2 else -1))])

    def wedge(job):
        # the first item from the wedge
        ws = [zword(0, low(5, 1)), word(1), zword(1, low(64, -1))]
        R = N['gaussian'].regions[0].plus(assume=[cnot(c13.core(5, 0)), mkc('ilt', K24[5] + 2, zj(0)), c13.core(64, 1)])
        compare(job, 'gaussian', R, ws, 'indep', 2, 2, [0, 1], 'out_f')
        compare(job, 'gaussian', R, ws, 'indep_shared', 0, 2, [0, 1], 'out_f')
        R2 = R.plus(assume=[c13.core(100, 2)])
        compare(job, 'gaussian', R2, ws + [zword(2, low(100, 1))], 'indep_nth', 1, 3, [1, 2], 'out_f')
        compare(job, 'gaussian', R2, ws + [zword(2, low(100, 1))], 'indep_take', 3, 3, [0, 1, 2], 'out_f')
    out.append(('gaussian.indep through a wedge', wedge, None))

    def gam(entry, k):
        def f(job):
            X, Y = place(job, 5, 1), place(job, 64, -1, 1)
            q = c13.s_
            R = c13.gamma_region(False, [c13.core(5, 0), c13.core(64, 1)], c13.accepted(q, X, UN[1]) + c13.accepted(q, Y, UN[3]))
            compare(job, 'gamma', R, [zword(0, low(5, 1)), word(1), zword(1, low(64, -1)), word(3)], entry, k, 2, [0, 1], 'out_f')
        return ('gamma.' + entry, f, 100)
    return out + [gam('indep', 2), gam('indep_shared', 0)] + ([gam('indep_take', 2)] if tier != 'quick' else [])
