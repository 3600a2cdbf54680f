"""Claims that relate several runs of the real code (the results of one may feed the next)."""
import math
import mpmath
from mpmath import mpf
from .check import *
from . import check as K
from . import mpev, term as tm, symex, llir
from .term import *
from .poly import Unsupported, Blowup


class Run:
    def __init__(self, entry, args, kind='f', draws=None):
        """args(A, vals) -> argument list; A are the region's terms (or the exact doubles on replay)."""
        self.entry, self.args, self.kind, self.draws = entry, args, kind, draws


class Claim:
    """('eq'|'le'|'lt', x, y): x rel y for terms, integers or lists of them."""

    def __init__(self, rel, x, y, text='', tol=None, ctol=None):
        self.rel, self.x, self.y, self.text, self.tol, self.ctol = rel, x, y, text, tol, ctol

    def negation(self):
        if self.rel == 'eq':
            return K.neq(self.x, self.y)
        if isinstance(self.x, (int, IT)) and isinstance(self.y, (int, IT)):
            return cnot(mkc('i' + self.rel, self.x, self.y)) if not (isinstance(self.x, int) and isinstance(self.y, int)) else int(not (self.x <= self.y if self.rel == 'le' else self.x < self.y))
        x, y = lift(self.x), lift(self.y)
        for v, big in ((x, 1), (y, -1)):
            if v.op == 'const' and math.isinf(v.cv):
                return int(v.cv * big > 0)
        return cnot(mkc(self.rel, x, y))

    def holds(self, tol):
        """On concrete values."""
        if isinstance(self.x, list) or isinstance(self.y, list):
            return isinstance(self.x, list) and isinstance(self.y, list) and len(self.x) == len(self.y) and \
                all(Claim(self.rel, a, b).holds(tol) for a, b in zip(self.x, self.y))
        if isinstance(self.x, int) and isinstance(self.y, int):
            return self.x == self.y if self.rel == 'eq' else self.x <= self.y if self.rel == 'le' else self.x < self.y
        (x, ex), (y, ey) = K.numeric(lift(self.x)), K.numeric(lift(self.y))
        if mpmath.isnan(x) or mpmath.isnan(y):
            return False
        if mpmath.isinf(x) or mpmath.isinf(y):
            if self.rel != 'eq':
                return x <= y
            return x == y or abs(x) > mpf('1e306') and x * y > 0 and abs(y) > mpf('1e306')
        slack = K.UNIT * (ex + ey + abs(x) + abs(y)) + tol + mpf('1e-300')
        return abs(x - y) <= slack if self.rel == 'eq' else x <= y + slack


def relate(job, region, runs, claims, ranges=None, max_paths=120, timeout=10.0, pre=(), witness=True, npoints=400, probes=True, track=False, ints=False, **opts):
    """Every combination of paths of the runs satisfies every claim.

    claims(A, vals) -> [Claim]
    """
    ctx = job.ctx(region)
    combos = []

    def go(i, pc, vals):
        if i == len(runs):
            combos.append((pc, vals))
            return
        R = runs[i]
        ps = job.exec(ctx, R.entry, R.args(region.args, vals), pre=list(pre) + pc, max_paths=max_paths, **dict(opts, **({'draws': R.draws} if R.draws else {})))
        for p in ps:
            if p.kind != 'ret':
                combos.append((p.pc, None))
                continue
            go(i + 1, dedup(pc + p.pc), vals + [K.path_value(R.kind, p)])
    try:
        go(0, [], [])
        if track:
            track = combos
    except (symex.SymError, Unsupported, Blowup, llir.IRError) as e:
        if track:
            track = []
        job.undecided.append('%s: not encoded: %s' % (runs[0].entry, e))
        sweep(job, region, runs, claims, None, None, ranges, npoints, track)
        return
    for pc, vals in combos:
        if job.left() < 0:
            job.undecided.append('%s: out of time' % runs[0].entry)
            break
        if vals is None:
            if ctx.check(pc, timeout=timeout)[0] == 'unsat':
                continue
            sweep(job, region, runs, claims, pc, None, ranges, npoints, track)
            job.undecided.append('%s: a path ends without a result on {%s}' % (runs[0].entry, '; '.join(str(c)[:80] for c in pc)))
            continue
        ok = True
        for cl in claims(region.args, vals):
            neg = cl.negation()
            res, m = ('unsat', None) if neg is FALSE or (isinstance(neg, int) and neg == 0) else ctx.check(pc + [neg], timeout=timeout, ints=ints)
            if res == 'unsat':
                job.proved += 1
                continue
            ok = False
            n0 = len(job.violations) + len(job.known)
            for extra in [[]] + K.probe_conds(region)[:12]:
                if job.left() < 0:
                    break
                s, m = ctx.check(pc + [neg] + extra, timeout=2.0, model=True)
                if s == 'sat' and point(job, region, runs, claims, job.env_of(m, region), track):
                    break
            if len(job.violations) + len(job.known) == n0:
                sweep(job, region, runs, claims, pc, [neg], ranges, npoints, track)
            if len(job.violations) + len(job.known) == n0:
                job.undecided.append('%s: %s (%s) on {%s}' % (runs[0].entry, cl.text or 'claim', res, '; '.join(str(c)[:100] for c in pc)))
        if ok:
            job.sample('%s on {%s}' % (' / '.join(R.entry for R in runs), '; '.join(str(c)[:60] for c in pc) or 'every input'))
        if witness:
            for extra in [[]] + (K.probe_conds(region) if probes else []):
                if job.left() < 5:
                    return
                s, m = ctx.check(pc + extra, timeout=0.7, model=True)
                if s == 'sat' and point(job, region, runs, claims, job.env_of(m, region), track):
                    break


def dedup(l):
    out, seen = [], set()
    for c in l:
        k = c.id if not isinstance(c, int) else ('i', c)
        if k not in seen:
            seen.add(k)
            out.append(c)
    return out


def strip(args):
    return [x for x in args]


def judged(region, claims, track, env):
    """Tolerances of the claims at an exact point: the rounding errors of the paths taken there, or None."""
    for pc, vals in track:
        if all(mpev.evc(c, env) for c in pc):
            if vals is None or not all(mpev.evd(c, env) for c in pc):
                return None
            out = []
            for cl in claims(region.args, vals):
                out.append(errs(cl.x, env) + errs(cl.y, env))
            return out
    return None


def errs(v, env):
    if isinstance(v, list):
        return max([errs(y, env) for y in v] + [mpf(0)])
    if not isinstance(v, T):
        return mpf(0)
    x, e = K.numeric(v, env)
    return e if mpmath.isfinite(e) else mpf(0)


def resolved(terms, cargs, env=None):
    """Differences between the arguments (and from one) survive their rounding to doubles."""
    with mpmath.workdps(140):
        return apart(terms, cargs, env)


def apart(terms, cargs, env):
    P = [(mpf(1), mpf(1))]
    for x, y in zip(terms, cargs):
        if isinstance(x, T):
            P.append((mpev.ev(x, env or {})[0], mpf(y)))
    for i in range(len(P)):
        for j in range(i):
            d = P[i][0] - P[j][0]
            if not mpmath.isfinite(d):
                return False
            if abs(d - (P[i][1] - P[j][1])) > abs(d) * mpf('1e-9'):
                return False
    return True


def point(job, region, runs, claims, env, track=False):
    """Replay on the real code; True when a claim fails there."""
    try:
        if track is not False:
            for k, v in env.items():
                if isinstance(v, Fr):
                    env = dict(env, **{k: Fr(float(v))})
            if not resolved(region.args, job.conc(region.args, env), env):
                return False
            slack = judged(region, claims, track, env)
            if slack is None:
                return False
        A = job.lifted(job.conc(region.args, env))
        for c in region.assume:
            if not mpev.evc(c, env):
                return False
        vals, done = [], []
        for R in runs:
            targs = [x for x in R.args(A, vals)]
            cargs = job.conc(targs, {})
            if track is not False and not resolved(targs, cargs):
                return False
            if not K.admissible(region, cargs, env):
                return False
            done.append((R.entry, cargs))
            res = job.call(R.entry, cargs, None)
            if res[0] != 'ok':
                job.violate(R.entry, cargs, None, res[0], 'a result', 'no result')
                return True
            v = K.nat_value(R.kind, res)
            vals.append([lift(x) if isinstance(x, float) else x for x in v] if isinstance(v, list) else lift(v) if isinstance(v, float) else v)
        for i, cl in enumerate(claims(A, vals)):
            t = mpf(0) if track is False else K.UNIT * slack[i]
            if cl.tol is not None:
                t = K.numeric(lift(cl.tol))[0] if not callable(cl.tol) else cl.tol(job, done, vals)
            if not cl.holds(t):
                job.violate(done[-1][0], done[-1][1], None, '%s; %s' % (', '.join(show_(v) for v in vals), cl.text),
                            '%s %s %s' % (sh(cl.x), cl.rel, sh(cl.y)), cl.text)
                return True
    except (mpev.Undef, ValueError, OverflowError, ZeroDivisionError, mpmath.libmp.NoConvergence, KeyError, TypeError):
        return False
    return False


def show_(v):
    return repr(v.cv) if isinstance(v, T) else str(v)


def sh(v):
    try:
        return K.showv(v) if not isinstance(v, list) else str([K.showv(x) for x in v])
    except Exception:
        return str(v)


def sweep(job, region, runs, claims, pc, neg, ranges, n, track=False):
    hits = 0
    for env in K.grid(region, n, ranges=ranges):
        if job.left() < -20 or hits > 120:
            return
        try:
            if not all(mpev.evc(c, env) for c in region.assume):
                continue
            if pc is not None and not all(mpev.evc(c, env) for c in pc):
                continue
        except (mpev.Undef, ValueError, OverflowError, ZeroDivisionError, mpmath.libmp.NoConvergence, KeyError):
            continue
        hits += 1
        if point(job, region, runs, claims, env, track):
            return
