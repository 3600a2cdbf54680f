"""Obligations: symbolic execution, solver verdicts, and replay of counterexamples."""
import json
import math
import os
import random
import struct
import sys
import time
import traceback
from fractions import Fraction as Fr
import mpmath
from mpmath import mpf
from . import native, llir, symex, smt, mpev, known
from . import term as tm
from .term import *
from .term import C as Cond
from .poly import Unsupported, Blowup
from .spec import Region, r
from .mpev import UNIT


class World:
    """The compiled code under test."""

    def __init__(self):
        t = time.time()
        lls, so = native.build()
        self.build_s = time.time() - t
        self.so = so
        self.mod = llir.Module(lls)
        self.lib = native.Lib(so)
        self._nat = {}

    @property
    def nat(self):
        p = os.getpid()
        if p not in self._nat:
            self._nat = {p: native.Native(self.so, self.mod)}
        return self._nat[p]


class Violation(Exception):
    pass


def hexf(x):
    return float(x).hex()


class Job:
    """One obligation's working state and record."""

    def __init__(self, world, name, budget=60.0):
        self.W = world
        self.name = name
        self.ctxs = []
        self.execs = []
        self.violations = []
        self.undecided = []
        self.proved = 0
        self.claims = []
        self.paths = 0
        self.replays = 0
        self.concrete = 0
        self.samples = []
        self.t0 = time.time()
        self.budget = budget
        self.notes = []
        self.known = []

    def left(self):
        return self.budget - (time.time() - self.t0)

    def ctx(self, region):
        c = smt.Ctx(self.W.lib, region.signs, region.assume)
        self.ctxs.append(c)
        return c

    def exec(self, ctx, entry, args, draws=None, pre=(), **k):
        feas = k.pop('feas', None)
        e = symex.Exec(self.W.mod, self.W.lib, ctx, **k)
        if feas:
            e.feas_timeout = feas
        ps = e.run(entry, args, draws=draws, pre=pre)
        self.execs.append(e)
        self.paths += len(ps)
        if e.truncated and not k.get('soft'):
            self.undecided.append('%s: path limit reached' % entry)
        return ps

    # ------------------------------------------------------------ concretisation
    def conc(self, args, env):
        """The concrete call for argument terms at a point."""
        out = []
        for x in args:
            if isinstance(x, T):
                out.append(mpev.fev(x, env))
            elif isinstance(x, IT):
                out.append(mpev.iev(x, env))
            elif isinstance(x, tuple) and x[0] == 'in':
                out.append(('in', [mpev.fev(y, env) for y in x[1]]))
            else:
                out.append(x)
        return out

    @staticmethod
    def lifted(cargs):
        """Concrete arguments as exact terms, for the specification."""
        out = []
        for x in cargs:
            if isinstance(x, float):
                out.append(const(x))
            elif isinstance(x, tuple) and x[0] == 'in':
                out.append(('in', [const(y) for y in x[1]]))
            else:
                out.append(x)
        return out

    def call(self, entry, cargs, draws=None):
        self.replays += 1
        return self.W.nat.call(entry, cargs, draws)

    def env_of(self, model, region):
        """Fill in a model: values for every free variable of the region."""
        env = {}
        for k, v in (model or {}).items():
            env[k if isinstance(k, str) else (k.a[0] if isinstance(k, IT) and k.op == 'ivar' else k)] = v
        for n in free_vars(region):
            if n not in env:
                env[n] = Fr(1) if n in region.signs else Fr(0)
            elif region.signs.get(n) == 'pos' and env[n] <= 0:
                env[n] = Fr(1, 10 ** 30)        # printed with too few digits
        for n in region.ints:
            if n not in env:
                env[n] = 1
            env[n] = int(env[n])
        return env

    def violate(self, entry, cargs, draws, got, want, why):
        for k in KNOWN:
            if known_match(k, self.prop, entry, cargs, draws, got):
                self.known.append((k['id'], k['what']))
                return
        self.violations.append(dict(property=self.prop, obligation=self.name, entry=entry, args=enc_args(cargs),
                                    draws=list(draws) if draws else None, got=str(got), want=str(want), why=why))

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def record(self):
        st = smt.Stats()
        for c in self.ctxs:
            st.add(c.stats.dict())
        fs = {}
        for e in self.execs:
            fs.update(e.funcs)
        return dict(name=self.name, proved=self.proved, undecided=self.undecided[:20], violations=self.violations[:10],
                    known=sorted(set(self.known)), paths=self.paths, replays=self.replays, concrete=self.concrete, samples=self.samples,
                    stats=st.dict(), funcs=sorted(set(fs.values())), wall=time.time() - self.t0, notes=self.notes[:10])


def free_vars(region):
    seen, out = set(), []

    def go(x):
        if isinstance(x, (T, IT, Cond)):
            if x.id in seen:
                return
            seen.add(x.id)
            if isinstance(x, T) and x.op == 'var':
                out.append(x.a[0])
            for y in x.a:
                go(y)
        elif isinstance(x, (tuple, list)):
            for y in x:
                go(y)
    for x in region.args:
        go(x)
    for x in region.assume:
        go(x)
    return [n for n in out if n not in region.ints]


def enc_args(cargs):
    out = []
    for x in cargs:
        if isinstance(x, float):
            out.append(['f', hexf(x)])
        elif isinstance(x, tuple) and x[0] == 'in':
            out.append(['in', [hexf(y) for y in x[1]]])
        elif isinstance(x, tuple):
            out.append(['out', x[1]])
        else:
            out.append(['i', x])
    return out


def dec_args(l):
    out = []
    for k, v in l:
        out.append(float.fromhex(v) if k == 'f' else ('in', [float.fromhex(y) for y in v]) if k == 'in' else ('out', v) if k == 'out' else v)
    return out


ROOT = native.ROOT
KFILE = os.path.join(ROOT, 'known_findings.json')


def load_known():
    try:
        return [k for k in json.load(open(KFILE))['findings'] if k.get('status') == 'known']
    except FileNotFoundError:
        return []


KNOWN = load_known()


def known_match(k, prop, entry, cargs, draws, got=None):
    """A listed finding covers exactly the call sites, inputs and results its predicate names."""
    if prop not in k['properties'] or entry not in k['entries']:
        return False
    return bool(eval(k['when'], {'__builtins__': {}}, dict(known.FUNCS, a=cargs, draws=draws, got=got, entry=entry)))


# ---------------------------------------------------------------- values

def pieces_at(pieces, env=None):
    """The specified value at a point: (value, err) | ('list', [...]) | None when no piece applies."""
    env = env or {}
    for c, v in pieces:
        if mpev.evc(c, env):
            return v
    return None


def numeric(v, env=None):
    """(mpf, err) of a term specification value."""
    env = env or {}
    if isinstance(v, T) and v.op == 'const':
        x = v.cv
        return (mpf('inf') if x == math.inf else mpf('-inf') if x == -math.inf else mpf(x)), mpf(0)
    return mpev.ev(v, env)


def agrees(got, v, scale=None):
    """Does the observed result (double / int / list) agree with the specified value?"""
    if isinstance(v, list):
        if len(got) != len(v):
            return False
        return all(agrees(g, x) for g, x in zip(got, v))
    if isinstance(v, int):
        return got == v
    if isinstance(v, tuple) and v[0] == 'between':
        return got == got and numeric(v[1])[0] <= mpf(got) <= numeric(v[2])[0]
    if isinstance(v, tuple) and v[0] == 'near':
        val, e = numeric(v[1])
        tol, _ = numeric(v[2])
        return got == got and abs(mpf(got) - val) <= tol
    if isinstance(v, tuple) and v[0] == 'approx':
        val, e = numeric(v[2])
        tol, _ = numeric(v[3])
        return got == got and abs(mpf(got) - val) <= tol + UNIT * e
    val, e = numeric(v)
    return mpev.close(float(got), val, e)


def showv(v):
    if isinstance(v, list):
        return '[%s]' % ', '.join(showv(x) for x in v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, tuple) and v[0] == 'approx':
        v = ('near', v[2], v[3])
    if isinstance(v, tuple) and v[0] == 'between':
        return 'between %s and %s' % (mpmath.nstr(numeric(v[1])[0], 8), mpmath.nstr(numeric(v[2])[0], 8))
    if isinstance(v, tuple):
        return 'within %s of %s' % (mpmath.nstr(numeric(v[2])[0], 8), mpmath.nstr(numeric(v[1])[0], 17))
    return mpmath.nstr(numeric(v)[0], 17)


PROBES = (Fr(1, 1000), Fr(1000), Fr(1, 10 ** 6), Fr(10 ** 6))


def probe_conds(region, skip=()):
    """Conditions that push one variable to a small or large magnitude."""
    out = []
    for n in free_vars(region):
        if n in skip:
            continue
        x = tm.var(n)
        for q in PROBES:
            if q < 1:
                if n in region.signs:
                    out.append([tm.lt(x, rat(q)), tm.lt(rat(q / 1000), x)])
            else:
                out.append([tm.lt(rat(q), x), tm.lt(x, rat(q * 1000))])
                if n not in region.signs:
                    out.append([tm.lt(x, rat(-q)), tm.lt(rat(-q * 1000), x)])
    return out


def grid(region, n, seed=1, ranges=None):
    """Quasi-random points of a region, magnitudes spread over many decades."""
    rng = random.Random(seed)
    names = free_vars(region)
    gen = getattr(region, 'gen', None)
    for _ in range(n):
        env = gen(rng) if gen else {}
        for k in names:
            if k in env:
                continue
            if ranges and k in ranges:
                lo, hi = ranges[k]
                env[k] = Fr(rng.uniform(lo, hi))
                continue
            c = rng.random()
            if c < 0.35:
                q = Fr(rng.randint(0, 16), rng.choice((1, 2, 4, 8)))
            else:
                q = Fr(10 ** rng.uniform(-4, 4) if c < 0.8 else 10 ** rng.uniform(-8, 8) if c < 0.9 else rng.random())
            if k in region.signs:
                if q == 0 and region.signs[k] == 'pos':
                    q = Fr(1, 2)
            elif rng.random() < 0.5:
                q = -q
            env[k] = q
        for k in region.ints:
            env[k] = int(10 ** rng.uniform(0, 5))
        yield env


# ---------------------------------------------------------------- decoding results

def path_value(kind, p):
    """The value a path returns, as terms: T / int / IT / list."""
    if kind in ('f', 'i', 'ret_i'):
        return p.ret
    if kind == 'modes_f':
        if not isinstance(p.ret, int):
            return None
        return [as_double(p.out.get(i, 0)) for i in range(p.ret)]
    if kind == 'modes_i':
        if not isinstance(p.ret, int):
            return None
        return [as_int(p.out.get(i, 0)) for i in range(p.ret)]
    if kind == 'out_f':
        return as_double(p.out.get(0, 0))
    if kind == 'out_i':
        return as_int(p.out.get(0, 0))
    raise ValueError(kind)


def as_double(x):
    if isinstance(x, T):
        return x
    if isinstance(x, IT) and x.op == 'd2b':
        return x.a[0]
    return constb(x)


def as_int(x):
    if isinstance(x, T) and x.op == 'const':
        return x.a[0]
    return x


def nat_value(kind, res):
    v = res[1]
    if kind in ('f', 'i', 'ret_i'):
        return v
    w = res[2]
    if kind == 'modes_f':
        return [native.f2d(x) for x in w[:v]]
    if kind == 'modes_i':
        return list(w[:v])
    if kind == 'out_f':
        return native.f2d(w[0])
    if kind == 'out_i':
        return w[0]


# ---------------------------------------------------------------- the equality obligation

def neq(a, b):
    """The condition that two values differ (conditions over reals / integers)."""
    if isinstance(b, list):
        if not isinstance(a, list) or len(a) != len(b):
            return 1
        c = 0
        for x, y in zip(a, b):
            c = cor(c, neq(x, y))
        return c
    if isinstance(b, (int, IT)) or isinstance(a, IT):
        if isinstance(a, int) and isinstance(b, int):
            return int(a != b)
        if isinstance(a, T) or isinstance(b, T):
            return 1
        return cnot(mkc('ieq', a, b)) if a is not b else 0
    if isinstance(a, int):
        return 1
    sa = a.op == 'const' and (a.cv != a.cv or math.isinf(a.cv))
    sb = b.op == 'const' and (b.cv != b.cv or math.isinf(b.cv))
    if sa or sb:
        return int(not (sa and sb and a.cv == b.cv))
    return cnot(tm.eq(a, b))


def farther(a, b, tol):
    """|a - b| > tol, by cases."""
    return cor(tm.lt(b + tol, a), tm.lt(a, b - tol))


def differs(a, v):
    if isinstance(v, tuple) and v[0] == 'near':
        return farther(a, v[1], v[2])
    if isinstance(v, tuple) and v[0] == 'approx':
        return neq(a, v[1])
    if isinstance(v, tuple) and v[0] == 'between':
        a = mk('i2f', a) if isinstance(a, IT) else lift(a)
        return cor(tm.lt(a, v[1]), tm.lt(v[2], a))
    return neq(a, v)


def equal(job, entry, region, spec, kind='f', draws=None, replay_draws=None, witness=True, pre=(), extra_args=(), ranges=None,
          max_paths=200, timeout=10.0, probes=True, accept=None, allow_panic=False, **opts):
    """Every path of `entry` over the region returns the specified value.

    spec(args) -> pieces; it is used with the region's terms and with exact doubles.
    """
    ctx = job.ctx(region)
    args = list(region.args) + list(extra_args)
    pieces = spec(region.args)
    try:
        paths = job.exec(ctx, entry, args, draws=draws, pre=pre, max_paths=max_paths, **opts)
    except (symex.SymError, Unsupported, Blowup, llir.IRError) as e:
        job.undecided.append('%s: not encoded: %s' % (entry, e))
        hunt(job, entry, region, spec, kind, args, None, None, ranges)
        return None
    for p in paths:
        if job.left() < 0:
            job.undecided.append('%s: out of time' % entry)
            break
        if p.kind == 'ret':
            val = path_value(kind, p)
            ok = True
            if val is None:
                job.undecided.append('%s: symbolic length' % entry)
                hunt(job, entry, region, spec, kind, args, p, None, ranges)
                continue
            for c, v in pieces:
                if c is FALSE:
                    continue
                try:
                    q = [c, differs(val, v)]
                    res, _ = ctx.check(p.pc + q, timeout=timeout)
                except (Unsupported, Blowup, ZeroDivisionError) as e:
                    res = 'unknown'
                if res == 'unsat':
                    job.proved += 1
                    continue
                ok = False
                refute(job, ctx, entry, region, spec, kind, args, p, q, res, ranges)
            if ok:
                job.sample('%s on {%s}: returns %s' % (entry, '; '.join(map(str, p.pc)) or 'every input', str(val)[:160]))
            if witness:
                witnesses(job, ctx, entry, region, spec, kind, args, p, probes)
        elif p.kind in ('panic', 'unreachable', 'domain', 'limit', 'badmem'):
            if allow_panic:
                continue
            res, _ = ctx.check(p.pc, timeout=timeout)
            if res == 'unsat':
                job.proved += 1
                continue
            refute(job, ctx, entry, region, spec, kind, args, p, [], res, ranges, what='%s (%s)' % (p.kind, p.info))
    return paths


def try_point(job, entry, region, spec, kind, args, env, why):
    """Replay one point; True when the real code breaks the specification there."""
    try:
        if not all(mpev.evc(c, env) for c in region.assume):
            return False
        cargs = job.conc(args, env)
        pieces = spec(job.lifted(cargs[:len(region.args)]))
        if not admissible(region, cargs, env):
            return False
        want = pieces_at(pieces)
    except (mpev.Undef, ValueError, OverflowError, ZeroDivisionError, mpmath.libmp.NoConvergence, KeyError):
        return False
    if want is None:
        return False
    res = job.call(entry, cargs)
    if res[0] != 'ok':
        if not apart(job, region, cargs, env):
            return False
        job.violate(entry, cargs, None, res[0], showv(want), why)
        return True
    got = nat_value(kind, res)
    try:
        good = agrees(got, want)
    except (mpev.Undef, ValueError, OverflowError, ZeroDivisionError, mpmath.libmp.NoConvergence):
        return False
    if not good and not exactly(cargs):
        # rounding may put a point next to a boundary on its other side
        try:
            good = any(agrees(got, v) for c, v in pieces if nearly(c, slack=getattr(region, 'slack', 0)))
        except (mpev.Undef, ValueError, OverflowError, ZeroDivisionError, mpmath.libmp.NoConvergence):
            return False
    if not good:
        job.violate(entry, cargs, None, got, showv(want), why)
        return True
    return False


def apart(job, region, cargs, env):
    """Are arguments that differ still different as doubles?  Otherwise the constructor may have to reject them."""
    from .rel import resolved
    try:
        return resolved(region.args, cargs, env)
    except (mpev.Undef, ValueError, OverflowError, ZeroDivisionError, mpmath.libmp.NoConvergence, KeyError):
        return False


def exactly(cargs):
    """Arguments with so few digits that sums and differences of them are exact."""
    for x in cargs:
        for y in x[1] if isinstance(x, tuple) and x[0] == 'in' else [x]:
            if isinstance(y, float):
                if math.isinf(y) or y != y:
                    continue
                m, e = math.frexp(y)
                if m * 2 ** 20 != int(m * 2 ** 20) or abs(e) > 26 and y:
                    return False
    return True


def nearly(c, pos=True, slack=0):
    """Is a closed condition true up to rounding?"""
    if isinstance(c, int):
        return bool(c) == pos
    if c.op == 'not':
        return nearly(c.a[0], not pos, slack)
    if c.op in ('and', 'or'):
        return (all if (c.op == 'and') == pos else any)(nearly(x, pos, slack) for x in c.a)
    if c.op in ('ilt', 'ile', 'ieq'):
        return mpev.evc(c, {}) == pos
    (x, ex), (y, ey) = numeric(c.a[0]), numeric(c.a[1])
    if mpmath.isinf(x) or mpmath.isinf(y):
        return mpev.evc(c, {}) == pos
    tol = UNIT * (ex + ey + abs(x) + abs(y)) + slack
    if c.op == 'eq':
        return abs(x - y) <= tol if pos else True
    return x <= y + tol if pos else x >= y - tol


def admissible(region, cargs, env):
    """The rounded arguments must still satisfy the constructor's contract (checked by a caller-supplied hook)."""
    f = getattr(region, 'contract', None)
    return f is None or f(cargs)


def refute(job, ctx, entry, region, spec, kind, args, p, q, res, ranges, what='differs from the specification'):
    """The solver did not prove it: look for an input on which the real code fails."""
    n0 = len(job.violations)
    k0 = len(job.known)
    tried = 0
    # the model of the query, and models pushed to other places
    for extra in [[]] + probe_conds(region)[:16]:
        if job.left() < 0:
            break
        s, m = ctx.check(p.pc + q + extra, timeout=2.0, model=True)
        if s == 'sat':
            tried += 1
            if try_point(job, entry, region, spec, kind, args, job.env_of(m, region), what):
                return
    hunt(job, entry, region, spec, kind, args, p, q, ranges)
    if len(job.violations) == n0 and len(job.known) == k0:
        job.undecided.append('%s: %s (%s) on {%s}' % (entry, what, res, '; '.join(str(c)[:160] for c in p.pc)))


def hunt(job, entry, region, spec, kind, args, p, q, ranges, n=400):
    """Concretise a failed or impossible proof: points of the path's region, replayed against the specification."""
    hits = 0
    for env in grid(region, n, ranges=ranges):
        if job.left() < -20 or hits > 150:
            return
        try:
            if not all(mpev.evc(c, env) for c in region.assume):
                continue
            if p is not None and not all(mpev.evc(c, env) for c in p.pc):
                continue
        except (mpev.Undef, ValueError, OverflowError, ZeroDivisionError, mpmath.libmp.NoConvergence, KeyError):
            continue
        hits += 1
        if try_point(job, entry, region, spec, kind, args, env, 'differs from the specification'):
            return


def witnesses(job, ctx, entry, region, spec, kind, args, p, probes):
    """Solver-chosen inputs of a path, at several magnitudes, replayed against the real code."""
    todo = [[]] + (probe_conds(region) if probes else [])
    first = True
    for extra in todo:
        if job.left() < 5:
            return
        s, m = ctx.check(p.pc + extra, timeout=0.7, model=True)
        if s != 'sat':
            continue
        env = job.env_of(m, region)
        if try_point(job, entry, region, spec, kind, args, env, 'solver witness of the path: result off by more than rounding'):
            return
        for near in jittered(region, env, p.pc):
            if try_point(job, entry, region, spec, kind, args, near, 'next to a solver witness of the path: result off by more than rounding'):
                return
        if first:
            first = False
            concrete(job, entry, args, env)


def jittered(region, env, pc, n=2):
    """Points of the same path nearby: the solver likes round numbers and boundaries, where rounding errors vanish."""
    vs = [v for k, v in env.items() if isinstance(v, Fr)]
    gaps = sorted({abs(v) for v in vs} | {abs(v - u) for i, v in enumerate(vs) for u in vs[:i]})
    gaps = [g for g in gaps if g > 0]
    if not gaps:
        return
    rng = random.Random(len(pc) + len(vs))
    for i in range(4 * n):
        near = {k: Fr(float(v + Fr(rng.uniform(-.4, .4)) * gaps[0])) if isinstance(v, Fr) else v for k, v in env.items()}
        if any(near[k] < 0 or s == 'pos' and near[k] == 0 for k, s in region.signs.items() if k in near):
            continue
        try:
            if all(mpev.evc(c, near) for c in list(region.assume) + list(pc)):
                yield near
                n -= 1
                if not n:
                    return
        except (mpev.Undef, ValueError, OverflowError, ZeroDivisionError, KeyError, mpmath.libmp.NoConvergence):
            continue


def concrete(job, entry, args, env, draws=None):
    """The executor itself, run on concrete values, must agree bit for bit with the compiled code."""
    try:
        cargs = job.conc(args, env)
    except (mpev.Undef, ValueError, OverflowError, ZeroDivisionError):
        return
    e = symex.Exec(job.W.mod, job.W.lib, smt.Ctx(job.W.lib), fold=True)
    try:
        sargs = [const(x) if isinstance(x, float) else ('in', [const(y) for y in x[1]]) if isinstance(x, tuple) and x[0] == 'in' else x for x in cargs]
        ps = e.run(entry, sargs, draws=draws)
    except (symex.SymError, llir.IRError):
        return
    if len(ps) != 1 or ps[0].kind not in ('ret', 'panic'):
        return
    res = job.call(entry, cargs, draws)
    p = ps[0]
    if p.kind == 'panic':
        good = res[0] == 'panic'
    elif res[0] != 'ok':
        good = False
    else:
        a = p.ret
        if isinstance(a, T):
            a = cval(a, job.W.lib)
            good = a == res[1] or (a != a and res[1] != res[1])
        else:
            good = a == res[1]
        if good and p.out is not None and res[2] is not None:
            for i, x in p.out.items():
                if isinstance(x, T):
                    y = cval(x, job.W.lib)
                    z = native.f2d(res[2][i])
                    if not (y == z or (y != y and z != z)):
                        good = False
    if good:
        job.concrete += 1
    else:
        job.undecided.append('executor disagrees with the compiled code: %s%r' % (entry, cargs))
