"""Shared pieces of the property modules."""
from ..check import *
from ..spec import *
from .. import spec as S

REAL = 'doubles are treated as exact real numbers in the solver queries; every counterexample, and solver-chosen inputs of every path, are replayed on the compiled code against 50-digit arithmetic'
LIBM = 'the mathematical library (exp, ln, erf, incomplete beta and gamma, ...) is assumed to compute the functions it names'
ASSUME = [REAL, LIBM, 'IR of the optimised build with assertions and overflow checks on']


def eqjob(name, entry, region, spec, kind='f', budget=None, **k):
    def f(job):
        equal(job, entry, region, spec, kind, **k)
    return (name, f, budget)


def opjobs(ops, kinds=None, dists=None):
    out = []
    for d in dists or S.DISTS:
        for op in ops:
            sp = getattr(d, op, None)
            if sp is None:
                continue
            kind = (kinds or {}).get(op, 'f')
            if kind == 'modes':
                kind = 'modes_i' if d.discrete else 'modes_f'
            for i, g in enumerate(d.regions):
                extra = (('out', 16),) if kind.startswith('modes') else ()
                out.append(eqjob('%s.%s[%d]' % (d.name, op, i), '%s__%s' % (d.name, op), g, sp, kind, extra_args=extra))
    return out


def fnjobs(op, dists=None, arg='x', kind='f', signs=None, assume=()):
    out = []
    for d in dists or S.DISTS:
        sp = getattr(d, op, None)
        if sp is None:
            continue
        for i, g in enumerate(d.regions):
            R = g.plus([var(arg)], signs=signs, assume=assume)
            n = len(g.args)
            out.append(eqjob('%s.%s[%d]' % (d.name, op, i), '%s__%s' % (d.name, op), R, lambda A, sp=sp, n=n: sp(A[:n], A[n]), 'i' if d.discrete and op == 'inverse' else kind))
    return out
