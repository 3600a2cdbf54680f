"""Samplers by inversion."""
from .discrete import *
from ..samp import *
BOUNDS = ('every word of the source (U in [0, 1], both ends included, as the conversion to a double rounds); every parameter the constructors accept; '
          'categorical: 2 to 5 (thorough 7) categories; binomial: n <= 10 (thorough 24), p in [2^-20, 1 - 2^-20]')
ASSUMPTIONS = ASSUME

U = UN[0]


def quantile(d, up):
    """The u-quantile or the (1-u)-quantile, one word each."""
    def f(A):
        return [(c, (v, 1)) for c, v in d.inverse(A, U if up else 1 - U)]
    return f


def ofdist(d, up, kind):
    out = []
    for i, g in enumerate(d.regions):
        def f(job, g=g):
            # either direction gives the law
            sampled(job, d.name + '__sample', g, [word(0)], quantile(d, up), kind)
            if job.violations or job.undecided:
                keep = job.violations, job.undecided
                job.violations, job.undecided = [], []
                sampled(job, d.name + '__sample', g, [word(0)], quantile(d, not up), kind)
                if job.violations or job.undecided:
                    job.violations, job.undecided = keep
        out.append(('%s.sample[%d]' % (d.name, i), f, None))
    return out


def lattice(d):
    """A Bernoulli trial: which of u < q and u <= q decides is not observable in law."""
    def f(job):
        sampled(job, d.name + '__sample', d.regions[0], [word(0)], lambda A: [(lt(U, d.qq(A)), (0, 1)), (lt(d.qq(A), U), (1, 1))], 'out_i')
    return [(d.name + '.sample', f, None)]


def categorical(tier):
    out = []
    for d in cats(tier):
        def f(job, d=d):
            sampled(job, 'categorical__sample', d.regions[0], [word(0)], quantile(d, True), 'out_i')
        out.append(('categorical(%d).sample' % d.k, f, None))
    return out


def binomial(tier):
    out = []
    for n in range(1, 11 if tier == 'quick' else 25):
        for d in BINS:
            def f(job, d=d, n=n):
                R = bin_region(n, Fr(1, 2 ** 20))
                R.slack = mpf('1e-14')      # sums from the top work with 1 - u
                sampled(job, d.name + '__sample', R, [word(0)], lambda A: [(c, (v, 1)) for c, v in d.inverse_n(A, U)], 'out_i', split=n + 1)
            out.append(('%s.sample(n=%d)' % (d.name, n), f, None))
    return out


def jobs(W, tier):
    N = BYNAME
    out = []
    for n, up in (('uniform', True), ('exponential', False), ('laplace', True), ('logistic', True), ('triangular', True)):
        out += ofdist(N[n], up, 'out_f')
    return out + lattice(N['bernoulli']) + lattice(N['bernoulli_f']) + categorical(tier) + binomial(tier)
