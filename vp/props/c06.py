"""Mean, variance, standard deviation."""
from .common import *
BOUNDS = 'every parameter in the constructors\' domains (real-valued); Binomial n <= 10^9; Categorical with 1..5 categories (quick) or 1..7 (thorough)'
ASSUMPTIONS = ASSUME


def jobs(W, tier):
    ks = range(1, 6) if tier == 'quick' else range(1, 8)
    return opjobs(('mean', 'variance', 'deviation'), dists=S.DISTS + [Categorical(k) for k in ks])
