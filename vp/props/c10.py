"""Entropy."""
from .discrete import *
BOUNDS = ('every parameter in the constructors\' domains (real-valued); categorical: 2 to 5 (thorough 7) categories, vanishing ones included; '
          'binomial: n <= 4 (thorough 8) with p where no mass uses a series, every n in (10000, 1e9] with n p q > 80; in between that no path answers without summing')
ASSUMPTIONS = ASSUME


def jobs(W, tier):
    return opjobs(('entropy',), dists=S.DISTS + cats(tier)) + bin_entropies(tier) + bin_shortcuts(tier)
