"""Median."""
from .discrete import *
BOUNDS = ('every parameter in the constructors\' domains (real-valued); categorical: 2 to 5 (thorough 7) categories; '
          'binomial: every p for n <= 7 (thorough 12)')
ASSUMPTIONS = ASSUME


def jobs(W, tier):
    return opjobs(('median',), dists=S.DISTS + cats(tier)) + bin_medians(tier)
