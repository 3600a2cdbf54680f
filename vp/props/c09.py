"""Modes."""
from .discrete import *
BOUNDS = 'every parameter in the constructors\' domains (real-valued; binomial: n <= 1e9); categorical: 2 to 5 (thorough 7) categories'
ASSUMPTIONS = ASSUME


def jobs(W, tier):
    return opjobs(('modes',), {'modes': 'modes'}, dists=S.DISTS + cats(tier))
