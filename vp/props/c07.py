"""Skewness and kurtosis."""
from .common import *
BOUNDS = 'every parameter in the constructors\' domains (real-valued)'
ASSUMPTIONS = ASSUME


def jobs(W, tier):
    ks = range(1, 6) if tier == 'quick' else range(1, 8)
    return opjobs(('skewness', 'kurtosis'), dists=S.DISTS + [Categorical(k) for k in ks])
