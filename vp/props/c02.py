"""Densities and masses."""
from .common import *
from .discrete import *
BOUNDS = ('every parameter in the constructors\' domains and every argument x (real-valued); categorical: up to 5 (quick) or 7 (thorough) categories; '
          'binomial: symbolic p; every n <= 1e9 for x = 0, x = n and x > n; in between every x for n <= 16 (thorough 40) and pairs around the switches of the Stirling error up to 2e9, '
          'with p in the window where no series is used, and with every p for the pairs listed in the obligations')
ASSUMPTIONS = ASSUME + ['a binomial mass whose logarithmic derivative in p is that of the law and which agrees at one point of a path agrees on the path']


def jobs(W, tier):
    return fnjobs('density') + bernoulli_mass() + binomial_edge_masses() + catjobs('mass', tier) + massjobs(tier)
