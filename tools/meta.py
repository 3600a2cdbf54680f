#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table; a property is claimed when vp/props has its module."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = 'src/distribution/'
ALL = [SRC + x + '.rs' for x in 'bernoulli beta binomial categorical cauchy exponential gamma gaussian laplace logistic lognormal pert triangular uniform'.split()]
CONT = [SRC + x + '.rs' for x in 'beta cauchy exponential gamma gaussian laplace logistic lognormal pert triangular uniform'.split()]
DISC = [SRC + x + '.rs' for x in 'bernoulli binomial categorical'.split()]

P = []


def prop(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], hook_needed=None)))


prop('C01', 'Every CDF is a CDF, and the one of the named law',
     'For every distribution, parameters and real x (infinities included), the cumulative distribution function returns a number in [0, 1], is 0 at and below the '
     'lower end of the support and 1 from the upper end on, never decreases when x grows, and equals P(X <= x) of the named law up to floating-point rounding.',
     ['inputs', 'configurations'], 'every parameter vector a constructor accepts, every x, every pair x <= y',
     'The tests compare a few dozen literal points per distribution; monotonicity, range and the ends of the support quantify over all of them and all parameters.',
     ALL, [('Distribution::distribution of each distribution', 'src/distribution/*.rs')])
prop('C02', 'Densities and masses are nonnegative and are those of the named law',
     'For every distribution, parameters and argument, the density (mass) is never NaN or negative, is zero outside the support, and equals the density (mass) of the named law up to floating-point rounding.',
     ['inputs', 'configurations'], 'every parameter vector a constructor accepts and every argument, support boundaries and points outside the support included',
     'The tests evaluate each density on one parameter vector at a handful of points, mostly inside the support.',
     ALL, [('Continuous::density', 'src/distribution/*.rs'), ('Discrete::mass', ', '.join(DISC))])
prop('C03', 'Density and mass agree with the CDF',
     'Wherever the CDF of a continuous distribution is smooth, its derivative is the density the same object reports; for a discrete distribution the CDF at x is the sum of the masses up to x, and all masses sum to one.',
     ['inputs', 'configurations'], 'every parameter vector and every point of smoothness (continuous); every parameter vector within the stated sizes (discrete)',
     'No test relates the two functions of one object: each is compared with its own literals, so both can drift apart for untested parameters.',
     ALL, [('Continuous::density / Discrete::mass vs. Distribution::distribution', 'src/distribution/*.rs')])
prop('C04', 'Continuous quantiles invert the CDF',
     'For every distribution with a continuous CDF and every probability p strictly between 0 and 1, the CDF at the p-quantile is p and the quantile lies in the support; at p = 0 and p = 1 the quantile is the (possibly infinite) end of the support; '
     'quantiles never decrease in p.',
     ['inputs', 'configurations'], 'every parameter vector and every p in [0, 1]',
     'The tests check round trips on one grid of ten probabilities for one parameter vector.',
     CONT, [('Inverse::inverse', 'src/distribution/*.rs'), ('rational approximations of the normal quantile', SRC + 'gaussian.rs')])
prop('C05', 'Discrete quantiles are the smallest value reaching the probability',
     'For every discrete distribution and every p in [0, 1], the quantile is a value of positive probability whose CDF reaches p while the CDF just below it does not; it never decreases in p and the call always returns.',
     ['inputs', 'configurations'], 'every p in [0, 1]; every parameter vector within the stated numbers of trials and categories',
     'The tests pin about twenty (parameters, p) pairs; off-by-one answers between them are invisible.',
     DISC, [('Inverse::inverse: summation, normal expansion, Newton iteration', SRC + 'binomial.rs'), ('cumulative search', SRC + 'categorical.rs')])
prop('C06', 'Mean, variance and standard deviation are those of the law',
     'For every distribution and parameters, the reported mean, variance and standard deviation are the first moment, second central moment and its square root of the named law, up to floating-point rounding.',
     ['inputs', 'configurations'], 'every parameter vector a constructor accepts',
     'Tests compare one or two literal parameter vectors; a wrong formula can agree there.', ALL, [('Mean, Variance (and its provided deviation)', 'src/distribution/*.rs')])
prop('C07', 'Skewness and excess kurtosis are those of the law',
     'For every distribution and parameters with a nonzero variance, the reported skewness is the third standardised moment and the reported kurtosis the fourth minus three, up to floating-point rounding.',
     ['inputs', 'configurations'], 'every parameter vector a constructor accepts', 'Tests compare one literal parameter vector per distribution.',
     ALL, [('Skewness, Kurtosis', 'src/distribution/*.rs')])
prop('C08', 'The median halves the law',
     'For every distribution and parameters, at least half of the probability lies at or below the reported median and at least half at or above it; where a documented closed-form approximation is used it is that approximation, within two percent of the width of the support of the true median.',
     ['inputs', 'configurations'], 'every parameter vector a constructor accepts (discrete distributions: within the stated sizes)',
     'Tests sample a few parameter vectors; the branches of the piecewise definitions are reached by few of them.', ALL, [('Median', 'src/distribution/*.rs')])
prop('C09', 'The modes are exactly the maximisers',
     'For every distribution and parameters, the reported modes are exactly the points where the density or mass is maximal (none when it is constant on an interval), in increasing order.',
     ['inputs', 'configurations'], 'every parameter vector a constructor accepts (discrete distributions: within the stated sizes)',
     'Ties, boundary shapes and degenerate parameters are single points of a continuum and are barely sampled.', ALL, [('Modes', 'src/distribution/*.rs')])
prop('C10', 'The entropy is that of the law',
     'For every distribution and parameters, the reported entropy is minus the expected logarithm of the density (mass) of the law, up to rounding; where the normal approximation is documented it is within the error of that approximation.',
     ['inputs', 'configurations'], 'every parameter vector a constructor accepts (discrete distributions: within the stated sizes)',
     'Tests compare one literal parameter vector per distribution and never a vanishing probability.', ALL, [('Entropy', 'src/distribution/*.rs')])
prop('C11', 'Samplers by inversion transform a uniform draw into the law',
     'For every distribution sampled by inversion, one sample consumes exactly one uniform draw u, lies in the support, and is the u-quantile or the (1-u)-quantile of the distribution, for every value the source of randomness can return.',
     ['inputs', 'configurations'], 'every 64-bit word the source can return, every parameter vector (discrete: within the stated sizes)',
     'Tests draw a few hundred values from one seeded generator; extreme words (0, all ones) and biased transforms do not show up.',
     ALL, [('Sample::sample', 'src/distribution/*.rs')])
prop('C12', 'Normal-based samplers follow their law for every draw sequence',
     'For every sequence of words from the source, the normal sampler accepts or rejects exactly as its ziggurat decomposition of the normal density prescribes, its tables describe regions of equal area under that density, and normal, lognormal and Cauchy samples are the documented '
     'transforms of standard normal samples.',
     ['inputs', 'histories'], 'every sequence of 64-bit words within the stated number of rejections; every parameter vector',
     'Sampled histograms cannot see a wrong layer, tail or sign bit; rare branches are hit with probability below one percent.',
     [SRC + 'gaussian.rs', SRC + 'lognormal.rs', SRC + 'cauchy.rs'], [('ziggurat', SRC + 'gaussian.rs')])
prop('C13', 'Gamma, beta and PERT samplers follow their law for every draw sequence',
     'For every sequence of words from the source, the gamma sampler accepts and transforms its draws as the Marsaglia-Tsang method for the named shape prescribes, including the boost for shapes below one; beta and PERT samples are the ratio of two such gamma variates scaled to the support, and always lie in it.',
     ['inputs', 'histories'], 'every sequence of 64-bit words within the stated number of rejections; every parameter vector',
     'The acceptance region and the shape transform change only the law of the samples, which seeded regression values pin for two parameter vectors.',
     [SRC + 'gamma.rs', SRC + 'beta.rs', SRC + 'pert.rs'], [('gamma::sample', SRC + 'gamma.rs'), ('ratio of gamma variates', SRC + 'beta.rs')])
prop('C14', 'An independent sampler is an endless sequence of fresh samples',
     'Iterating over independent samples never ends; the i-th item is exactly what sampling the distribution directly would return at that point of the source, items consume the source in order without skipping or rereading, and taking, dropping or restarting iterators leaves the source where direct sampling would.',
     ['inputs', 'histories'], 'every sequence of words, every parameter vector, every number of items within the bound',
     'Tests collect one seeded sequence for one distribution.', ['src/sampler/mod.rs'], [('Independent: Iterator', 'src/sampler/mod.rs')])
prop('C15', 'Constructors reject exactly the invalid parameters and accessors return what was given',
     'Every constructor accepts all parameters its contract allows and panics on all others when assertions are on; every accessor returns the parameter given (or its complement); the failure-probability constructors and defaults build the same object as the plain ones.',
     ['inputs', 'configurations'], 'every tuple of parameters, inside and outside the documented domain', 'Tests construct a handful of valid objects and almost no invalid ones.',
     ALL, [('new, with_failure, Default, accessors', 'src/distribution/*.rs'), ('should!', 'src/lib.rs')])
prop('C16', 'Related distributions agree',
     'Distributions that coincide by definition agree on every shared operation: a Bernoulli trial and a binomial or two-category law with the same probability, a gamma law of shape one and the exponential, a unit-shape beta and the uniform, PERT and the beta it reparametrises, the lognormal and the normal of the logarithm, and shifting, scaling or reflecting the parameters of a location-scale law shifts, scales or reflects every result.',
     ['inputs', 'configurations'], 'every parameter vector and argument on which two distributions coincide or are affine images', 'Tests never compare two distributions.',
     ALL, [('every operation', 'src/distribution/*.rs')])
prop('C17', 'No operation panics, loops forever or returns NaN on valid input',
     'With valid parameters and a valid argument every operation of every distribution returns, without panic, arithmetic overflow, out-of-bounds access or endless loop, and never returns NaN.',
     ['inputs', 'configurations', 'histories'], 'every valid parameter vector, argument and draw sequence within the stated bounds', 'Panics and NaN hide at extreme or boundary parameters that tests do not use.',
     ALL, [('all operations', 'src/distribution/*.rs'), ('indexing of tables', SRC + 'gaussian.rs')])
prop('C18', 'Fitting a normal to samples gives the sample mean and deviation',
     'A normal distribution collected from an iterator has the arithmetic mean of the items as location and their sample standard deviation (the square root of the sum of squared deviations from the mean over the number of items less one) as scale, up to floating-point rounding, for every list of at least two items that are not all equal, in any order and however far from the origin.',
     ['inputs'], 'every list of real numbers up to the stated length, and every permutation of it', 'One literal list is tested.', [SRC + 'gaussian.rs'], [('FromIterator<f64>', SRC + 'gaussian.rs')])
prop('C20', 'Binomial answers stay accurate for many trials',
     'For a large number of trials the mass, CDF, quantile, entropy and median of the binomial law stay within the documented accuracy of the exact ones: nothing depends on the number of trials fitting a narrower integer, and crossing the internal thresholds does not change the answers beyond that accuracy.',
     ['inputs', 'configurations'], 'every success probability and number of trials within the stated bounds', 'Large numbers of trials appear in four literal tests.',
     [SRC + 'binomial.rs'], [('saddle-point expansion, Stirling error table, normal expansion', SRC + 'binomial.rs')])

TECH = ('symbolic execution of the LLVM IR that rustc emits for the current tree; each path\'s result becomes a formula over symbolic parameters, arguments and random words; '
        'z3/cvc5 decide the assertion over all real values; counterexamples are replayed on the compiled code')
NOTES = {}
NA = {}


def main():
    have = {f[:3].upper() for f in os.listdir(os.path.join(ROOT, 'vp', 'props')) if f.startswith('c') and f[1:3].isdigit()}
    ps = [p for p in P if p['id'] in have or p['id'] in NA]
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in ps:
            f.write(json.dumps(p) + '\n')
    man = dict(version=1, setup_cmd='python3-vt -m vp.setup', checks=[
        dict(property=p['id'], quick_cmd='python3-vt -m vp.run %s quick' % p['id'], thorough_cmd='python3-vt -m vp.run %s thorough' % p['id'],
             technique=TECH, level='model_checking',
             level_note=NOTES.get(p['id'], 'exhaustive over real-valued inputs within the bounds the evidence states; doubles are modelled as reals, rounding is covered by replays only'))
        for p in ps if p['id'] in have],
        not_applicable=[dict(property=k, reason=v) for k, v in NA.items()],
        notes='DESIGN.md explains the encoding, its bounds and the assumptions; known_findings.json lists defects found.')
    json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    print(len(ps), 'properties', len(man['checks']), 'checks')


main()
