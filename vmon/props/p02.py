"""P02 probability helpers"""
import math
import numpy as np
from actuarialmath import Life, Premiums
from vmon import ref

RULE = ('A case draws probabilities, values and sample sizes, builds the named distribution explicitly (finite enumeration of outcomes or the '
        'error function) and compares the helper with moments/percentiles of the enumerated distribution; distinct by drawn scenario.')
ASSUMPTIONS = ['reference normal CDF from math.erfc and inversion by bisection']


def moments(outcomes):
    m = math.fsum(p * x for p, x in outcomes)
    return m, math.fsum(p * (x - m) ** 2 for p, x in outcomes)


def prob(rng):
    return rng.choice([0., 1., rng.random(), rng.random(), rng.uniform(0, .05), rng.uniform(.95, 1)])


def sums(c, rng):
    """joint distribution of two r.v.: variance of a weighted sum, covariance"""
    n = rng.randint(2, 5)
    w = [rng.random() for _ in range(n)]; w = [x / sum(w) for x in w]
    X = [rng.uniform(-10, 10) for _ in range(n)]; Y = [rng.uniform(-10, 10) for _ in range(n)]
    a, b = rng.uniform(-5, 5), rng.choice([0, 1, rng.uniform(-5, 5)])
    c.note(w=w, X=X, Y=Y, a=a, b=b)
    mx, vx = moments(list(zip(w, X))); my, vy = moments(list(zip(w, Y)))
    exy = sum(p * x * y for p, x, y in zip(w, X, Y))
    cov = sum(p * (x - mx) * (y - my) for p, x, y in zip(w, X, Y))
    host = rng.choice([Life, Premiums, Life(), Premiums()])
    g = c.value('covariance', cov, host.covariance, a=mx, b=my, ab=exy, rel=1e-8, abs=1e-8)
    _, vs = moments([(p, a * x + b * y) for p, x, y in zip(w, X, Y)])
    c.value('variance', vs, host.variance, a=a, b=b, var_a=vx, var_b=vy, cov_ab=cov, rel=1e-8, abs=1e-8)


def two_point(c, rng):
    p = prob(rng); a = rng.choice([1, rng.uniform(-100, 100)]); b = rng.choice([0, rng.uniform(-100, 100)])
    c.note(p=p, a=a, b=b)
    m, v = moments([(p, a), (1 - p, b)])
    c.value('bernoulli.mean', m, Life.bernoulli, p, a=a, b=b, abs=1e-8)
    c.value('bernoulli.variance', v, Life.bernoulli, p, a=a, b=b, variance=True, abs=1e-8)
    c.value('bernoulli.default', p * (1 - p), Life.bernoulli, p, variance=True)
    c.value('bernoulli.default-mean', p, Life.bernoulli, p)
    for bad in (-rng.uniform(.001, 2), 1 + rng.uniform(.001, 2)):
        c.raises('bernoulli.reject', Life.bernoulli, bad)
        c.raises('binomial.reject', Life.binomial, bad, 5)
    c.raises('binomial.reject-N', Life.binomial, p, 0)


def binom(p, N):
    return [(math.comb(N, k) * p ** k * (1 - p) ** (N - k), k) for k in range(N + 1)]


def binomial(c, rng):
    p = prob(rng); N = rng.randint(1, 40)
    c.note(p=p, N=N)
    m, v = moments(binom(p, N))
    c.value('binomial.mean', m, Life.binomial, p, N, abs=1e-8)
    c.value('binomial.variance', v, Life.binomial, p, N, variance=True, abs=1e-8)


def mixture(c, rng):
    p, p1, p2 = prob(rng), prob(rng), prob(rng); N = rng.choice([1, rng.randint(1, 30)])
    c.note(p=p, p1=p1, p2=p2, N=N)
    out = [(p * w, k) for w, k in binom(p1, N)] + [((1 - p) * w, k) for w, k in binom(p2, N)]
    m, v = moments(out)
    c.value('mixture.mean', m, Life.mixture, p, p1, p2, N=N, abs=1e-7)
    c.value('mixture.variance', v, Life.mixture, p, p1, p2, N=N, variance=True, abs=1e-7)
    c.value('conditional_variance', v, Life.conditional_variance, p, p1, p2, N=N, abs=1e-7)
    if N == 1:
        c.value('mixture.default-N', v, Life.mixture, p, p1, p2, variance=True, abs=1e-7)
        c.value('conditional_variance.default-N', v, Life.conditional_variance, p, p1, p2, abs=1e-7)
    N = rng.randint(1000, 200000)     # large portfolios: closed form
    v = N * (p * p1 * (1 - p1) + (1 - p) * p2 * (1 - p2)) + N * N * (p1 - p2) ** 2 * p * (1 - p)
    c.value('mixture.large', v, Life.mixture, p, p1, p2, N=N, variance=True, rel=1e-6, abs=1e-4 * N)
    c.value('conditional_variance.large', v, Life.conditional_variance, p, p1, p2, N=N, rel=1e-9, abs=1e-6)


def normal(c, rng):
    mean = rng.choice([0., rng.uniform(-1e4, 1e4)]); var = rng.choice([1., 10 ** rng.uniform(-3, 7)])
    pr = rng.choice([rng.uniform(.001, .999), rng.uniform(.9, .9999), .5, 10 ** rng.uniform(-12, -2), 1 - 10 ** rng.uniform(-9, -3)]); N = rng.choice([1, rng.randint(1, 100000)])
    c.note(mean=mean, var=var, prob=pr, N=N)
    want = N * mean + ref.nppf(pr) * math.sqrt(N * var)
    got = c.value('portfolio_percentile', want, Life.portfolio_percentile, mean, var, pr, N=N, rel=1e-8, abs=1e-7 * math.sqrt(N * var))
    if N == 1:
        c.value('portfolio_percentile.default-N', want, Life.portfolio_percentile, mean, var, pr, rel=1e-8, abs=1e-7 * math.sqrt(var))
    val = N * mean + rng.gauss(0, 1.5) * math.sqrt(N * var)
    c.value('portfolio_cdf', ref.ncdf((val - N * mean) / math.sqrt(N * var)), Life.portfolio_cdf, mean, var, val, N=N, abs=1e-7)
    if got is not None:
        c.value('portfolio.roundtrip', pr, Life.portfolio_cdf, mean, var, got, N=N, rel=1e-6 * max(1., N * abs(mean) / math.sqrt(N * var) * 1e-4), abs=1e-15)


def frame(c, rng):
    qs = list({round(rng.uniform(rng.choice([.001, .5]), .999), 3 + (rng.random() < .5)) for _ in range(rng.randint(1, 8))})
    order = rng.choice(['up', 'down', 'any'])
    qs.sort(reverse=order == 'down')
    if order == 'any': rng.shuffle(qs)
    c.dim(order=order)
    default = rng.random() < .2
    c.note(qs=qs, default=default)
    t = c.call('quantiles_frame', Life.quantiles_frame) if default else c.call('quantiles_frame', Life.quantiles_frame, qs)
    if default: qs = [.8, .85, .9, .95, .975, .99, .995]
    c.true('quantiles_frame.probs', np.allclose(t.iloc[0].astype(float).values, qs, atol=6e-4), lambda: str(t))
    c.true('quantiles_frame.z', np.allclose([float(x) for x in t.columns], [ref.nppf(q) for q in qs], atol=6e-4), lambda: str(t))


GROUPS = [('sums', sums, 800, 20000), ('two_point', two_point, 600, 15000), ('binomial', binomial, 500, 10000),
          ('mixture', mixture, 800, 20000), ('normal', normal, 800, 20000), ('frame', frame, 60, 1000)]
QUICK = 10      # scale of the quick tier
THOROUGH = 40      # scale of the thorough tier
