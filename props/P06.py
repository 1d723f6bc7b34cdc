"""Normal approximation of a portfolio."""
from .common import *
from actuarialmath import Life, Annuity

ASSUMPTIONS = ['the normal distribution function and its inverse are an arbitrary pair of mutually inverse functions '
               'with median zero; their numerical values are not checked']
OUTSIDE = 'values of the normal distribution itself; zero variance'


def setup(c):
    m = c.real('m', sample=(-3, 5))
    v = c.pos('var', sample=(.5, 9))
    p = c.prob('p', sample=(.05, .95))
    N = c.real('N', 1, lo_open=False, sample=(1, 200))
    return m, v, p, N


def inverse(c):
    m, v, p, N = setup(c)
    x = Life.portfolio_percentile(mean=m, variance=v, prob=p, N=N)
    c.eq(Life.portfolio_cdf(mean=m, variance=v, value=x, N=N), p, 'cdf of the percentile')


def inverse2(c):
    m, v, p, N = setup(c)
    y = c.real('y', sample=(-3, 5))
    q = Life.portfolio_cdf(m, v, y, N)
    if c.mode == 'concrete':
        c.assume(1e-9 < q < 1 - 1e-9)
    c.eq(Life.portfolio_percentile(m, v, q, N), y, 'percentile of the cdf', rtol=1e-4)


def scaling(c):
    m, v, p, N = setup(c)
    P, D = Life.portfolio_percentile, Life.portfolio_cdf
    z = P(0, 1, p)
    c.eq(P(m, v, p, N) - N * m, z * math.sqrt(N * v), 'percentile = mean + z standard deviations')
    c.eq(P(m, v, p, N), P(N * m, N * v, p), 'sum of N')
    c.eq(P(mean=m, variance=v, prob=p), m + z * math.sqrt(v), 'single risk')
    a = c.pos('a', sample=(.2, 4))
    c.eq(P(a * m, a * a * v, p, N), a * P(m, v, p, N), 'scaled risks')
    y = c.real('y', sample=(-3, 5))
    c.eq(D(m, v, y, N), D(N * m, N * v, y), 'cdf of the sum of N')
    c.eq(D(m, v, y, N), D(0, 1, (y - N * m) / math.sqrt(N * v)), 'standardised cdf')
    c.eq(D(mean=m, variance=v, value=y), D(0, 1, (y - m) / math.sqrt(v)), 'standardised cdf, single risk')


def median(c):
    m, v, p, N = setup(c)
    c.eq(Life.portfolio_percentile(m, v, c.const(F(1, 2)), N), N * m, 'median')
    c.eq(Life.portfolio_cdf(m, v, N * m, N), c.const(F(1, 2)), 'half below the mean')
    life = Annuity()
    c.eq(life.portfolio_percentile(m, v, p, N=N), Life.portfolio_percentile(m, v, p, N), 'on an instance')


def ints(c):
    m, v, p, _ = setup(c)
    N = c.choose('N', [1, 2, 10, 250, 10000])
    x = Life.portfolio_percentile(m, v, p, N)
    z = Life.portfolio_percentile(0, 1, p)
    c.eq(x, N * m + z * math.sqrt(N * v), f'{N} risks')
    c.eq(Life.portfolio_cdf(m, v, x, N), p, f'{N} risks')


def rejects(c):
    m, v, p, N = setup(c)
    c.fails(lambda: Life.portfolio_percentile(m, v, 1 + p, N), 'probability above 1')
    c.fails(lambda: Life.portfolio_percentile(m, v, 1, N), 'probability 1')


def instances(tier):
    return [Inst('inverse', inverse), Inst('inverse2', inverse2), Inst('scaling', scaling), Inst('median', median),
            Inst('integers', ints), Inst('rejects', rejects)]
