"""Means, variances and covariances follow the probability laws."""
from .common import *
from actuarialmath import Life, Annuity

OUTSIDE = 'numbers of trials below 1'


def joint(c):
    """arbitrary joint law of two two-valued random variables"""
    p = [c.pos(f'p{i}', sample=(.1, .3)) for i in range(3)]
    p4 = 1 - p[0] - p[1] - p[2]
    c.assume(p4 > 0)
    pr = p + [p4]
    x0, x1, y0, y1 = (c.real(n, sample=(-3, 5)) for n in ('x0', 'x1', 'y0', 'y1'))
    X, Y = [x0, x0, x1, x1], [y0, y1, y0, y1]
    E = lambda z: sum((q * w for q, w in zip(pr, z)), 0)
    EX, EY, EXY = E(X), E(Y), E([x * y for x, y in zip(X, Y)])
    VX = E([(x - EX) ** 2 for x in X])
    VY = E([(y - EY) ** 2 for y in Y])
    CXY = E([(x - EX) * (y - EY) for x, y in zip(X, Y)])
    c.eq(Life.covariance(EX, EY, EXY), CXY, 'covariance')
    c.eq(Life.covariance(a=EX, b=EY, ab=EXY), CXY, 'covariance (named)')
    a, b = c.real('a', sample=(-3, 5)), c.real('b', sample=(-3, 5))
    Z = [a * x + b * y for x, y in zip(X, Y)]
    EZ = E(Z)
    c.eq(Life.variance(a, b, VX, VY, CXY), E([(z - EZ) ** 2 for z in Z]), 'variance of a weighted sum')


def sums(c):
    n = ('a', 'b', 'va', 'vb', 'cv')
    a, b, va, vb, cv = (c.real(x, sample=(-3, 5)) for x in n)
    c.eq(Annuity().variance(a=a, b=b, var_a=va, var_b=vb, cov_ab=cv), a * a * va + b * b * vb + 2 * a * b * cv,
         'variance of a weighted sum')
    c.eq(Life.variance(a, b, va, vb, cv), Life.variance(b, a, vb, va, cv), 'symmetric')
    c.eq(Life.covariance(a, b, cv), Life.covariance(b, a, cv), 'symmetric')
    c.eq(Life.variance(a, 0, va, vb, cv), a * a * va, 'single variable')


def bern(c):
    p = c.prob('p')
    a, b = c.real('a', sample=(-3, 5)), c.real('b', sample=(-3, 5))
    m = p * a + (1 - p) * b
    c.eq(Life.bernoulli(p, a, b), m, 'mean')
    c.eq(Life.bernoulli(p, a, b, variance=True), p * (a - m) ** 2 + (1 - p) * (b - m) ** 2, 'variance')
    c.eq(Life.bernoulli(p), p, 'mean (0-1)')
    c.eq(Life.bernoulli(p, variance=True), p * (1 - p), 'variance (0-1)')
    c.eq(Life.bernoulli(p, a=a, variance=True), p * (1 - p) * a * a, 'variance (0-a)')
    c.eq(Life.bernoulli(1 - p, b, a), m, 'relabelled')


def bern_edge(c):
    a, b = c.real('a', sample=(-3, 5)), c.real('b', sample=(-3, 5))
    p = c.choose('p', [0, 1])
    c.eq(Life.bernoulli(p, a, b), a if p else b, 'certain value')
    c.eq(Life.bernoulli(p, a, b, variance=True), 0, 'certain value has no variance')


def binom(c):
    p = c.prob('p')
    N = c.real('N', 1, lo_open=False, sample=(1, 500))
    k = c.real('k', 1, lo_open=False, sample=(1, 50))
    B = Life.binomial
    c.eq(B(p, N), N * p, 'mean')
    c.eq(B(p, N, variance=True), N * p * (1 - p), 'variance')
    c.eq(B(p, N + k), B(p, N) + B(p, k), 'mean adds up')
    c.eq(B(p, N + k, variance=True), B(p, N, variance=True) + B(p, k, variance=True), 'variance adds up')
    for n in (1, 2, 4):
        pm = [math.comb(n, j) * p ** j * (1 - p) ** (n - j) for j in range(n + 1)]
        m = sum((j * q for j, q in enumerate(pm)), 0)
        c.eq(B(p, n), m, f'mean, {n} trials')
        c.eq(B(p, n, variance=True), sum(((j - m) ** 2 * q for j, q in enumerate(pm)), 0), f'variance, {n} trials')


def mix(c):
    p, p1, p2 = c.prob('p'), c.prob('p1'), c.prob('p2')
    N = c.real('N', 1, lo_open=False, sample=(1, 500))
    m = N * (p * p1 + (1 - p) * p2)
    m2 = p * (N * p1 * (1 - p1) + (N * p1) ** 2) + (1 - p) * (N * p2 * (1 - p2) + (N * p2) ** 2)
    c.eq(Life.mixture(p, p1, p2, N), m, 'mixture mean')
    c.eq(Life.mixture(p, p1, p2, N, variance=True), m2 - m * m, 'mixture variance')
    c.eq(Life.conditional_variance(p, p1, p2, N), m2 - m * m, 'conditional variance')
    c.eq(Life.mixture(p, p1, p2), p * p1 + (1 - p) * p2, 'one trial')
    c.eq(Life.conditional_variance(p, p1, p2), Life.mixture(p, p1, p2, variance=True), 'one trial variance')
    c.le(N * p * p1 * (1 - p1) + N * (1 - p) * p2 * (1 - p2), Life.mixture(p=p, p1=p1, p2=p2, N=N, variance=True),
         'mixing adds variance')


def mix_pmf(c, n):
    p, p1, p2 = c.prob('p'), c.prob('p1'), c.prob('p2')
    pm = [math.comb(n, j) * (p * p1 ** j * (1 - p1) ** (n - j) + (1 - p) * p2 ** j * (1 - p2) ** (n - j))
          for j in range(n + 1)]
    m = sum((j * q for j, q in enumerate(pm)), 0)
    var = sum(((j - m) ** 2 * q for j, q in enumerate(pm)), 0)
    c.eq(Life.mixture(p, p1, p2, n), m, 'mean from the mass function')
    c.eq(Life.mixture(p, p1, p2, n, variance=True), var, 'variance from the mass function')
    c.eq(Life.conditional_variance(p, p1, p2, n), var, 'conditional variance from the mass function')


def edge(c):
    """degenerate probabilities are accepted"""
    p, p1, p2 = (c.choose(x, [0, F(1, 3), 1]) for x in ('p', 'p1', 'p2'))
    p, p1, p2 = c.const(p), c.const(p1), c.const(p2)
    N = c.choose('N', [1, 7])
    m = N * (p * p1 + (1 - p) * p2)
    m2 = p * (N * p1 * (1 - p1) + (N * p1) ** 2) + (1 - p) * (N * p2 * (1 - p2) + (N * p2) ** 2)
    c.eq(Life.mixture(p, p1, p2, N, variance=True), m2 - m * m, 'mixture variance')
    c.eq(Life.conditional_variance(p, p1, p2, N), m2 - m * m, 'conditional variance')


def rejects(c):
    e = c.pos('e', sample=(.1, 2))
    q = c.prob('q')
    bad = c.choose('bad', [0, 1])
    x = 1 + e if bad else -e
    c.fails(lambda: Life.bernoulli(x), 'bernoulli')
    c.fails(lambda: Life.binomial(x, 3), 'binomial')
    c.fails(lambda: Life.mixture(x, q, q, 3), 'mixture p')
    c.fails(lambda: Life.mixture(q, x, q, 3), 'mixture p1')
    c.fails(lambda: Life.mixture(q, q, x, 3), 'mixture p2')
    c.fails(lambda: Life.conditional_variance(x, q, q, 3), 'conditional p')
    c.fails(lambda: Life.conditional_variance(q, x, q, 3), 'conditional p1')
    c.fails(lambda: Life.conditional_variance(q, q, x, 3), 'conditional p2')
    c.fails(lambda: Life.binomial(q, 0), 'no trials')


def instances(tier):
    ns = [1, 2, 3] + ([5, 8] if tier == 'thorough' else [])
    return [Inst('joint', joint, bounds='all joint laws of two two-valued variables'), Inst('sums', sums),
            Inst('bernoulli', bern), Inst('bernoulli-edge', bern_edge), Inst('binomial', binom), Inst('mixture', mix),
            Inst('edge', edge), Inst('rejects', rejects)] + \
        [Inst(f'pmf{n}', lambda c, n=n: mix_pmf(c, n), bounds=f'{n} trials') for n in ns]
