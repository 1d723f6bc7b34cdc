"""Present value random variables of whole life insurances and annuities."""
from .common import *
from .P15 import ac
from actuarialmath import Insurance, Annuity, PolicyValues

OUTSIDE = 'survival functions other than those listed; convergence of the root finder (an arbitrary exact root stands for its result); ages at which survival is not strictly decreasing'
ASSUMPTIONS = ['scipy.optimize.fsolve returns a root of the function it is given']


class Smooth:
    """survival falls linearly within each of n years; lives on beyond them (never reached by the roots)"""

    def __init__(self, c, n, shape, x=0):
        self.c, self.n, self.shape, self.x = c, n, shape, x
        if shape == 'line':
            self.m = c.real('omega', x + n + 1, x + 3 * n, sample=(x + n + 1, x + 3 * n))
        elif shape == 'table':
            self.d = [c.real(f'd{k}', F(1, 20), F(1, n + 1), sample=(.05, 1 / (n + 1))) for k in range(n)]

    def at(self, k):
        return 1 - sum(self.d[:k], 0)

    def S(self, x, s, t):
        if self.shape == 'line':
            return 1 - t / (self.m - x - 2 * s)
        # table (one age at issue only)
        if t <= 0:
            return 1 - self.d[0] * t
        if t >= self.n:
            return self.at(self.n) - self.d[-1] * (t - self.n)
        k = math.floor(t)
        return self.at(k) - self.d[k] * (t - k)

    def low(self):
        """survival probability to the end of the range"""
        return 1 - self.n / (self.m - self.x) if self.shape == 'line' else self.at(self.n)

    def life(self, cls, **kw):
        return cls().set_interest(**kw).set_survival(S=self.S, f=lambda x, s, t: 0, minage=0, maxage=self.x + self.n)


def percentile(c, n, shape, which, zero=False):
    x = c.choose('x', [0, 20]) if shape == 'line' else 0
    T = Smooth(c, n, shape, x)
    v = c.const(1) if zero else c.real('v', F(1, 20), 1, sample=(.8, .98))
    i = 1 / v - 1
    life = T.life(c.choose('class', [Annuity, PolicyValues]), i=i)
    p = c.prob('prob', sample=(.1, .9))
    what = c.choose('what', ['cont', 'disc'])
    S = lambda t: T.S(x, 0, t)
    dl = -math.log(v)
    if which == 'Z':
        c.assume(p > T.low())
        t = life.Z_t(x, p, discrete=what == 'disc')
        z = life.Z_from_prob(x, p, discrete=what == 'disc')
        if what == 'cont':
            c.eq(S(t), p, 'survival to that time')
            c.eq(life.Z_to_prob(x, z), p, 'probability of its percentile', rtol=1e-4, atol=1e-6)
            t = life.Z_to_t(z)
            c.eq(S(t), p, 'survival to the time of that present value')
            c.eq(z, v ** t, 'present value at that time')
        else:
            k = c.choose('K', range(n))
            c.assume(t == k)
            c.le(p, S(k), f'{k} years are survived with at least that probability')
            c.lt(S(k + 1), p, f'{k + 1} years are not')
            c.eq(z, v ** (k + 1), 'paid at the end of the year')
    else:
        c.assume(p < 1 - T.low())
        t = life.Y_t(x, p, discrete=what == 'disc')
        y = life.Y_from_prob(x, p, discrete=what == 'disc')
        if what == 'cont':
            c.eq(S(t), 1 - p, 'survival to that time')
            c.eq(life.Y_to_prob(x, y), p, 'probability of its percentile', rtol=1e-4, atol=1e-6)
            t = life.Y_to_t(y)
            c.eq(S(t), 1 - p, 'survival to the time of that present value')
            c.eq(y, t if zero else (1 - v ** t) / dl, 'present value at that time')
        else:
            k = c.choose('K', range(1, n + 1))
            c.assume(t == k)
            c.le(S(k), 1 - p, 'survival at the rounded time')
            c.lt(1 - p, S(k - 1), 'survival a year before')
            # smallest y with Pr(Y <= y) >= p; Y = value of K+1 payments
            c.eq(y, ac(v, k), 'value of the payments')


def inverse(c):
    """continuous: values, times and probabilities are inverse to each other; any time"""
    mu = c.real('mu', F(1, 1000), 2, sample=(.02, .2))
    v = c.real('v', F(1, 20), F(99, 100), sample=(.8, .98))
    t = c.real('t', F(1, 10), 60, sample=(1, 40))
    life = Annuity().set_interest(v=v).set_survival(S=lambda x, s, t: math.exp(-mu * (1 + (x + 3 * s) / 50) * t), minage=0, maxage=100)
    z, y = life.Z_from_t(t, discrete=False), life.Y_from_t(t, discrete=False)
    dl = -math.log(v)
    c.eq(z, v ** t, 'Z')
    c.eq(y, (1 - v ** t) / dl, 'Y')
    c.eq(y * dl + z, 1, 'twins')
    c.eq(life.Z_to_t(z), t, 'time of Z')
    c.eq(life.Y_to_t(y), t, 'time of Y')
    c.eq(life.Z_to_prob(20, z), math.exp(-mu * t * F(7, 5)), 'Pr(Z <= z) is survival')
    c.eq(life.Y_to_prob(20, y), 1 - math.exp(-mu * t * F(7, 5)), 'Pr(Y <= y) is death before')


def values(c, zero):
    """present value at each time of death"""
    v = c.const(1) if zero else c.real('v', F(1, 20), F(99, 100), sample=(.8, .98))
    life = Annuity().set_interest(i=1 / v - 1).set_survival(S=lambda x, s, t: 1 - t / 100, minage=0, maxage=100)
    k = c.choose('K', [0, 1, 2, 7, 30])
    r = c.real('r', 0, 1, lo_open=False, sample=(.1, .9))
    c.eq(life.Z_from_t(k + r, discrete=True), v ** (k + 1), f'Z year {k}')
    c.eq(life.Z_from_t(k + r), v ** (k + 1), f'Z year {k} by default')
    c.eq(life.Y_from_t(k + r, discrete=True), ac(v, k + 1), f'Y year {k}')
    c.eq(life.Y_from_t(k + r), ac(v, k + 1), f'Y year {k} by default')
    c.eq(life.Z_from_t(k + r, discrete=False), v ** (k + r), f'Z year {k}, continuous')
    if zero:
        c.eq(life.Y_from_t(k + r, discrete=False), k + r, f'Y year {k}, continuous')
        c.eq(life.Y_to_t(k + r), k + r, 'time of Y')
        c.eq(life.Y_to_prob(20, k + r), (k + r) / 100, 'probability of Y')
    else:
        c.eq(life.Y_from_t(k + r, discrete=False), (1 - v ** (k + r)) / -math.log(v), f'Y year {k}, continuous')


def yearly(c, X, W, sel, ss, udd):
    """the value of one year's benefit; those of all years add up to the insurance or annuity"""
    T = Tab(c, X, W, 'p', sel)
    v = c.prob('v', sample=(.8, .98))
    life = Annuity(udd=udd).set_interest(v=v).set_survival(S=T.S_udd, f=T.f_udd, minage=0, maxage=W)
    s, x = c.choose('s', ss), X
    n = W - x - s
    k = c.choose('k', range(n))
    r = c.real('r', 0, 1, lo_open=False, sample=(.1, .9))
    c.eq(life.Z_x(x, s=s, t=k + r), v ** (k + 1) * T.q(x, s, k), 'Z of one year')
    c.eq(life.Y_x(x, s=s, t=k + r), v ** k * T.p(x, s, k), 'Y of one year')
    c.eq(sum(life.Z_x(x, s=s, t=j) for j in range(n)), life.whole_life_insurance(x, s=s), 'years of Z')
    c.eq(sum(life.Y_x(x, s=s, t=j) for j in range(n)), life.whole_life_annuity(x, s=s), 'years of Y')


def rate(c, X, W, sel, ss, udd):
    """continuous: discounted density and survival, under the assumption chosen between birthdays"""
    T = Tab(c, X, W, 'p', sel, alive=True, lo=F(1, 100))
    v = c.prob('v', sample=(.8, .98))
    life = Annuity(udd=udd).set_interest(v=v).set_survival(S=lambda x, s, t: T.p(x, s, t), f=lambda x, s, t: 0, minage=0, maxage=W)
    s, x = c.choose('s', ss), X
    k = c.choose('k', [0, 1, 2])
    r = c.real('r', 0, 1, sample=(.1, .9))
    p = T.p(x, s + k, 1)
    S = 1 - (1 - p) * r if udd else p ** r
    f = 1 - p if udd else -math.log(p) * p ** r
    c.eq(life.Y_x(x, s=s, t=k + r, discrete=False), v ** (k + r) * T.p(x, s, k) * S, 'rate of payment')
    c.eq(life.Z_x(x, s=s, t=k + r, discrete=False), v ** (k + r) * T.p(x, s, k) * f, 'rate of benefit')


def instances(tier):
    th = tier == 'thorough'
    n = 6 if th else 4
    out = []
    for w in 'ZY':
        for sh in ('line', 'table'):
            out.append(Inst(f'percentile-{w}-{sh}', lambda c, w=w, sh=sh: percentile(c, n, sh, w), bounds=f'{n} years', max_paths=800))
            if w == 'Y':
                out.append(Inst(f'percentile-{w}-{sh}-zero', lambda c, w=w, sh=sh: percentile(c, n, sh, w, True), bounds='no interest', max_paths=800))
    out += [Inst('inverse', inverse), Inst('values', lambda c: values(c, False)), Inst('values-zero', lambda c: values(c, True))]
    for udd in (True, False):
        z = 'udd' if udd else 'cfm'
        out += [Inst(f'yearly-{z}', lambda c, udd=udd: yearly(c, 40, 44, 0, (0, 1), udd)), Inst(f'yearly-select-{z}', lambda c, udd=udd: yearly(c, 40, 44, 2, (0, 1), udd)),
                Inst(f'rate-{z}', lambda c, udd=udd: rate(c, 40, 60, 0, (0, 1), udd)), Inst(f'rate-select-{z}', lambda c, udd=udd: rate(c, 40, 60, 2, (0, 1), udd))]
    return out
