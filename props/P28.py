"""Constant force of mortality: closed forms against first principles."""
from .common import *
from .P15 import ac
from actuarialmath import ConstantForce

OUTSIDE = 'mortality beyond the age at which discrete sums stop (41, set through the survival model); convergence of numerical integration'


class Short(ConstantForce):
    """the same model, with discrete sums to a nearer age than 1000"""

    def set_survival(self, **kw):
        return super().set_survival(**{**kw, 'maxage': 41})


def draw(c, zero=False, wide=False):
    mu = c.real('mu', F(1, 100000) if wide else F(1, 1000), 10, sample=(.02, .2))
    dl = 0 if zero else c.real('delta', F(1, 100000) if wide else F(1, 1000), 10, sample=(.02, .1))
    return mu, dl


def survival(c):
    """memoryless at every age and duration, whole or fractional"""
    mu, dl = draw(c, True)
    life = ConstantForce(mu=mu)
    x, s = c.choose('x', [0, 30]), c.choose('s', [0, 3])
    r, t, u = c.real('r', 0, 1, sample=(.1, .9), lo_open=False), c.real('t', 0, 200, sample=(.1, 9), lo_open=False), c.real('u', 0, 5, sample=(.1, 4), lo_open=False)
    S = lambda t: math.exp(-mu * t)
    if c.choose('what', ['whole', 'fraction']) == 'whole':
        c.eq(life.S(x, s, t), S(t), 'survival')
        c.eq(life.p_x(x, s=s, t=t), S(t), 'p')
        c.eq(life.q_x(x, s=s, t=t, u=u), S(u) - S(u + t), 'q')
        c.eq(life.mu_x(x, s=s, t=t), mu, 'force')
        c.eq(life.f_x(x, s=s, t=t), mu * S(t), 'density')
        c.eq(life.l_x(x, s=s + 3), S(3) * life.l_x(x, s=s), 'lives')
        c.eq(life.d_x(x, s=s), (1 - S(1)) * life.l_x(x, s=s), 'deaths')
    else:
        c.eq(life.p_r(x, s=s, r=r, t=t), S(t), 'p')
        c.eq(life.q_r(x, s=s, r=r, t=t, u=u), S(u) - S(u + t), 'q')
        c.eq(life.mu_r(x, s=s, r=r), mu, 'force')
        c.eq(life.f_r(x, s=s, r=r, t=t), mu * S(t), 'density')
        c.eq(life.l_r(x, s=s, r=r), S(r) * life.l_x(x, s=s), 'lives')


def lifetime(c):
    mu, _ = draw(c, True)
    life = ConstantForce(mu=mu)
    x, s = c.choose('x', [0, 30]), c.choose('s', [0, 3])
    t = c.real('t', 0, 400, sample=(.5, 20), lo_open=False)
    S = lambda t: math.exp(-mu * t)
    what = c.choose('what', ['complete', 'limited', 'fraction', 'curtate'])
    m1 = (1 - S(t)) / mu
    m2 = 2 / mu ** 2 * (1 - S(t)) - 2 * t * S(t) / mu
    if what == 'complete':
        c.eq(life.e_x(x, s=s, curtate=False), 1 / mu, 'expectation')
        c.eq(life.e_x(x, s=s), 1 / mu, 'expectation by default')
        c.eq(life.e_x(x, s=s, curtate=False, moment=VARIANCE), 1 / mu ** 2, 'variance')
    elif what == 'limited':
        c.eq(life.e_x(x, s=s, t=t, curtate=False), m1, 'expectation')
        c.eq(life.e_x(x, s=s, t=t, curtate=False, moment=2), m2, 'second moment')
        c.eq(life.e_x(x, s=s, t=t, curtate=False, moment=VARIANCE), m2 - m1 ** 2, 'variance')
    elif what == 'fraction':
        r = c.real('r', 0, 1, sample=(.1, .9), lo_open=False)
        c.eq(life.e_r(x, s=s, r=r, t=t), m1, 'expectation')
    else:
        n = c.choose('n', [0, 1, 2, 5, 12])
        e1, e2 = sum((S(k) for k in range(1, n + 1)), 0), sum(((2 * k - 1) * S(k) for k in range(1, n + 1)), 0)
        c.eq(life.e_x(x, s=s, t=n, curtate=True), e1, 'expectation')
        c.eq(life.e_x(x, s=s, t=n, curtate=True, moment=2), e2, 'second moment')
        c.eq(life.e_x(x, s=s, t=n, curtate=True, moment=VARIANCE), e2 - e1 ** 2, 'variance')


def continuous(c, zero=False, ms=(1, 2), prods=('whole', 'term', 'endow', 'defer', 'E', 'A_x'), wide=False):
    mu, dl = draw(c, zero, wide)
    life = ConstantForce(mu=mu).set_interest(delta=dl)
    var = VARIANCE in ms and not zero
    x, s = (30, 3) if var else c.choose('at', [(0, 0), (30, 3)] + ([] if wide else [(90, 3)]))
    b = c.nonneg('b', 100000, sample=(1, 50))
    u = 5 if var else c.choose('u', [1, 5])
    t = c.choose('t', [1, 3] if var else [1, 3, 20])
    m = c.choose('moment', [m for m in ms if x < 90 or m != VARIANCE])
    f = c.choose('product', [f for f in prods if x < 90 or f != 'A_x'])      # ages beyond 100: closed forms
    kw = dict(moment=m)
    ex = lambda a, t: math.exp(-a * t)
    ins = lambda u, t: lambda m: b ** m * ex(mu + m * dl, u) * mu / (mu + m * dl) * (1 if t is None else 1 - ex(mu + m * dl, t))
    end = lambda t: lambda m: b ** m * ex(mu + m * dl, t)

    def V2(g):
        if m != VARIANCE:
            return g(m)
        z = g(2) - g(1) ** 2
        c.assume(b > 0)
        c.assume(z / b ** 2 > 0)    # a variance: the code floors it at zero
        return z
    D = dict(discrete=False)
    if f == 'whole':
        c.assume(not zero or m != VARIANCE)
        c.eq(life.whole_life_insurance(x, s=s, b=b, **kw, **D), V2(ins(0, None)), 'whole life')
    elif f == 'term':
        c.eq(life.term_insurance(x, s=s, t=t, b=b, **kw, **D), V2(ins(0, t)), 'term')
        if m != VARIANCE:
            c.eq(life.term_insurance(x, s=s, t=-1, b=b, **kw, **D), V2(ins(0, None)), 'term, whole life')
    elif f == 'endow':
        c.assume(not zero or m != VARIANCE)
        c.eq(life.endowment_insurance(x, s=s, t=t, b=b, **kw, **D), V2(lambda m: ins(0, t)(m) + end(t)(m)), 'endowment')
        c.eq(life.endowment_insurance(x, s=s, t=t, b=b, endowment=0, **kw, **D), V2(ins(0, t)), 'endowment of nothing')
    elif f == 'defer':
        c.eq(life.deferred_insurance(x, s=s, u=u, t=t, b=b, **kw, **D), V2(ins(u, t)), 'deferred')
        if m != VARIANCE:
            c.eq(life.deferred_insurance(x, s=s, u=u, b=b, **kw, **D), V2(ins(u, None)), 'deferred whole life')
    elif f == 'E':
        c.eq(life.E_x(x, s=s, t=t, endowment=b, **kw), end(t)(2) - end(t)(1) ** 2 if m == VARIANCE else end(t)(m), 'pure endowment')
        c.eq(life.E_x(x, s=s, t=0, endowment=b, **kw), 0 if m == VARIANCE else b ** m, 'pure endowment now')
        c.eq(life.E_x(x, s=s, t=-1, endowment=b, **kw), 0, 'pure endowment never')
    elif m != VARIANCE and not zero:
        c.eq(life.A_x(x, s=s, t=t, u=u, benefit=lambda x, t: b, **kw, **D), ins(u, t)(m), 'insurance benefits')


def annuities(c, zero=False, wide=False):
    """continuous annuities"""
    mu, dl = draw(c, zero, wide)
    life = ConstantForce(mu=mu).set_interest(delta=dl)
    x, s = c.choose('at', [(0, 0), (30, 3)] + ([] if wide else [(90, 3)]))
    b = c.nonneg('b', 100000, sample=(1, 50))
    u, t = c.choose('u', [1, 5]), c.choose('t', [1, 3, 20])
    f = c.choose('product', ['whole', 'temporary', 'deferred'] if x == 90 else ['whole', 'temporary', 'deferred', 'a_x'] + ([] if wide else ['variance', 'variance of temporary']))
    ex = lambda t: math.exp(-(mu + dl) * t)
    ann = lambda u, t: b * ex(u) * (1 if t is None else 1 - ex(t)) / (mu + dl)
    D = dict(discrete=False)
    if f == 'whole':
        c.eq(life.whole_life_annuity(x, s=s, b=b, **D), ann(0, None), 'annuity')
        c.eq(life.temporary_annuity(x, s=s, b=b, **D), ann(0, None), 'temporary without limit')
    elif f == 'temporary':
        c.eq(life.temporary_annuity(x, s=s, t=t, b=b, **D), ann(0, t), 'temporary')
    elif f == 'deferred':
        c.eq(life.deferred_annuity(x, s=s, t=t, u=u, b=b, **D), ann(u, t), 'deferred')
        c.eq(life.deferred_annuity(x, s=s, u=u, b=b, **D), ann(u, None), 'deferred whole life')
        c.eq(life.certain_life_annuity(x, s=s, u=u, b=b, **D), ann(u, None) + b * (u if zero else (1 - math.exp(-dl * u)) / dl), 'certain and life')
    elif f == 'variance':
        A = lambda m: mu / (mu + m * dl)
        w = b ** 2 / mu ** 2 if zero else b ** 2 * (A(2) - A(1) ** 2) / dl ** 2
        c.eq(life.whole_life_annuity(x, s=s, b=b, variance=True, **D), w, 'variance')
    elif f == 'variance of temporary':
        # second moment of the annuity to the time of death
        if zero:
            S = math.exp(-mu * t)
            w = 2 / mu ** 2 * (1 - S) - 2 * t * S / mu - ((1 - S) / mu) ** 2
        else:
            A = lambda m: mu / (mu + m * dl) * (1 - math.exp(-(mu + m * dl) * t)) + math.exp(-(mu + m * dl) * t)
            w = (A(2) - A(1) ** 2) / dl ** 2
        c.assume(w > 0)
        c.eq(life.temporary_annuity(x, s=s, t=t, b=b, variance=True, **D), b ** 2 * w, 'variance')
    elif not zero:
        c.eq(life.a_x(x, s=s, t=t, u=u, benefit=lambda x, t: b, **D), ann(u, t), 'annuity payments')


def discrete(c, n):
    """yearly payments, up to the age at which the model ends"""
    p = c.real('p', F(1, 2), F(99, 100), sample=(.6, .95))
    v = c.real('v', F(1, 20), F(99, 100), sample=(.7, .95))
    life = Short(mu=-math.log(p)).set_interest(v=v)
    s = c.choose('s', [0, 2])
    x = 41 - n - s
    b = c.nonneg('b', 100000, sample=(1, 50))
    u, t = c.choose('u', [1, 2]), c.choose('t', [1, 2])
    m = c.choose('moment', [1, 2])
    kw = dict(moment=m) if m > 1 else {}
    ins = lambda u, t: sum(((b * v ** (k + 1)) ** m * p ** k * (1 - p) for k in range(u, min(u + t, n))), 0)
    ann = lambda u, t: sum((b * (v * p) ** k for k in range(u, min(u + t, n))), 0)
    f = c.choose('product', ['whole', 'term', 'endow', 'defer', 'annuity', 'temporary', 'deferred', 'immediate', 'premium'])
    if f == 'whole':
        c.eq(life.whole_life_insurance(x, s=s, b=b, **kw), ins(0, n), 'whole life')
    elif f == 'term':
        c.eq(life.term_insurance(x, s=s, t=t, b=b, **kw), ins(0, t), 'term')
    elif f == 'endow':
        c.eq(life.endowment_insurance(x, s=s, t=t, b=b, **kw), ins(0, t) + (b * v ** t) ** m * p ** t, 'endowment')
    elif f == 'defer':
        c.eq(life.deferred_insurance(x, s=s, t=t, u=u, b=b, **kw), ins(u, t), 'deferred')
    elif m == 1:
        if f == 'annuity':
            # payments stop at the last age, where the insurance of the twin formula has not been paid to survivors
            c.eq(life.whole_life_annuity(x, s=s, b=b), (b - ins(0, n)) / (1 - v), 'annuity')
        elif f == 'temporary':
            c.eq(life.temporary_annuity(x, s=s, t=t, b=b), life.whole_life_annuity(x, s=s, b=b) - (v * p) ** t * life.whole_life_annuity(x, s=s + t, b=b), 'temporary')
        elif f == 'premium':
            c.eq(life.a_x(x, s=s, t=t, u=u, benefit=lambda x, t: b), ann(u, t), 'payments')


def percentiles(c):
    """times of death given survival probabilities"""
    mu, dl = draw(c)
    life = ConstantForce(mu=mu).set_interest(delta=dl)
    p = c.real('prob', F(1, 100), F(99, 100), sample=(.05, .95))
    x = c.choose('x', [0, 30])
    S = lambda t: math.exp(-mu * t)
    what = c.choose('what', ['cont', 'value', 'disc'])
    if what == 'cont':
        c.eq(S(life.Z_t(x, p, discrete=False)), p, 'insurance')
        c.eq(S(life.Y_t(x, p, discrete=False)), 1 - p, 'annuity')
    elif what == 'value':
        t = -math.log(p) / mu
        c.eq(life.Z_from_prob(x, p, discrete=False), math.exp(-dl * t), 'percentile of insurance')
        t = -math.log(1 - p) / mu
        c.eq(life.Y_from_prob(x, p, discrete=False), (1 - math.exp(-dl * t)) / dl, 'percentile of annuity')
    else:
        mu_ = c.real('m', F(1, 2), 1, sample=(.5, 1))
        life = ConstantForce(mu=mu_).set_interest(delta=dl)
        p = c.real('p', F(15, 100), F(85, 100), sample=(.2, .8))
        k = life.Z_t(x, p, discrete=True)
        t = -math.log(p) / mu_
        c.le(k, t, 'insurance, year of death')
        c.lt(t, k + 1, 'insurance, year of death')
        k = life.Y_t(x, 1 - p, discrete=True)
        c.le(t, k, 'annuity, year of death')
        c.lt(k - 1, t, 'annuity, year of death')


def instances(tier):
    return [Inst('survival', survival), Inst('lifetime', lifetime, max_paths=800),
            Inst('continuous', continuous, max_paths=3000), Inst('continuous-zero', lambda c: continuous(c, True, (1, 2, VARIANCE)), max_paths=3000),
            *[Inst(f'variance-{f}', lambda c, f=f: continuous(c, False, [VARIANCE], [f])) for f in ('whole', 'term', 'endow', 'defer', 'E')],
            Inst('continuous-small', lambda c: continuous(c, False, wide=True), max_paths=3000, bounds='forces from 1/100000'),
            Inst('annuities-small', lambda c: annuities(c, False, True), max_paths=3000, bounds='forces from 1/100000'),
            Inst('annuities', annuities, max_paths=2000), Inst('annuities-zero', lambda c: annuities(c, True), max_paths=2000),
            Inst('discrete-4', lambda c: discrete(c, 4), max_paths=2000), Inst('percentiles', percentiles)]
