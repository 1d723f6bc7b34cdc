"""The standard ultimate life table."""
from .common import *
from actuarialmath import SULT

OUTSIDE = 'the formatted table (P36); age ranges other than those listed'

A0, B0, C0 = 0.00022, 0.0000027, 1.124       # Makeham's law of the published table


def given(c, X, W, udd, zero=False):
    """a table generated from any survival function at any interest rate"""
    T = Tab(c, X, W, 'p', lo=F(1, 100))
    v = c.real('v', F(1, 20), 1, sample=(.8, .98)) if not zero else c.const(1)
    r = c.real('radix', 1, 1000000, sample=(1000, 100000))
    life = SULT(i=1 / v - 1 if not zero else 0, radix=r, S=lambda x, t: T.p(x, 0, t), minage=X, maxage=W, udd=udd)
    what = c.choose('what', ['lives', 'columns', 'products', 'fractions'])
    V = disc(v)
    if what == 'lives':
        for k in range(W - X + 1):
            c.eq(life.l_x(X + k), r * T.p(X, 0, k), f'lives {X + k}')
        c.same((life.l_x(W + 1), life.l_x(X - 1)), (0, 0), 'no lives beyond the table')
    elif what == 'columns':
        f = {'q': lambda x: 1 - T.p(x, 0, 1), 'p': lambda x: T.p(x, 0, 1), 'a': lambda x: T.a(V, x), 'A': lambda x: T.A(V, x)}
        for k in f:
            got = life[k]
            c.same(list(got), list(range(X, W)), f'ages of column {k}')
            for x in got:
                c.eq(got[x], f[k](x), f'column {k} at {x}')
        c.fails(lambda: life['z'], 'unknown column')
    elif what == 'products':
        x, t = c.choose('x', [X, X + 1]), c.choose('t', [1, 2])
        b = c.nonneg('b', 100000, sample=(1, 50))
        c.eq(life.whole_life_insurance(x, b=b, moment=2), b ** 2 * T.A(V, x, m=2), 'second moment')
        c.eq(life.temporary_annuity(x, t=t, b=b), b * T.a(V, x, t=t), 'temporary annuity')
        c.eq(life.endowment_insurance(x, t=t, b=b), b * T.A(V, x, t=t, e=1), 'endowment insurance')
        c.eq(life.term_insurance(x, t=t, b=b), b * T.A(V, x, t=t), 'term insurance')
        c.eq(life.deferred_annuity(x, u=t, b=b), b * T.a(V, x, u=t), 'deferred annuity')
        c.eq(life.E_x(x, t=t), T.E(V, x, 0, t), 'pure endowment')
        c.eq(life.net_premium(x, t=t, b=b), b * T.A(V, x, t=t) / T.a(V, x, t=t), 'net premium')
    else:
        x, h = c.choose('x', [X, X + 1]), c.real('h', 0, 1, sample=(.2, .8))
        p = T.p(x, 0, 1)
        c.eq(life.p_r(x, t=h), 1 - h * (1 - p) if udd else p ** h, 'survival of a fraction of a year')
        c.eq(life.l_r(x, r=h), r * T.p(X, 0, x - X) * (1 - h * (1 - p) if udd else p ** h), 'lives at a fraction of a year')


def makeham(c, lo, hi, ages):
    """numbers of lives of the published table, by its law"""
    r = c.real('radix', 1, 1000000, sample=(1000, 100000))
    life = SULT(radix=r, minage=lo, maxage=hi)
    x = c.choose('x', [y for y in ages if y >= lo])
    S = lambda a, b: math.exp(-A0 * (b - a) - B0 * (C0 ** b - C0 ** a) / math.log(C0))
    c.eq(life.l_x(x), r * S(lo, x), 'lives')
    if x < hi:
        c.eq(life.p_x(x), S(x, x + 1), 'survival')
        c.eq(life.q_x(x), 1 - S(x, x + 1), 'mortality')
        c.eq(life.d_x(x), r * (S(lo, x) - S(lo, x + 1)), 'deaths')
        c.eq(life['q'][x], 1 - S(x, x + 1), 'table of mortality')
        t = c.choose('t', [2, 10])
        if x + t <= hi:
            c.eq(life.p_x(x, t=t), S(x, x + t), 'survival of many years')
            c.eq(life.q_x(x, t=1, u=t - 1), S(x, x + t - 1) - S(x, x + t), 'deferred mortality')


def published(c, lo, hi, ages, ts):
    """values at any interest rate with the published mortality"""
    v = c.real('v', F(4, 5), F(99, 100), sample=(.92, .98))
    life = SULT(i=1 / v - 1, minage=lo, maxage=hi)
    x, t = c.choose('x', ages), c.choose('t', ts)
    S = lambda a, b: math.exp(-A0 * (b - a) - B0 * (C0 ** b - C0 ** a) / math.log(C0)) if b <= hi else 0
    b = c.real('b', 1, 100, sample=(1, 50))
    n = hi - x + 1
    m = min(t, n) if t >= 0 else n
    ann = sum((v ** k * S(x, x + k) for k in range(m)), 0)
    ins = lambda j: sum((v ** (j * (k + 1)) * (S(x, x + k) - S(x, x + k + 1)) for k in range(m)), 0)
    E = lambda j: v ** (j * t) * S(x, x + t) if t >= 0 else 0
    if t >= 0:
        c.eq(life.temporary_annuity(x, t=t, b=b), b * ann, 'temporary annuity')
        c.eq(life.term_insurance(x, t=t, b=b), b * ins(1), 'term insurance')
        c.eq(life.endowment_insurance(x, t=t, b=b), b * (ins(1) + E(1)), 'endowment insurance')
        c.eq(life.E_x(x, t=t), E(1), 'pure endowment')
        c.eq(life.deferred_annuity(x, u=t, b=b), b * sum((v ** k * S(x, x + k) for k in range(t, n)), 0), 'deferred annuity')
        c.eq(life.deferred_insurance(x, u=t, b=b), b * sum((v ** (k + 1) * (S(x, x + k) - S(x, x + k + 1)) for k in range(t, n)), 0), 'deferred insurance')
    else:
        c.eq(life.whole_life_annuity(x, b=b), b * ann, 'annuity')
        c.eq(life.whole_life_insurance(x, b=b), b * ins(1), 'insurance')
        c.eq(life.whole_life_insurance(x, b=b, moment=2), b ** 2 * ins(2), 'second moment of insurance')
        c.eq(life['a'][x], ann, 'table of annuities')
        c.eq(life['A'][x], ins(1), 'table of insurances')


def instances(tier):
    deep = tier == 'thorough'
    out = [Inst('given-udd', lambda c: given(c, 50, 54, True), bounds='4 ages'),
           Inst('given-cfm', lambda c: given(c, 5, 8, False), bounds='3 ages'),
           Inst('given-zero', lambda c: given(c, 50, 53, True, True), bounds='3 ages, no interest'),
           Inst('makeham', lambda c: makeham(c, 20, 130, range(20, 131, 10 if not deep else 1)), bounds='ages 20-130', max_paths=3000),
           Inst('makeham-young', lambda c: makeham(c, c.choose('from', [0, 5]), 40, [0, 5, 7, 18, 40]), bounds='ages 0-40')]
    for x in [60, 100, 120] + ([20, 40, 80] if deep else []):
        ts = [5, -1] if not deep else [1, 5, 10, 20, -1]
        out.append(Inst(f'published-{x}', lambda c, x=x, ts=ts: published(c, 20, 130, [x], [t for t in ts if x + t < 130]), bounds=f'age {x}, terms {ts}',
                        max_paths=3000, budget=200 if deep else 60))
    return out
