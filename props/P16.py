"""Twins of insurances and annuities; variances of annuities."""
from .common import *
from .P13 import cont_oracle
from .P15 import model, ac
from actuarialmath import Annuity, Premiums, PolicyValues, LifeTable

OUTSIDE = 'ages and terms other than those listed; variances of deferred, certain, increasing and decreasing annuities (the library offers none)'


def twins(c):
    i = c.pos('i', 1, sample=(.01, .3))
    life = c.choose('class', [Annuity, Premiums, PolicyValues])().set_interest(i=i)
    a, A = c.pos('a', sample=(1, 20)), c.pos('A', 1)
    d, dl = i / (1 + i), math.log(1 + i)
    for disc_, r in ((True, d), (False, dl)):
        D = dict(discrete=disc_)
        c.eq(life.insurance_twin(a=a, **D), 1 - r * a, f'insurance twin {disc_}')
        c.eq(life.annuity_twin(A=A, **D), (1 - A) / r, f'annuity twin {disc_}')
        c.eq(life.annuity_twin(A=life.insurance_twin(a=a, **D), **D), a, f'there and back {disc_}')
        c.eq(life.insurance_twin(a=life.annuity_twin(A=A, **D), **D), A, f'back and there {disc_}')
    c.eq(life.insurance_twin(a=a), 1 - d * a, 'discrete by default')
    c.eq(life.annuity_twin(A=A), (1 - A) / d, 'discrete by default (annuity)')


def helper(c):
    """Var(Y) from the moments of the twin: two-point distribution of the present value Z of the insurance"""
    i = c.pos('i', 1, sample=(.01, .3))
    life = Annuity().set_interest(i=i)
    p, z0, z1, b = c.prob('p'), c.prob('z0'), c.prob('z1'), c.nonneg('b', sample=(1, 50))
    m1, m2 = p * z0 + (1 - p) * z1, p * z0 ** 2 + (1 - p) * z1 ** 2
    for disc_, r in ((True, i / (1 + i)), (False, math.log(1 + i))):
        y0, y1 = (1 - z0) / r, (1 - z1) / r
        m = p * y0 + (1 - p) * y1
        var = p * (y0 - m) ** 2 + (1 - p) * (y1 - m) ** 2
        c.eq(life.annuity_variance(A2=m2, A1=m1, discrete=disc_), var, f'variance {disc_}')
        c.eq(life.annuity_variance(A2=m2, A1=m1, b=b, discrete=disc_), b * b * var, f'variance {disc_} of b')


def paid(T, x, s, val, last):
    """E and Var of val(number of whole years lived, up to last)"""
    m1 = m2 = 0
    n = T.w - x - s
    for k in range(n):
        y = val(min(k, last))
        m1, m2 = m1 + T.q(x, s, k) * y, m2 + T.q(x, s, k) * y * y
    return m1, m2 - m1 * m1


def variance(c, X, W, ts, products, kind='p', sel=0, ss=(0, 1), v=None, table=False, inner=False):
    T = Tab(c, X, W, kind, sel, lo=F(1, 100) if table else 0)
    v = c.prob('v', sample=(.8, .97)) if v is None else v
    b = c.nonneg('b', sample=(1, 50))
    life = model(c, T, v, table=table)
    s, x = c.choose('s', ss), X
    f = c.choose('product', products)
    n = W - x - s
    if f == 'whole':
        last = n
        call = lambda: life.whole_life_annuity(x, s=s, b=b, variance=True)
    else:
        t = c.choose('t', ts)
        if t < 0:
            last = n
        else:
            last = min(t, n) - (f == 'temp')
        if f == 'temp':
            call = lambda: life.temporary_annuity(x, s=s, t=t, b=b, variance=True)
        else:
            call = lambda: life.immediate_annuity(x, s=s, t=t, b=b, variance=True)
    val = (lambda k: b * ac(v, k + 1)) if f != 'immediate' else (lambda k: b * ac(v, k + 1) - b)
    m, var = paid(T, x, s, val, last)
    if inner:
        ins = paid(T, x, s, lambda k: v ** (k + 1), last)
        c.assume(ins[1] > 0)
    c.eq(call(), var, f'{f} variance of the present value')
    # mean, by the same distribution
    if f == 'whole':
        c.eq(life.whole_life_annuity(x, s=s, b=b), m, 'mean')
    elif f == 'temp':
        c.eq(life.temporary_annuity(x, s=s, t=t, b=b), m, 'mean')
    else:
        c.eq(life.immediate_annuity(x, s=s, t=t, b=b), m, 'mean')


def cont(c, X, W, products):
    T = Tab(c, X, W)
    v = c.real('v', F(1, 5), F(99, 100), sample=(.85, .97))
    b = c.nonneg('b', sample=(1, 50))
    life = model(c, T, v, cont=True)
    s, x = c.choose('s', [0, 1]), X
    f = c.choose('product', products)
    t = c.choose('t', [1, 2, 5]) if f == 'temp' else WHOLE
    o = lambda m: cont_oracle(T, v ** m, x, s, 0, t if t > 0 else W, 1, 0) + (v ** (t * m) * T.p(x, s, t) if t > 0 else 0)
    A1, A2 = o(1), o(2)
    c.assume(A2 - A1 ** 2 > 0)
    dl = -math.log(v)
    got = life.whole_life_annuity(x, s=s, b=b, variance=True, discrete=False) if f == 'whole' else \
        life.temporary_annuity(x, s=s, t=t, b=b, variance=True, discrete=False)
    c.eq(got, b * b * (A2 - A1 ** 2) / dl ** 2, f'{f} continuous variance')
    g = life.whole_life_annuity(x, s=s, discrete=False) if f == 'whole' else life.temporary_annuity(x, s=s, t=t, discrete=False)
    a = life.whole_life_insurance(x, s=s, discrete=False) if f == 'whole' else life.endowment_insurance(x, s=s, t=t, discrete=False)
    c.eq(life.insurance_twin(a=g, discrete=False), a, 'continuous twin')
    c.eq(life.annuity_twin(A=a, discrete=False), g, 'continuous annuity twin')


def zero_cont(c, X, W):
    """no interest: variance of the time for which payments are made, deaths uniform over each year"""
    T = Tab(c, X, W)
    b = c.nonneg('b', sample=(1, 50))
    life = model(c, T, c.const(1), cont=True)
    s, t = c.choose('s', [0, 1]), c.choose('t', [WHOLE, 0, 1, 2, 9])
    n = W - X - s if t < 0 else min(t, W - X - s)
    p, q = (lambda k: T.p(X, s, k)), (lambda k: T.q(X, s, k))
    m1 = sum((p(k) - q(k) * F(1, 2) for k in range(n)), 0)
    m2 = sum((k * (2 * p(k) - q(k)) + p(k) - q(k) * F(2, 3) for k in range(n)), 0)
    kw = dict(discrete=False, b=b, variance=True)
    c.eq(life.temporary_annuity(X, s=s, t=t, **kw), b * b * (m2 - m1 * m1), f'temporary {t}')
    if t < 0:
        c.eq(life.whole_life_annuity(X, s=s, **kw), b * b * (m2 - m1 * m1), 'whole life')


def tabtwins(c, X, W, kind, sel, ss):
    T = Tab(c, X, W, kind, sel)
    v = c.prob('v', sample=(.8, .97))
    life = model(c, T, v)
    s, x = c.choose('s', ss), X
    t = c.choose('t', [WHOLE, 1, 2, W - X - 1])
    if t < 0:
        A, a = life.whole_life_insurance(x, s=s), life.whole_life_annuity(x, s=s)
    else:
        A, a = life.endowment_insurance(x, s=s, t=t), life.temporary_annuity(x, s=s, t=t)
    c.eq(a, T.a(disc(v), x, s, t=term(t)), f'annuity {t}')
    c.eq(life.insurance_twin(a=a), A, f'insurance twin {t}')
    c.eq(life.annuity_twin(A=A), a, f'annuity twin {t}')


def instances(tier):
    th = tier == 'thorough'
    W = 46 if th else 45
    ts = [WHOLE, 0, 1, 2, 3, 9]
    out = [Inst('twins', twins), Inst('helper', helper),
           Inst('table-twins', lambda c: tabtwins(c, 40, 45, 'p', 0, (0, 1))), Inst('table-twins-select', lambda c: tabtwins(c, 40, 45, 'p', 2, (0, 1, 2))),
           Inst('table-twins-wide', lambda c: tabtwins(c, 20, 100, 'l', 0, (0, 20)), bounds='80 ages')]
    for f in ('whole', 'temp', 'immediate'):
        P = [f]
        out += [Inst(f'deep-{f}', lambda c, P=P: variance(c, 40, W, ts, P), bounds=f'{W - 40} ages', max_paths=600),
                Inst(f'select-{f}', lambda c, P=P: variance(c, 40, 45, ts, P, sel=2, ss=(0, 1, 2)), bounds='2 select years'),
                Inst(f'zero-{f}', lambda c, P=P: variance(c, 40, W, ts, P, v=c.const(1)), bounds='no interest'),
                Inst(f'lifetable-{f}', lambda c, P=P: variance(c, 40, 44, ts, P, table=True), bounds='life table of 4 ages'),
                Inst(f'wide-{f}', lambda c, P=P: variance(c, 30, 55, [WHOLE, 1, 10], P, kind='l', ss=(0, 7), inner=True), bounds='25 ages')]
        if f != 'immediate':
            out.append(Inst(f'cont-{f}', lambda c, P=P: cont(c, 40, 43, P), bounds='uniform deaths, 3 ages'))
    out.append(Inst('zero-cont', lambda c: zero_cont(c, 40, 44), bounds='no interest, uniform deaths, 4 ages'))
    return out
