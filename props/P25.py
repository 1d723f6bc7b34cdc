"""Full preliminary term reserves."""
from .common import *
from .P20 import model
from .P15 import ac, cont_oracle as acont
from .P13 import cont_oracle as icont
from actuarialmath import Reserves

OUTSIDE = 'terms of one year; zero interest for whole life and endowment insurances; ages, terms and durations other than those listed; premiums of endowment insurances (the library offers none)'


def fpt(c, X, W, ns, kind='p', sel=0, table=False, zero=False, ss=(0, 1)):
    T = Tab(c, X, W, kind, sel, lo=F(1, 100) if table else 0)
    v = c.const(1) if zero else c.prob('v', sample=(.8, .97))
    V = disc(v)
    life = model(c, T, v, table=table)
    if not isinstance(life, Reserves):
        life = Reserves().set_interest(i=1 / v - 1).set_survival(S=T.S, minage=0, maxage=W)
    s, x = c.choose('s', ss), X
    n = c.choose('n', ns)
    b = c.nonneg('b', sample=(10, 90))
    if zero:
        c.assume(b > 0)
    kw = {} if n < 0 else dict(n=n)
    N = W - x - s if n < 0 else min(n, W - x - s)
    one = lambda k: b
    what = c.choose('what', ['premium', 'value', 'endowment'])
    if what == 'premium':
        first = life.FPT_premium(x, s=s, b=b, first=True, **kw)
        rest = life.FPT_premium(x, s=s, b=b, **kw)
        c.eq(first, b * v * T.q(x, s, 0), 'first year pays for itself')
        c.eq(rest * T.a(V, x, s, t=N - 1, u=1), T.A(V, x, s, t=N - 1, u=1, b=one), 'renewal premiums pay for the rest')
        c.eq(life.FPT_premium(x, s=s, b=b, first=False, **kw), rest, 'renewal by default')
        c.eq(first + rest * T.a(V, x, s, t=N - 1, u=1), T.A(V, x, s, t=N, b=one), 'premiums pay for the benefits')
        return
    t = c.choose('t', [k for k in (0, 1, 2, 3, N) if k <= (N if n > 0 else N - 1)])
    e = 0
    if what == 'endowment':
        if n < 0:
            return
        e = b + 7 if zero else c.choose('e', [b, 77, b / 3])
        kw['endowment'] = e
    got = life.FPT_policy_value(x, s=s, t=t, b=b, **kw)
    if t <= 1:
        c.eq(got, 0, 'nil until the end of the first year')
        return
    m = N if n > 0 else None
    A = lambda t: T.A(V, x, s + t, t=None if m is None else m - t, b=one, e=e)
    a = lambda t: T.a(V, x, s + t, t=None if m is None else m - t)
    P = A(1) / a(1)
    c.eq(got, A(t) - (P * a(t) if t != m else 0), f'n={n} t={t}')
    if t == 2:
        p = T.p(x, s + 1, 1)
        c.eq(got * p, P / v - b * (1 - p), 'second year')


def cont(c, X, W, ns):
    """paid continuously: net value of the policy issued a year later"""
    T = Tab(c, X, W)
    v = c.real('v', F(1, 5), F(99, 100), sample=(.85, .97))
    life = Reserves().set_interest(i=1 / v - 1).set_survival(S=T.S_udd, f=T.f_udd, minage=0, maxage=W)
    s, x, n, t = c.choose('s', [0, 1]), X, c.choose('n', ns), c.choose('t', [0, 1, 2, 3])
    b = c.nonneg('b', sample=(10, 90))
    N = W - x - s if n < 0 else min(n, W - x - s)
    if t >= N:
        return
    kw = {} if n < 0 else dict(n=n)
    e = 0
    if n > 0 and c.choose('endow', [0, 1]):
        e = kw['endowment'] = c.choose('amount', [b, 77])
    got = life.FPT_policy_value(x, s=s, t=t, b=b, discrete=False, **kw)
    if t <= 1:
        c.eq(got, 0, 'nil until the end of the first year')
        return
    A = lambda t: b * icont(T, v, x, s + t, 0, N - t, 1, 0) + e * v ** (N - t) * T.p(x, s + t, N - t)
    a = lambda t: acont(T, v, x, s + t, 0, N - t, 1, 0)
    c.eq(got, A(t) - A(1) / a(1) * a(t), f'n={n} t={t}')


def instances(tier):
    th = tier == 'thorough'
    W = 46 if th else 45
    ns = [WHOLE, 2, 3, 4, 9]
    return [Inst('deep', lambda c: fpt(c, 40, W, ns), max_paths=2000, bounds=f'{W - 40} ages'),
            Inst('select', lambda c: fpt(c, 40, 44, ns, sel=2), max_paths=2000, bounds='2 select years'),
            Inst('lifetable', lambda c: fpt(c, 40, 44, ns, table=True), max_paths=2000, bounds='life table of 4 ages'),
            Inst('cont', lambda c: cont(c, 40, 44, [WHOLE, 2, 3, 9]), max_paths=600, bounds='uniform deaths, 4 ages'),
            Inst('zero', lambda c: fpt(c, 40, W, [2, 3, 4], zero=True), max_paths=2000, bounds='no interest'),
            Inst('wide', lambda c: fpt(c, 30, 65, [WHOLE, 20, 40], kind='l', ss=(0, 4)), max_paths=2000, bounds='35 ages')]
