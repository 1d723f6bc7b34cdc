"""Net policy values and the variance of the net future loss."""
from .common import *
from .P15 import cont_oracle as acont, ac
from .P13 import cont_oracle as icont
from actuarialmath import PolicyValues, LifeTable, Reserves

OUTSIDE = 'zero interest for whole life and endowment insurances; ages, terms and durations other than those listed'


def model(c, T, v, cont=False, table=False):
    if table:
        q = {x: 1 - T.p1(x, 0) for x in range(T.x0, T.w)}
        return LifeTable().set_interest(v=v).set_table(q=q, minage=T.x0, maxage=T.w, radix=1000)
    cls = c.choose('class', [PolicyValues, Reserves]) if T.kind == 'p' and T.sel == 0 else PolicyValues
    return cls().set_interest(v=v).set_survival(S=T.S_udd if cont else T.S, f=T.f_udd if cont else None, minage=0, maxage=T.w)


def value(c, X, W, nts, products, kind='p', sel=0, ss=(0, 1), v=None, table=False):
    """value at duration t: benefits less net premiums still to come"""
    T = Tab(c, X, W, kind, sel, lo=F(1, 100) if table else 0)
    zero = v is not None
    v = c.prob('v', sample=(.8, .97)) if v is None else v
    V = disc(v)
    life = model(c, T, v, table=table)
    s, x = c.choose('s', ss), X
    f = c.choose('product', products)
    n, t = c.choose('term', [k for k in nts if (k[0] < 0) == (f == 'whole')])
    b = c.nonneg('b', sample=(10, 50))
    e = {'whole': 0, 'term': 0, 'endow': b, 'special': None}[f]
    if e is None:
        e = b + c.pos('e', sample=(10, 60)) if c.choose('more', [1, 0]) else b * c.prob('share', sample=(.1, .9))
    if zero and f != 'whole':
        c.assume(b > 0)     # no interest
    m = n if n < 0 else min(n, W - x - s)
    if m >= 0 and t > m:
        return
    A = lambda s, t: T.A(V, x, s, t=term(t), b=lambda k: b, e=e)
    P = A(s, m) / T.a(V, x, s, t=term(m))
    want = A(s + t, m - t if m >= 0 else m) - (P * T.a(V, x, s + t, t=term(m - t if m >= 0 else m)) if t != m else 0)
    kw = {} if n < 0 else dict(n=n)
    if f in ('endow', 'special'):
        kw['endowment'] = e
    got = life.net_policy_value(x, s=s, t=t, b=b, **kw)
    c.eq(got, want, f'{f} n={n} t={t}')
    if t == 0:
        c.eq(got, 0, f'{f} n={n}: no value at issue')
        c.eq(life.net_policy_value(x, s=s, b=b, **kw), 0, 'at issue by default')
    if t == m:
        c.eq(got, e, f'{f} n={n}: value at expiry')


def variance(c, X, W, nts, kind='p', sel=0, ss=(0, 1), table=False, inner=False):
    """variance of the future loss, by year of death"""
    T = Tab(c, X, W, kind, sel, lo=F(1, 100) if table else 0)
    v = c.prob('v', sample=(.8, .97))
    V = disc(v)
    life = model(c, T, v, table=table)
    s, x = c.choose('s', ss), X
    n, t = c.choose('term', nts)
    b = c.nonneg('b', sample=(10, 50))
    if n >= 0 and t >= min(n, W - x - s):
        return
    m = n if n < 0 else min(n, W - x - s)
    e = 0 if n < 0 else b
    P = T.A(V, x, s, t=term(m), b=lambda k: b, e=e) / T.a(V, x, s, t=term(m))
    if T.kind == 'l':       # a factor of exactly 0 stands for one not given: impossible with real mortality
        c.assume(T.A(V, x, s, t=term(m), b=lambda k: 1, e=1 if n >= 0 else 0) > 0)
    N = W - x - s - t if m < 0 else m - t
    m1 = m2 = 0
    for k in range(N):
        L = b * v ** (k + 1) - P * ac(v, k + 1)
        q = T.q(x, s + t, k)
        m1, m2 = m1 + q * L, m2 + q * L * L
    if m >= 0:
        L = b * v ** N - P * ac(v, N)
        q = T.p(x, s + t, N)
        m1, m2 = m1 + q * L, m2 + q * L * L
    kw = {} if n < 0 else dict(n=n, endowment=b)
    c.eq(life.net_policy_variance(x, s=s, t=t, b=b, **kw), m2 - m1 ** 2, f'n={n} t={t}')
    c.eq(life.net_policy_value(x, s=s, t=t, b=b, **kw), m1, f'n={n} t={t} (mean)')


def cont(c, X, W, nts):
    T = Tab(c, X, W)
    v = c.real('v', F(1, 5), F(99, 100), sample=(.85, .97))
    life = model(c, T, v, cont=True)
    s, x = c.choose('s', [0, 1]), X
    f = c.choose('product', ['whole', 'endow', 'term', 'special'])
    n, t = c.choose('term', [k for k in nts if (k[0] < 0) == (f == 'whole')])
    b = c.nonneg('b', sample=(10, 50))
    e = {'whole': 0, 'term': 0, 'endow': b, 'special': None}[f]
    if e is None:
        e = b + c.pos('e', sample=(10, 60)) if c.choose('more', [1, 0]) else b * c.prob('share', sample=(.1, .9))
    m = W if n < 0 else min(n, W - x - s)
    A = lambda s, m: icont(T, v, x, s, 0, m, b, 0) + (e * v ** m * T.p(x, s, m) if n >= 0 else 0)
    a = lambda s, m: acont(T, v, x, s, 0, m, 1, 0)
    kw = {} if n < 0 else dict(n=n)
    if f in ('endow', 'special'):
        kw['endowment'] = e
    P = A(s, m) / a(s, m)
    got = life.net_policy_value(x, s=s, t=t, b=b, discrete=False, **kw)
    c.eq(got, A(s + t, m - t) - P * a(s + t, m - t), f'{f} n={n} t={t}')
    if f in ('whole', 'endow'):
        A1 = lambda s, m, w: icont(T, w, x, s, 0, m, 1, 0) + (w ** m * T.p(x, s, m) if n >= 0 else 0)
        dl = -math.log(v)
        var = (b + P / dl) ** 2 * (A1(s + t, m - t, v * v) - A1(s + t, m - t, v) ** 2)
        c.eq(life.net_policy_variance(x, s=s, t=t, b=b, discrete=False, **kw), var, f'{f} n={n} t={t} variance')


def shortcuts(c):
    """from insurance factors; two-point distribution of the present value at duration t"""
    life = PolicyValues()
    p, z0, z1, A, b = c.prob('p'), c.prob('z0'), c.prob('z1'), c.prob('A'), c.pos('b', sample=(10, 50))
    d = c.prob('d', sample=(.01, .2))
    m1, m2 = p * z0 + (1 - p) * z1, p * z0 ** 2 + (1 - p) * z1 ** 2
    P = b * d * A / (1 - A)
    L = lambda z: b * z - P * (1 - z) / d
    mean = p * L(z0) + (1 - p) * L(z1)
    c.eq(life.net_future_loss(A=A, A1=m1, b=b), mean, 'mean')
    c.eq(life.net_future_loss(A=A, A1=m1), mean / b, 'mean, unit benefit')
    var = p * (L(z0) - mean) ** 2 + (1 - p) * (L(z1) - mean) ** 2
    c.eq(life.net_variance_loss(A1=m1, A2=m2, A=A, b=b), var, 'variance')
    c.eq(life.net_variance_loss(A1=m1, A2=m2, A=A), var / b ** 2, 'variance, unit benefit')
    P = d * m1 / (1 - m1)
    L = lambda z: z - P * (1 - z) / d
    mean = p * L(z0) + (1 - p) * L(z1)
    c.eq(life.net_variance_loss(A1=m1, A2=m2), p * (L(z0) - mean) ** 2 + (1 - p) * (L(z1) - mean) ** 2, 'variance at issue')


def rejects(c):
    T = Tab(c, 40, 45)
    life = PolicyValues().set_interest(v=c.prob('v')).set_survival(S=T.S, minage=0, maxage=45)
    c.fails(lambda: life.net_policy_variance(40, n=3, b=2, endowment=1), 'variance of an unequal endowment')
    c.fails(lambda: life.net_policy_variance(40, n=3), 'variance of a term insurance')


def recursion(c, X, W):
    """(V + P)(1+i) = q b + p V' for whole life, term and endowment insurances"""
    T = Tab(c, X, W, 'p', c.choose('select', [0, 2]))
    v = c.prob('v', sample=(.8, .97))
    life = PolicyValues().set_interest(v=v).set_survival(S=T.S, minage=0, maxage=W)
    n = c.choose('n', [WHOLE, 2, 4])
    b = c.nonneg('b', sample=(10, 50))
    e = 0 if n < 0 else c.choose('endowment', [0, b, 77])
    kw = {} if n < 0 else dict(n=n, endowment=e)
    P = life.net_premium(X, t=n, b=b, endowment=e)
    t = c.choose('t', range(n if n > 0 else W - X - 1))
    V0, V1 = life.net_policy_value(X, t=t, b=b, **kw), life.net_policy_value(X, t=t + 1, b=b, **kw)
    c.eq((V0 + P) / v, b * T.q(X, t) + T.p(X, t, 1) * V1, f'n={n} t={t}')


def instances(tier):
    th = tier == 'thorough'
    W = 46 if th else 45
    nts = [(WHOLE, 0), (WHOLE, 1), (WHOLE, 3), (3, 0), (3, 1), (3, 2), (3, 3), (4, 2), (9, 0), (9, 2), (1, 0), (1, 1)]
    out = []
    for f in ('whole', 'term', 'endow', 'special'):
        P = [f]
        out += [Inst(f'deep-{f}', lambda c, P=P: value(c, 40, W, nts, P), bounds=f'{W - 40} ages', max_paths=600),
                Inst(f'select-{f}', lambda c, P=P: value(c, 40, 45, nts, P, sel=2, ss=(0, 1)), bounds='2 select years'),
                Inst(f'lifetable-{f}', lambda c, P=P: value(c, 40, 45, nts, P, table=True), bounds='life table of 5 ages'),
                Inst(f'wide-{f}', lambda c, P=P: value(c, 30, 70, [(WHOLE, 0), (WHOLE, 12), (25, 5), (25, 20), (20, 19), (20, 20), (60, 3)], P, kind='l', ss=(0, 6)), bounds='40 ages')]
        if f in ('term', 'special'):
            out.append(Inst(f'zero-{f}', lambda c, P=P: value(c, 40, W, nts, P, v=c.const(1)), bounds='no interest'))
    out += [Inst('variance', lambda c: variance(c, 40, 45, [(WHOLE, 0), (WHOLE, 2), (3, 0), (3, 2), (4, 3), (9, 1)]), bounds='5 ages'),
            Inst('variance-select', lambda c: variance(c, 40, 45, [(WHOLE, 0), (WHOLE, 1), (3, 0), (3, 1)], sel=2), bounds='2 select years'),
            Inst('variance-wide', lambda c: variance(c, 40, 49, [(WHOLE, 0), (WHOLE, 4), (7, 5), (7, 1)], kind='l', ss=(0, 2)), bounds='9 ages'),
            Inst('variance-lifetable', lambda c: variance(c, 40, 44, [(WHOLE, 0), (WHOLE, 1), (3, 1), (9, 1)], table=True), bounds='life table of 4 ages'),
            Inst('cont', lambda c: cont(c, 40, 44, [(WHOLE, 0), (WHOLE, 1), (2, 0), (2, 1), (3, 1), (9, 1)]), bounds='uniform deaths, 4 ages', max_paths=600),
            Inst('shortcuts', shortcuts), Inst('rejects', rejects), Inst('recursion', lambda c: recursion(c, 40, 46), bounds='6 ages')]
    return out
