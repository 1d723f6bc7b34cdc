"""Net premiums under the equivalence principle."""
from .common import *
from .P15 import model as amodel, cont_oracle as acont, ac
from .P13 import cont_oracle as icont
from actuarialmath import Premiums, PolicyValues, LifeTable, SelectLife

OUTSIDE = 'ages, terms, deferrals and premium periods other than those listed; refunds of premiums on death after a premium period shorter than the insured one'


def model(c, T, v, cont=False, table=False):
    if table:
        q = {x: 1 - T.p1(x, 0) for x in range(T.x0, T.w)}
        return LifeTable().set_interest(v=v).set_table(q=q, minage=T.x0, maxage=T.w, radix=1000)
    cls = c.choose('class', [Premiums, PolicyValues]) if T.kind == 'p' and T.sel == 0 else Premiums
    return cls().set_interest(v=v).set_survival(S=T.S_udd if cont else T.S, f=T.f_udd if cont else None, minage=0, maxage=T.w)


def net(c, X, W, cases, kind='p', sel=0, ss=(0, 1), v=None, table=False):
    T = Tab(c, X, W, kind, sel, lo=F(1, 100) if table else 0)
    v = c.prob('v', sample=(.8, .99)) if v is None else v
    V = disc(v)
    life = model(c, T, v, table=table)
    s, x = c.choose('s', ss), X
    f, t, u, n = c.choose('case', cases)
    b, g = c.nonneg('b', sample=(1, 50)), c.nonneg('cost', sample=(.1, 2))
    kw = dict(t=t, u=u)
    if n:
        kw['n'] = n
    np_ = n or u or t                       # premium payment period: deferral, else term
    prem = T.a(V, x, s, t=term(np_))
    ben = T.A(V, x, s, t=term(t), u=u, b=lambda k: b)
    e = c.nonneg('e', sample=(1, 50))
    end = e * v ** (t + u) * T.p(x, s, t + u) if t >= 0 else 0
    ann = T.a(V, x, s, t=term(t), u=u, b=lambda k: b)
    ref = T.A(V, x, s, t=term(np_), b=lambda k: k)
    nm = f'{f} t={t} u={u} n={n}'
    N = lambda **k: life.net_premium(x, s=s, b=b, **kw, **k)
    if f == 'plain':
        P = N()
        c.eq(P * prem, ben, nm)
        c.eq(N(initial_cost=g) * prem, ben + g, nm + ' with initial cost')
    elif f == 'endow':
        c.eq(N(endowment=e) * prem, ben + end, nm)
        c.eq(N(endowment=e, initial_cost=g) * prem, ben + end + g, nm + ' with initial cost')
    elif f == 'annuity':
        c.eq(N(annuity=True) * prem, ann, nm)
        c.eq(N(annuity=True, initial_cost=g) * prem, ann + g, nm + ' with initial cost')
    elif f == 'refund':
        c.assume(prem - ref > 0)
        P = N(return_premium=True)
        c.eq(P * prem, ben + P * ref, nm)
    elif f == 'refund-annuity':
        c.assume(prem - ref > 0)
        P = N(return_premium=True, annuity=True)
        c.eq(P * prem, ann + P * ref, nm)
    elif f == 'refund-endow':
        c.assume(prem - ref > 0)
        P = N(return_premium=True, endowment=e, initial_cost=g)
        c.eq(P * prem, ben + end + g + P * ref, nm)


def default(c, X, W):
    T = Tab(c, X, W)
    v = c.prob('v', sample=(.8, .99))
    life = model(c, T, v)
    s = c.choose('s', [0, 1])
    A, a = T.A(disc(v), X, s), T.a(disc(v), X, s)
    c.eq(life.net_premium(X, s=s) * a, A, 'whole life by default')
    c.lt(0, life.net_premium(X, s=s), 'positive')
    # expected loss at issue, by year of death
    P = life.net_premium(X, s=s, b=7)
    c.eq(sum(T.q(X, s, k) * (7 * v ** (k + 1) - P * ac(v, k + 1)) for k in range(W - X - s)), 0, 'expected loss is zero')
    d = 1 - v
    c.eq(life.net_premium(X, s=s), 1 / a - d, 'annuity form')
    c.eq(life.net_premium(X, s=s, t=2, endowment=1), 1 / T.a(disc(v), X, s, t=2) - d, 'annuity form (endowment)')
    c.le(life.net_premium(X, s=s, t=2), life.net_premium(X, s=s, t=2, endowment=1), 'endowments cost more')


def shortcuts(c):
    i = c.pos('i', 1, sample=(.01, .3))
    life = c.choose('class', [Premiums, PolicyValues])().set_interest(i=i)
    a, b, A = c.pos('a', sample=(1, 20)), c.pos('b', sample=(1, 50)), c.prob('A')
    P = c.pos('P', sample=(.01, 2))
    for D, d in ((dict(discrete=True), i / (1 + i)), (dict(discrete=False), math.log(1 + i)), ({}, i / (1 + i))):
        tw = (1 - A) / d
        c.eq(life.premium_equivalence(A=A, b=b, **D) * tw, b * A, f'from the insurance {D}')
        c.eq(life.premium_equivalence(a=a, b=b, **D) * a, b * (1 - d * a), f'from the annuity {D}')
        c.eq(life.premium_equivalence(A=A, a=a, b=b, **D) * a, b * A, f'from both {D}')
        c.eq(life.premium_equivalence(A=A, **D) * tw, A, f'unit benefit {D}')
        A1, a1 = life.insurance_equivalence(premium=P, b=b, **D), life.annuity_equivalence(premium=P, b=b, **D)
        c.eq(A1, 1 - d * a1, f'twins {D}')
        c.eq(P * a1, b * A1, f'equivalence {D}')
        c.eq(life.premium_equivalence(A=A1, b=b, **D), P, f'there and back {D}')
        c.eq(life.premium_equivalence(a=a1, b=b, **D), P, f'there and back (annuity) {D}')
        c.eq(life.insurance_equivalence(premium=P, **D), P / (d + P), f'unit insurance {D}')
        c.eq(life.annuity_equivalence(premium=P, **D), 1 / (d + P), f'unit annuity {D}')


def zero(c):
    """no interest"""
    life = Premiums().set_interest(i=0)
    a, b, P = c.pos('a', sample=(1, 20)), c.nonneg('b', sample=(1, 50)), c.pos('P', sample=(.01, 2))
    for D in (dict(discrete=True), dict(discrete=False)):
        c.eq(life.premium_equivalence(a=a, b=b, **D) * a, b, 'benefit spread over the payments')
        c.eq(life.annuity_equivalence(premium=P, b=b, **D), b / P, 'number of payments')
        c.eq(life.insurance_equivalence(premium=P, b=b, **D), 1, 'benefit without discount')


def cont(c, X, W, cases):
    T = Tab(c, X, W)
    v = c.real('v', F(1, 5), F(99, 100), sample=(.85, .97))
    life = model(c, T, v, cont=True)
    s, x = c.choose('s', [0, 1]), X
    f, t, u, n = c.choose('case', cases)
    b = c.nonneg('b', sample=(1, 50))
    kw = dict(t=t, u=u, discrete=False, b=b)
    if n:
        kw['n'] = n
    np_ = n or u or t
    z = lambda t: t if t >= 0 else W
    prem = acont(T, v, x, s, 0, z(np_), 1, 0)
    ben = icont(T, v, x, s, u, u + z(t), b, 0)
    e = c.nonneg('e', sample=(1, 50))
    nm = f'{f} t={t} u={u} n={n}'
    if f == 'plain':
        c.eq(life.net_premium(x, s=s, **kw) * prem, ben, nm)
    elif f == 'endow':
        c.eq(life.net_premium(x, s=s, endowment=e, **kw) * prem, ben + e * v ** (t + u) * T.p(x, s, t + u), nm)
    elif f == 'annuity':
        c.eq(life.net_premium(x, s=s, annuity=True, **kw) * prem, acont(T, v, x, s, u, u + z(t), b, 0), nm)
    elif f == 'refund':
        ref = icont(T, v, x, s, 0, z(np_), 0, 1)
        c.assume(prem - ref > 0)
        P = life.net_premium(x, s=s, return_premium=True, **kw)
        c.eq(P * prem, ben + P * ref, nm)


def instances(tier):
    th = tier == 'thorough'
    W = 46 if th else 45
    tun = [(WHOLE, 0, 0), (WHOLE, 0, 2), (WHOLE, 2, 0), (WHOLE, 2, 1), (1, 0, 0), (3, 0, 0), (3, 0, 2), (2, 2, 0), (2, 1, 3), (9, 0, 0), (9, 0, 1), (1, 3, 1), (2, 0, 4), (1, 1, 4)]
    C = {f: [(f,) + k for k in tun if not (f in ('endow', 'refund-endow') and k[0] < 0)] for f in ('plain', 'endow', 'annuity')}
    full = [(WHOLE, 0, 0), (3, 0, 0), (9, 0, 0), (WHOLE, 2, 0), (2, 1, 0), (1, 3, 3)]
    for f in ('refund', 'refund-annuity', 'refund-endow'):
        C[f] = [(f,) + k for k in full if not (f == 'refund-endow' and k[0] < 0)]
    out = []
    for f, cs in C.items():
        out += [Inst(f'deep-{f}', lambda c, cs=cs: net(c, 40, W, cs), bounds=f'{W - 40} ages', max_paths=600),
                Inst(f'select-{f}', lambda c, cs=cs: net(c, 40, 45, cs, sel=2, ss=(0, 1, 2)), bounds='2 select years', max_paths=600),
                Inst(f'zero-{f}', lambda c, cs=cs: net(c, 40, 45, [k for k in cs if 'refund' not in f or k[1] > 0 and k[1] < 4], v=c.const(1)), bounds='no interest'),
                Inst(f'lifetable-{f}', lambda c, cs=cs: net(c, 40, 44, cs, table=True), bounds='life table of 4 ages')]
        w = [(f, 20, 0, 0), (f, 10, 15, 0)] + ([] if f == 'refund-endow' or f == 'endow' else [(f, WHOLE, 0, 0), (f, WHOLE, 12, 0)])
        if 'refund' not in f:
            w += [(f, 30, 0, 10), (f, 20, 10, 3)]
        out.append(Inst(f'wide-{f}', lambda c, w=w: net(c, 20, 65, w, kind='l', ss=(0, 9)), bounds='45 ages'))
        if f in ('plain', 'endow', 'annuity', 'refund'):
            cc = [k for k in cs if k[1:] in ((WHOLE, 0, 0), (3, 0, 2), (2, 2, 0), (2, 1, 0), (WHOLE, 2, 0))]
            out.append(Inst(f'cont-{f}', lambda c, cc=cc: cont(c, 40, 44, cc), bounds='uniform deaths, 4 ages'))
    return out + [Inst('default', lambda c: default(c, 40, 45)), Inst('shortcuts', shortcuts), Inst('zero', zero)]
