"""Second moments and variances of insurance benefits."""
from .common import *
from .P13 import model, cont_oracle
from actuarialmath import Insurance, Annuity, LifeTable

OUTSIDE = 'ages, terms and deferrals other than those listed; third and higher moments'


def moments(c, X, W, ts, us, products, kind='p', sel=0, ss=(0, 1), v=None, table=False, inner=None):
    T = Tab(c, X, W, kind, sel, lo=F(1, 100) if table else 0)
    v = c.prob('v', sample=(.8, .99)) if v is None else v
    V = disc(v)
    b = c.pos('b', sample=(1, 50)) if kind == 'l' else c.nonneg('b', sample=(1, 50))
    if table:
        q = {x: 1 - T.p1(x, 0) for x in range(X, W)}
        life = LifeTable().set_interest(v=v).set_table(q=q, minage=X, maxage=W, radix=1000)
    else:
        life = model(c, T, v)
    s, x = c.choose('s', ss), X
    f = c.choose('product', products)
    m2 = c.choose('what', ['moment', 'variance'])
    nm = f'{f} {m2}'

    def check(call, A, nm):
        """A(m): m-th moment from first principles"""
        if m2 == 'moment':
            c.eq(call(2), A(2), nm)
            c.eq(call(1), A(1), nm + ' (first)')
        else:
            if inner:       # identities only: the solver is told that this variance is positive
                c.assume(A(2) - A(1) ** 2 > 0)
            c.eq(call(VARIANCE), A(2) - A(1) ** 2, nm)

    if f == 'whole':
        check(lambda m: life.whole_life_insurance(x, s=s, b=b, moment=m), lambda m: T.A(V, x, s, b=lambda k: b, m=m), nm)
    elif f == 'term':
        t = c.choose('t', ts)
        check(lambda m: life.term_insurance(x, s=s, t=t, b=b, moment=m), lambda m: T.A(V, x, s, t=term(t), b=lambda k: b, m=m), f'{nm} t={t}')
    elif f == 'deferred':
        t, u = c.choose('t', [t for t in ts if t]), c.choose('u', us)
        check(lambda m: life.deferred_insurance(x, s=s, t=t, u=u, b=b, moment=m),
              lambda m: T.A(V, x, s, t=term(t), u=u, b=lambda k: b, m=m), f'{nm} u={u} t={t}')
    elif f == 'endow':
        t = c.choose('t', ts)
        e = c.choose('endowment', ['own', 'same'])
        if e == 'own':
            e = c.nonneg('e', sample=(1, 50))
            kw = dict(endowment=e)
        else:
            e, kw = b, {}
        check(lambda m: life.endowment_insurance(x, s=s, t=t, b=b, moment=m, **kw),
              lambda m: T.A(V, x, s, t=term(t), b=lambda k: b, e=e, m=m), f'{nm} t={t}')
    elif f == 'pure':
        t = c.choose('t', ts)
        if table:
            g = lambda m: life.E_x(x, s=s, t=t, moment=m)
            e = 1
        else:
            e = c.nonneg('e', sample=(1, 50))
            g = lambda m: life.E_x(x, s=s, t=t, moment=m, endowment=e)
        check(g, lambda m: 0 if t < 0 else (e * v ** t) ** m * T.p(x, s, t), f'{nm} t={t}')
    elif f == 'A_x':
        t, u = c.choose('t', ts), c.choose('u', us)
        ben = lambda k: b + (k - 1) * (k + 2)
        e = c.nonneg('e', sample=(1, 50))
        kw = dict(endowment=e) if t >= 0 and x + s + t + u <= W else dict()
        ee = e if kw else 0
        for m in (1, 2, 3):
            c.eq(life.A_x(x, s=s, t=t, u=u, moment=m, benefit=lambda a, k: ben(k), **kw),
                 T.A(V, x, s, t=term(t), u=u, b=ben, m=m, e=ee), f'moment {m} with benefits u={u} t={t}')


def scaling(c, X, W):
    """second moment = first moment at the doubled force of interest; variance scales with the square"""
    T = Tab(c, X, W)
    v = c.prob('v', sample=(.8, .99))
    b = c.nonneg('b', sample=(1, 50))
    one = Annuity().set_interest(v=v).set_survival(S=T.S, minage=0, maxage=W)
    two = Annuity().set_interest(v=v * v).set_survival(S=T.S, minage=0, maxage=W)
    s, t, u = c.choose('s', [0, 1]), c.choose('t', [1, 2]), c.choose('u', [1, 2])
    x = X
    f = c.choose('product', ['whole', 'term', 'deferred', 'endow'])
    g = {'whole': lambda l, **k: l.whole_life_insurance(x, s=s, **k), 'term': lambda l, **k: l.term_insurance(x, s=s, t=t, **k),
         'deferred': lambda l, **k: l.deferred_insurance(x, s=s, t=t, u=u, **k),
         'endow': lambda l, **k: l.endowment_insurance(x, s=s, t=t, **k)}[f]
    c.eq(g(one, moment=2), g(two), f'{f}: second moment at the doubled force')
    c.eq(g(one, b=b), b * g(one), f'{f}: mean scales')
    c.eq(g(one, b=b, moment=2), b * b * g(one, moment=2), f'{f}: second moment scales')
    c.eq(g(one, b=b, moment=VARIANCE), b * b * g(one, moment=VARIANCE), f'{f}: variance scales')
    c.le(0, g(one, moment=VARIANCE), f'{f}: variance is not negative')


def cont(c, X, W, products):
    T = Tab(c, X, W)
    v = c.prob('v', sample=(.8, .99))
    b = c.nonneg('b', sample=(1, 50))
    life = model(c, T, v, cont=True)
    s, t, u, x = c.choose('s', [0, 1]), c.choose('t', [1, 2, 5]), c.choose('u', [0, 1]), X
    f = c.choose('product', products)
    D = dict(discrete=False, b=b)
    o = lambda a, z, m: b ** m * cont_oracle(T, v ** m, x, s, a, z, 1, 0)
    e = c.nonneg('e', sample=(1, 50))
    call, orc = {
        'whole': (lambda m: life.whole_life_insurance(x, s=s, moment=m, **D), lambda m: o(0, W, m)),
        'term': (lambda m: life.term_insurance(x, s=s, t=t, moment=m, **D), lambda m: o(0, t, m)),
        'deferred': (lambda m: life.deferred_insurance(x, s=s, t=t, u=u, moment=m, **D), lambda m: o(u, u + t, m)),
        'endow': (lambda m: life.endowment_insurance(x, s=s, t=t, endowment=e, moment=m, **D), lambda m: o(0, t, m) + (e * v ** t) ** m * T.p(x, s, t)),
    }[f]
    c.assume(orc(2) - orc(1) ** 2 > 0)
    c.eq(call(2), orc(2), f'{f} second moment u={u} t={t}')
    c.eq(call(VARIANCE), orc(2) - orc(1) ** 2, f'{f} variance u={u} t={t}')


def helper(c):
    """variance from the two moments of any two-point benefit"""
    p, z0, z1 = c.prob('p'), c.real('z0', sample=(0, 1)), c.real('z1', sample=(0, 1))
    b = c.nonneg('b', sample=(1, 50))
    m1, m2 = p * z0 + (1 - p) * z1, p * z0 ** 2 + (1 - p) * z1 ** 2
    c.eq(Insurance.insurance_variance(A2=m2, A1=m1, b=b), b * b * (p * (z0 - m1) ** 2 + (1 - p) * (z1 - m1) ** 2), 'variance from moments')
    c.eq(Insurance.insurance_variance(A2=m2, A1=m1), p * (z0 - m1) ** 2 + (1 - p) * (z1 - m1) ** 2, 'variance from moments, unit benefit')


def instances(tier):
    th = tier == 'thorough'
    W = 46 if th else 45
    ts, us = [WHOLE, 0, 1, 3, 9], [0, 1, 3, 8]
    out = []
    for f in ('whole', 'term', 'deferred', 'endow', 'pure', 'A_x'):
        P = [f]
        out.append(Inst(f'deep-{f}', lambda c, P=P: moments(c, 40, W, ts, us, P), bounds=f'{W - 40} ages, all rates', max_paths=600))
        out.append(Inst(f'select-{f}', lambda c, P=P: moments(c, 40, W, ts, us, P, sel=2, ss=(0, 1, 2)), bounds='2 select years', max_paths=600))
        out.append(Inst(f'wide-{f}', lambda c, P=P: moments(c, 30, 75, [WHOLE, 1, 20], [0, 15, 60], P, kind='l', ss=(0, 12), inner=True), bounds='45 ages', max_paths=600))
        out.append(Inst(f'zero-{f}', lambda c, P=P: moments(c, 40, 44, ts, us, P, v=c.const(1)), bounds='no interest', max_paths=600))
        if f != 'A_x':
            out.append(Inst(f'lifetable-{f}', lambda c, P=P: moments(c, 40, 44, ts, us, P, table=True), bounds='life table of 4 ages', max_paths=600))
        if f not in ('pure', 'A_x'):
            out.append(Inst(f'cont-{f}', lambda c, P=P: cont(c, 40, 43, P), bounds='uniform deaths, 3 ages'))
    return out + [Inst('scaling', lambda c: scaling(c, 40, 44), bounds='4 ages'), Inst('helper', helper)]
