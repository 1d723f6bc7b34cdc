"""Gross premiums under the equivalence principle."""
from .common import *
from .P15 import ac
from actuarialmath import Premiums, PolicyValues

OUTSIDE = 'ages and terms other than those listed; renewal expenses over a period other than that of the premiums'

NAMES = ('initial_policy', 'initial_premium', 'renewal_policy', 'renewal_premium', 'settlement_policy')


def expenses(c):
    e = {k: c.nonneg(k, sample=(1, 40)) for k in NAMES if 'premium' not in k}
    e['initial_premium'] = c.real('initial_premium', 0, 1, sample=(.1, .6))
    e['renewal_premium'] = c.real('renewal_premium', 0, F(1, 2), sample=(.01, .1))
    return e


def factors(c):
    """any factors: premiums cover benefits and expenses"""
    i = c.pos('i', 1, sample=(.01, .3))
    life = c.choose('class', [Premiums, PolicyValues])().set_interest(i=i)
    e = expenses(c)
    a, A, IA, E = c.real('a', 1, 60, sample=(3, 20)), c.prob('A'), c.real('IA', 0, 1, sample=(.1, .3)), c.prob('E')
    b, end = c.nonneg('b', sample=(100, 1000)), c.nonneg('endowment', sample=(100, 1000))
    which = c.choose('which', ['all', 'noexp', 'endow', 'refund', 'ins', 'ann', 'one'])
    if which in ('all', 'endow', 'refund', 'one') and c.choose('no benefits on death', [False, True]):
        A = 0
    d = i / (1 + i)
    def ok(a, refund=0):        # premiums exceed the expenses and refunds that go with them
        c.assume(a - e['initial_premium'] - e['renewal_premium'] * (a - 1) - refund > 0)
    costs = lambda a, A, G: A * e['settlement_policy'] + e['initial_policy'] + e['renewal_policy'] * (a - 1) + G * (e['initial_premium'] + e['renewal_premium'] * (a - 1))
    if which in ('all', 'refund'):
        ok(a, IA)
    elif which in ('endow', 'ann'):
        ok(a)
    if which == 'all':
        G = life.gross_premium(a=a, A=A, IA=IA, E=E, endowment=end, benefit=b, **e)
        c.eq(G * a, b * A + E * end + G * IA + costs(a, A, G), 'all benefits and expenses')
    elif which == 'noexp':
        G = life.gross_premium(a=a, A=A, benefit=b)
        c.eq(G, life.premium_equivalence(A=A, a=a, b=b), 'net premium without expenses')
    elif which == 'endow':
        G = life.gross_premium(a=a, A=A, E=E, endowment=end, benefit=b, **e)
        c.eq(G * a, b * A + E * end + costs(a, A, G), 'endowment')
    elif which == 'refund':
        G = life.gross_premium(a=a, A=A, IA=IA, benefit=b, **e)
        c.eq(G * a, b * A + G * IA + costs(a, A, G), 'refund')
    elif which == 'one':
        n = c.choose('name', NAMES)
        if 'premium' in n:
            c.assume(a - e[n] * (1 if n[0] == 'i' else a - 1) > 0)
        G = life.gross_premium(a=a, A=A, benefit=b, **{n: e[n]})
        zero = {k: 0 for k in NAMES}
        zero[n] = e[n]
        k = zero
        c.eq(G * a, b * A + A * k['settlement_policy'] + k['initial_policy'] + k['renewal_policy'] * (a - 1)
             + G * (k['initial_premium'] + k['renewal_premium'] * (a - 1)), n)
    else:
        for D, d in ((dict(discrete=True), d), (dict(discrete=False), math.log(1 + i)), ({}, d)):
            if which == 'ins':
                a1 = (1 - A) / d
                ok(a1)
                G = life.gross_premium(A=A, benefit=b, **e, **D)
                c.eq(G * a1, b * A + costs(a1, A, G), f'from the insurance {D}')
            else:
                G = life.gross_premium(a=a, benefit=b, **e, **D)
                A1 = 1 - d * a
                c.eq(G * a, b * A1 + costs(a, A1, G), f'from the annuity {D}')


def policy(c, X, W, kind='p', sel=0, ss=(0, 1), ts=(WHOLE, 1, 3)):
    """expected present value of the loss of a policy at its gross premium is zero, by year of death"""
    T = Tab(c, X, W, kind, sel)
    v = c.prob('v', sample=(.8, .97))
    life = Premiums().set_interest(v=v).set_survival(S=T.S, minage=0, maxage=W)
    s, x, t = c.choose('s', ss), X, c.choose('t', ts)
    e = expenses(c)
    b = c.nonneg('b', sample=(100, 1000))
    what = c.choose('what', ['plain', 'endow', 'refund'] if t >= 0 and x + s + t < W else ['plain', 'refund'])
    n = W - x - s if t < 0 else t
    a = life.temporary_annuity(x, s=s, t=t)
    A = life.term_insurance(x, s=s, t=t)
    kw, end, ref = {}, 0, 0
    if what == 'endow':
        end = c.nonneg('endowment', sample=(100, 1000))
        kw = dict(E=life.E_x(x, s=s, t=t), endowment=end)
    elif what == 'refund':
        ref = 1
        kw = dict(IA=life.increasing_insurance(x, s=s, t=t))
    c.assume(a - e['initial_premium'] - e['renewal_premium'] * (a - 1) - kw.get('IA', 0) > 0)
    G = life.gross_premium(a=a, A=A, benefit=b, **e, **kw)
    loss = 0
    for k in range(n):        # dies in year k+1
        m = k + 1             # premiums paid
        out = v ** m * (b + e['settlement_policy'] + ref * m * G)
        loss = loss + T.q(x, s, k) * (out - gain(v, m, G, e))
    if t >= 0:
        loss = loss + T.p(x, s, n) * (v ** n * end - gain(v, n, G, e))
    c.eq(loss, 0, f'expected loss {what} t={t}', atol=0)


def gain(v, m, G, e):
    """premiums less expenses of m years"""
    first = G * (1 - e['initial_premium']) - e['initial_policy']
    later = G * (1 - e['renewal_premium']) - e['renewal_policy']
    return first + later * (ac(v, m) - 1)


def rejects(c):
    c.fails(lambda: Premiums().set_interest(i=F(1, 20)).gross_premium(a=10, A=c.prob('A'), endowment=5), 'an endowment needs a pure endowment factor')


def instances(tier):
    th = tier == 'thorough'
    return [Inst('factors', factors), Inst('policy', lambda c: policy(c, 40, 46 if th else 45), bounds='5 ages'),
            Inst('policy-select', lambda c: policy(c, 40, 45, sel=2, ss=(0, 1, 2)), bounds='2 select years'),
            Inst('policy-wide', lambda c: policy(c, 30, 60, kind='l', ss=(0, 8), ts=(WHOLE, 10, 20)), bounds='30 ages'), Inst('rejects', rejects)]
