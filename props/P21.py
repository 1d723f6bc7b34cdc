"""Gross policy values, the variance of the gross loss and contract terms."""
from .common import *
from .P15 import cont_oracle as acont, ac
from .P13 import cont_oracle as icont
from .P20 import model
from actuarialmath import PolicyValues, Contract

OUTSIDE = 'zero interest for whole life and endowment insurances; durations beyond the term; ages, terms and durations other than those listed'


def amounts(c, endow=None):
    k = dict(premium=c.nonneg('premium', sample=(1, 20)), benefit=c.nonneg('benefit', sample=(10, 90)),
             initial_policy=c.real('ip', 0, 5000, sample=(1, 9), lo_open=False), initial_premium=c.real('ir', 0, 1, sample=(.1, .9), lo_open=False),
             renewal_policy=c.real('rp', 0, 5000, sample=(0, 2), lo_open=False), renewal_premium=c.real('rr', 0, 1, sample=(0, .2), lo_open=False),
             settlement_policy=c.real('sp', 0, 5000, sample=(0, 5), lo_open=False))
    if endow == 'same':
        k['endowment'] = k['benefit'] + k['settlement_policy']
    elif endow == 'other':
        k['endowment'] = k['benefit'] + k['settlement_policy'] + c.pos('extra', sample=(10, 60))
    elif endow == 'less':
        k['endowment'] = (k['benefit'] + k['settlement_policy']) * c.prob('share', sample=(.1, .9))
    elif endow == 'benefit':
        c.assume(k['settlement_policy'] > 0)
        k['endowment'] = k['benefit']
    return k


def by_year(c, T, V, k, x, s, m, t, whole):
    """(probability, loss at duration t) of each outcome, payments year by year"""
    N = T.w - x - s - t if whole else m - t
    G = k['premium']
    ren = G - G * k['renewal_premium'] - k['renewal_policy']
    first = G - G * k['initial_premium'] - k['initial_policy'] if t == 0 else ren
    out = []
    for j in range(N):
        loss = (k['benefit'] + k['settlement_policy']) * V(j + 1) - first
        for i in range(1, j + 1):
            loss = loss - ren * V(i)
        out.append((T.q(x, s + t, j), loss))
    if not whole:
        loss = k.get('endowment', 0) * V(N) - (first if N > 0 else 0)
        for i in range(1, N):
            loss = loss - ren * V(i)
        out.append((T.p(x, s + t, N), loss))
    return out


def value(c, X, W, nts, products, kind='p', sel=0, ss=(0, 1), table=False, zero=False):
    T = Tab(c, X, W, kind, sel, lo=F(1, 100) if table else 0)
    v = c.const(1) if zero else c.prob('v', sample=(.8, .97))
    V = disc(v)
    life = model(c, T, v, table=table)
    s, x = c.choose('s', ss), X
    f = c.choose('product', products)
    n, t = c.choose('term', [k for k in nts if (k[0] < 0) == (f == 'whole')])
    k = amounts(c, {'whole': None, 'term': None}.get(f, f))
    if zero and f in ('term', 'less'):
        c.assume(k['benefit'] + k['settlement_policy'] > 0)
    m = n if n < 0 else min(n, W - x - s)
    if m >= 0 and t > m or m == 0 == t:
        return
    kw = {} if n < 0 else dict(n=n)
    C = Contract(**k, T=n)
    before = dict(vars(C))
    want = 0
    for q, loss in by_year(c, T, V, k, x, s, m, t, n < 0):
        want = want + q * loss
    c.eq(life.gross_policy_value(x, s=s, t=t, contract=C, **kw), want, f'{f} n={n} t={t}')
    if t == 0:
        c.eq(life.gross_policy_value(x, s=s, contract=C, **kw), want, 'at issue by default')
    for j in before:
        c.true(vars(C)[j] is before[j] or vars(C)[j] == before[j], f'{j} of the contract unchanged')


def variance(c, X, W, nts, kind='p', sel=0, ss=(0, 1), table=False):
    T = Tab(c, X, W, kind, sel, lo=F(1, 100) if table else 0)
    v = c.prob('v', sample=(.8, .97))
    V = disc(v)
    life = model(c, T, v, table=table)
    s, x = c.choose('s', ss), X
    n, t = c.choose('term', nts)
    k = amounts(c, None if n < 0 else 'same')
    m = n if n < 0 else min(n, W - x - s)
    if m >= 0 and t >= m:
        return
    m1 = m2 = 0
    for q, loss in by_year(c, T, V, k, x, s, m, t, n < 0):
        m1, m2 = m1 + q * loss, m2 + q * loss ** 2
    kw = {} if n < 0 else dict(n=n)
    c.eq(life.gross_policy_variance(x, s=s, t=t, contract=Contract(**k), **kw), m2 - m1 ** 2, f'n={n} t={t}')


def cont(c, X, W, nts):
    T = Tab(c, X, W)
    v = c.real('v', F(1, 5), F(99, 100), sample=(.85, .97))
    life = model(c, T, v, cont=True)
    s, x = c.choose('s', [0, 1]), X
    f = c.choose('product', ['whole', 'term', 'same', 'other', 'less'])
    n, t = c.choose('term', [k for k in nts if (k[0] < 0) == (f == 'whole')])
    k = amounts(c, {'whole': None, 'term': None}.get(f, f))
    m = W - x - s if n < 0 else min(n, W - x - s)
    if t >= m:
        return
    C = Contract(**k, discrete=False)
    kw = {} if n < 0 else dict(n=n)
    cl = k['benefit'] + k['settlement_policy']
    ren = k['premium'] * (1 - k['renewal_premium']) - k['renewal_policy']
    A = lambda w: icont(T, w, x, s + t, 0, m - t, 1, 0)
    E = lambda w: w ** (m - t) * T.p(x, s + t, m - t)
    want = cl * A(v) - ren * acont(T, v, x, s + t, 0, m - t, 1, 0)
    if n > 0:
        want = want + k.get('endowment', 0) * E(v)
    if t == 0:
        want = want + k['initial_policy'] - k['renewal_policy'] + k['premium'] * (k['initial_premium'] - k['renewal_premium'])
    c.eq(life.gross_policy_value(x, s=s, t=t, contract=C, **kw), want, f'{f} n={n} t={t}')
    if f in ('whole', 'same'):
        e = (lambda w: 0) if n < 0 else E
        a1, a2 = A(v) + e(v), A(v * v) + e(v * v)
        c.eq(life.gross_policy_variance(x, s=s, t=t, contract=C, **kw), (cl + ren / -math.log(v)) ** 2 * (a2 - a1 ** 2), f'{f} n={n} t={t} variance')


def shortcuts(c):
    """from factors: two-point distribution of the present value of 1 at death"""
    v = c.prob('v', sample=(.8, .97))
    life = PolicyValues().set_interest(v=v)
    disc = c.choose('discrete', [True, False])
    d = 1 - v if disc else -math.log(v)
    p, z0, z1 = c.prob('p'), c.prob('z0'), c.prob('z1')
    m1, m2 = p * z0 + (1 - p) * z1, p * z0 ** 2 + (1 - p) * z1 ** 2
    k = amounts(c)
    C = Contract(**k, discrete=disc)
    ren = k['premium'] * (1 - k['renewal_premium']) - k['renewal_policy']
    init = k['initial_policy'] + k['premium'] * k['initial_premium'] - k['renewal_policy'] - k['premium'] * k['renewal_premium']
    L = lambda z: (k['benefit'] + k['settlement_policy']) * z + init - ren * (1 - z) / d
    mean = p * L(z0) + (1 - p) * L(z1)
    c.eq(life.gross_future_loss(A=m1, contract=C), mean, 'from A')
    c.eq(life.gross_future_loss(a=(1 - m1) / d, contract=C), mean, 'from a')
    c.eq(life.gross_future_loss(A=m1, a=(1 - m1) / d, contract=C), mean, 'from both')
    A, a = c.prob('A'), c.pos('a', sample=(3, 15))
    c.eq(life.gross_future_loss(A=A, a=a, contract=C), (k['benefit'] + k['settlement_policy']) * A + init - ren * a, 'from any factors')
    c.eq(life.gross_future_loss(A=0, a=a, contract=C), init - ren * a, 'no insurance')
    c.eq(life.gross_future_loss(A=A, a=0, contract=C), (k['benefit'] + k['settlement_policy']) * A + init, 'no annuity')
    c.eq(life.gross_variance_loss(A1=m1, A2=m2, contract=C), p * (L(z0) - mean) ** 2 + (1 - p) * (L(z1) - mean) ** 2, 'variance')


def equivalence(c):
    """value at issue is nil at the gross premium"""
    T = Tab(c, 40, 44)
    v = c.prob('v', sample=(.8, .97))
    life = PolicyValues().set_interest(v=v).set_survival(S=T.S, minage=0, maxage=44)
    f = c.choose('product', ['whole', 'term', 'same', 'other', 'less'])
    k = amounts(c, {'whole': None, 'term': None}.get(f, f))
    k.pop('premium')
    C = Contract(**k)
    if f == 'whole':
        A, a, E, kw = life.whole_life_insurance(40), life.whole_life_annuity(40), 0, {}
    else:
        A, a, E, kw = life.term_insurance(40, t=3), life.temporary_annuity(40, t=3), life.E_x(40, t=3), dict(n=3)
    c.assume(a * (1 - k['renewal_premium']) - k['initial_premium'] + k['renewal_premium'] > 0)
    G = life.gross_premium(A=A, a=a, E=E, endowment=k.get('endowment', 0), **C.premium_terms)
    c.assume(G > 0)
    C.set_contract(premium=G)
    c.eq(C.premium, G)
    c.eq(life.gross_policy_value(40, contract=C, **kw), 0, f)


def contract(c):
    k = amounts(c, 'other')
    n, t = c.choose('T', [10, 3, WHOLE]), c.choose('t', [0, 1, 3])
    disc = c.choose('discrete', [True, False])
    C = Contract(**k, T=n, discrete=disc)
    for j in k:
        c.eq(getattr(C, j), k[j], j)
    c.true(C.T == n and C.discrete is disc, 'term and kind')
    G = k['premium']
    c.eq(C.renewal_profit, G - G * k['renewal_premium'] - k['renewal_policy'], 'renewal profit')
    c.eq(C.initial_cost, k['initial_policy'] + G * k['initial_premium'] - k['renewal_policy'] - G * k['renewal_premium'], 'initial cost')
    c.eq(C.claims_cost, k['benefit'] + k['settlement_policy'], 'claims')
    pt = C.premium_terms
    names = ['benefit', 'initial_policy', 'initial_premium', 'renewal_policy', 'renewal_premium', 'settlement_policy']
    c.true(sorted(pt) == names, 'premium terms')
    for j in names:
        c.eq(pt[j], k[j], j)
    R = C.renewals(t)
    c.true(R is not C, 'a new contract')
    c.eq(R.initial_cost, 0, 'renewals have no initial cost')
    c.eq(R.renewal_profit, C.renewal_profit, 'same profit')
    c.eq(R.claims_cost, C.claims_cost, 'same claims')
    for j in ('premium', 'benefit', 'endowment', 'settlement_policy', 'renewal_policy', 'renewal_premium'):
        c.eq(getattr(R, j), k[j], j + ' of renewals')
    c.eq(R.initial_policy, k['renewal_policy'])
    c.eq(R.initial_premium, k['renewal_premium'])
    c.true(R.discrete is disc, 'kind of renewals')
    c.true(R.T == n - t if n > 0 else R.T < 0, 'remaining term')
    for j in k:
        c.eq(getattr(C, j), k[j], j + ' unchanged')
    new = c.pos('new', sample=(1, 9))
    j = c.choose('set', list(k))
    c.true(C.set_contract(**{j: new}) is C, 'returns the contract')
    for i in k:
        c.eq(getattr(C, i), new if i == j else k[i], i + ' after setting ' + j)
    for i in k:
        c.true(C.set_contract(**{i: 0}) is C, 'returns the contract')
        c.eq(getattr(C, i), 0, i + ' set to nothing')
    C.set_contract(T=7)
    c.true(C.T == 7, 'term set')
    C.set_contract(discrete=not disc)
    c.true(C.discrete is (not disc) and C.T == 7, 'kind set')
    D = Contract()
    c.true((D.premium, D.benefit, D.endowment, D.discrete, D.initial_cost, D.claims_cost, D.renewal_profit) == (1, 1, 0, True, 0, 1, 1) and D.T < 0, 'defaults')


def rejects(c):
    T = Tab(c, 40, 45)
    life = PolicyValues().set_interest(v=c.prob('v')).set_survival(S=T.S, minage=0, maxage=45)
    c.fails(lambda: life.gross_policy_variance(40, n=3, contract=Contract(benefit=2, endowment=1)), 'variance of an unequal endowment')
    c.fails(lambda: life.gross_policy_variance(40, n=3, contract=Contract(benefit=2)), 'variance of a term insurance')
    c.fails(lambda: life.gross_policy_variance(40, n=3, contract=Contract(benefit=2, endowment=2, settlement_policy=1)), 'endowment without settlement costs')


def instances(tier):
    th = tier == 'thorough'
    W = 46 if th else 44
    nts = [(WHOLE, 0), (WHOLE, 1), (WHOLE, 2), (3, 0), (3, 1), (3, 2), (3, 3), (9, 0), (9, 2), (1, 0), (1, 1)]
    wide = [(WHOLE, 0), (WHOLE, 12), (20, 0), (25, 5), (20, 19), (20, 20), (60, 3)]
    out = []
    for f in ('whole', 'term', 'same', 'other', 'less', 'benefit'):
        P = [f]
        out += [Inst(f'deep-{f}', lambda c, P=P: value(c, 40, W, nts, P), bounds=f'{W - 40} ages', max_paths=600),
                Inst(f'wide-{f}', lambda c, P=P: value(c, 30, 70, wide, P, kind='l', ss=(0, 6)), bounds='40 ages')]
        if f != 'benefit':
            out += [Inst(f'select-{f}', lambda c, P=P: value(c, 40, 44, nts, P, sel=2, ss=(0, 1)), bounds='2 select years'),
                    Inst(f'lifetable-{f}', lambda c, P=P: value(c, 40, 44, nts, P, table=True), bounds='life table of 4 ages')]
        if f in ('term', 'other', 'less'):
            out.append(Inst(f'zero-{f}', lambda c, P=P: value(c, 40, W, nts, P, zero=True), bounds='no interest'))
    out += [Inst('variance', lambda c: variance(c, 40, 45, [(WHOLE, 0), (WHOLE, 2), (3, 0), (3, 2), (4, 3), (9, 1)]), bounds='5 ages'),
            Inst('variance-select', lambda c: variance(c, 40, 44, [(WHOLE, 0), (WHOLE, 1), (3, 0), (3, 1)], sel=2), bounds='2 select years'),
            Inst('variance-wide', lambda c: variance(c, 40, 52, [(WHOLE, 0), (WHOLE, 7), (10, 5), (10, 1)], kind='l', ss=(0, 2)), bounds='12 ages'),
            Inst('variance-lifetable', lambda c: variance(c, 40, 44, [(WHOLE, 0), (WHOLE, 1), (3, 1), (9, 1)], table=True), bounds='life table of 4 ages'),
            Inst('cont', lambda c: cont(c, 40, 44, [(WHOLE, 0), (WHOLE, 1), (2, 0), (2, 1), (3, 1), (9, 1)]), bounds='uniform deaths, 4 ages', max_paths=600),
            Inst('shortcuts', shortcuts), Inst('rejects', rejects), Inst('contract', contract), Inst('equivalence', equivalence, bounds='4 ages')]
    return out
