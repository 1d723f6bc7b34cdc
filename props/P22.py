"""Present value of future loss as a random variable of the time of death."""
from .common import *
from .P15 import ac
from .P17 import Smooth
from .P20 import model
from .P21 import amounts
from actuarialmath import PolicyValues, Contract, Reserves

OUTSIDE = 'losses that do not decrease with the time of death; survival functions other than those listed'
ASSUMPTIONS = ['scipy.optimize.fsolve and minimize_scalar return a root of the function they are given']


def parts(k):
    G = k['premium']
    ren = G - G * k['renewal_premium'] - k['renewal_policy']
    return k['benefit'] + k['settlement_policy'], k['initial_policy'] + G * k['initial_premium'] - k['renewal_policy'] - G * k['renewal_premium'], ren


def loss(c, disc, zero=False):
    """the loss at any time of death, within and beyond the term"""
    v = c.const(1) if zero else c.real('v', F(1, 20), F(99, 100), sample=(.8, .98))
    life = c.choose('class', [PolicyValues, Reserves])().set_interest(i=1 / v - 1)
    k = amounts(c, c.choose('endowment', [None, 'other', 'same', 'less']))
    claims, init, ren = parts(k)
    K = c.choose('K', [0, 1, 2, 7, 30])
    r = c.real('r', 0, 1, lo_open=False, sample=(.1, .9))
    C = lambda T: Contract(**k, **({} if T is None else dict(T=T)), **({} if disc and c.choose('default', [0, 1]) else dict(discrete=disc)))
    T = c.choose('T', [None, WHOLE, 1, 2, 5, 8, 31])
    end = k.get('endowment', 0)
    dl = -math.log(v)
    abar = lambda t: t if zero else (1 - v ** t) / dl
    if T is not None and 0 < T <= K:
        want = end * v ** T + init - ren * (ac(v, T) if disc else abar(T))
    elif disc:
        want = claims * v ** (K + 1) + init - ren * ac(v, K + 1)
    else:
        want = claims * v ** (K + r) + init - ren * abar(K + r)
    c.eq(life.L_from_t(K + r, contract=C(T)), want, f'K={K} T={T}')


def mean(c, X, W, nts, kind='p', sel=0):
    """the gross policy value at issue is the expected loss"""
    T = Tab(c, X, W, kind, sel)
    v = c.prob('v', sample=(.8, .97))
    life = model(c, T, v)
    n = c.choose('n', nts)
    e = None if n < 0 else c.choose('endowment', [None, 'same', 'other', 'less'])
    k = amounts(c, e)
    C = Contract(**k, T=n)
    within = c.choose('within', [0, F(1, 2)])
    m1 = m2 = 0
    N = W - X if n < 0 else n
    for j in range(N):
        L = life.L_from_t(j + within, contract=C)
        m1, m2 = m1 + T.q(X, 0, j) * L, m2 + T.q(X, 0, j) * L * L
    if n > 0:
        L = life.L_from_t(n, contract=C)
        m1, m2 = m1 + T.p(X, 0, n) * L, m2 + T.p(X, 0, n) * L * L
    kw = {} if n < 0 else dict(n=n)
    c.eq(life.gross_policy_value(X, contract=C, **kw), m1, f'n={n}')
    if kind == 'p' and (n < 0 or e == 'same'):
        c.eq(life.gross_policy_variance(X, contract=C, **kw), m2 - m1 * m1, f'n={n} variance')


def percentile(c, n, shape):
    """value, time and probability of the loss of a whole life policy"""
    T = Smooth(c, n, shape)
    v = c.real('v', F(1, 20), F(99, 100), sample=(.8, .98))
    life = T.life(PolicyValues, v=v)
    p = c.prob('prob', sample=(.1, .9))
    c.assume(p > T.low())
    k = amounts(c)
    claims, init, ren = parts(k)
    c.assume(ren >= 0)
    c.assume(claims > 0)
    what = c.choose('what', ['cont', 'disc'])
    L = life.L_from_prob(0, p, contract=Contract(**k, discrete=what == 'disc'))
    S = lambda t: T.S(0, 0, t)
    if what == 'cont':
        g = ren / -math.log(v)
        t = math.log((L - init + g) / (claims + g)) / math.log(v)    # time at which the loss is L
        c.eq(S(t), p, 'survival to that time')
    else:
        K = c.choose('K', range(n))
        c.assume(S(K) >= p)
        c.assume(p > S(K + 1))
        c.eq(L, claims * v ** (K + 1) + init - ren * ac(v, K + 1), 'loss if dying in that year')


def inverse(c):
    """continuous whole life: the time and probability of a given loss"""
    mu = c.real('mu', F(1, 1000), 2, sample=(.02, .2))
    v = c.real('v', F(1, 20), F(99, 100), sample=(.8, .98))
    t = c.real('t', F(1, 10), 60, sample=(1, 40))
    life = PolicyValues().set_interest(v=v).set_survival(S=lambda x, s, t: math.exp(-mu * t), minage=0, maxage=100)
    k = amounts(c)
    claims, init, ren = parts(k)
    c.assume(ren >= 0)
    C = Contract(**k, discrete=False)
    L = claims * v ** t + init - ren * (1 - v ** t) / -math.log(v)
    which = c.choose('which', ['t', 'p'])
    if which == 't':
        u = life.L_to_t(L, contract=C)
        c.eq(v ** u, v ** t, 'time of that loss', rtol=1e-4)
    else:
        u = -math.log(life.L_to_prob(20, L, contract=C)) / mu
        c.eq(v ** u, v ** t, 'Pr(L <= l)', rtol=1e-3)


def inverse_yearly(c, X, W):
    """yearly: the first year of death in which the loss is no more than the one given, and the probability of that"""
    T = Tab(c, X, W, 'l')
    v = 1 / (1 + c.real('i', F(1, 100), 10, sample=(.02, .2)))
    life = model(c, T, v)
    claims, init, ren = c.pos('benefit', sample=(10, 90)), c.real('ip', -50, 5000, sample=(1, 9)), c.real('premium', 0, 100, sample=(1, 20), lo_open=False)
    C = Contract(benefit=claims, premium=ren, initial_policy=init)
    loss = lambda K: claims * v ** (K + 1) + init - ren * ac(v, K + 1)
    K = c.choose('K', [0, 1, 2, W - X - 1, W - X, None])
    if K is None:
        L = loss(life._MAXAGE - 1) - c.pos('less', sample=(1, 9))
        c.eq(life.L_to_t(L, contract=C), life._MAXAGE, 'never')
        c.eq(life.L_to_prob(X, L, contract=C), 0, 'has no probability')
        return
    if K == 0:
        L = loss(0) + c.real('more', F(1, 1000), 100, sample=(1, 9))
    else:
        L = loss(K) + c.real('part', F(1, 1000), F(99, 100), sample=(.1, .9)) * (loss(K - 1) - loss(K))
    c.eq(life.L_to_t(L, contract=C), K, f'K={K}')
    if K < W - X:
        c.eq(life.L_to_t(life.L_from_t(K, contract=C), contract=C), K, f'K={K}: there and back')
    c.eq(life.L_to_prob(X, L, contract=C), T.p(X, 0, K), f'Pr(L <= l) K={K}')


def default_contract(c):
    """no contract given: premium and benefit of 1, no expenses, whole life, yearly"""
    T = Tab(c, 40, 43)
    v = 1 / (1 + c.real('i', F(1, 100), 4, sample=(.02, .2)))
    life = model(c, T, v)
    K = c.choose('K', [0, 1, 2])
    L = lambda K: v ** (K + 1) - ac(v, K + 1)
    c.eq(life.L_from_t(K + F(1, 3)), L(K), 'loss')
    m1 = m2 = 0
    for j in range(3):
        m1, m2 = m1 + T.q(40, 0, j) * L(j), m2 + T.q(40, 0, j) * L(j) ** 2
    c.eq(life.gross_policy_value(40), m1, 'gross policy value')
    c.eq(life.gross_policy_variance(40), m2 - m1 * m1, 'its variance')
    A, a = c.prob('A'), c.pos('a', sample=(3, 15))
    c.eq(life.gross_future_loss(A=A, a=a), A - a, 'from factors')
    c.eq(life.gross_future_loss(A=A), A - (1 - A) / (1 - v), 'from A')
    A2 = c.prob('A2')
    c.eq(life.gross_variance_loss(A1=A, A2=A2), (1 + 1 / (1 - v)) ** 2 * (A2 - A * A), 'variance from factors')
    c.eq(life.L_to_t(life.L_from_t(K)), K, 'time of the loss')
    c.eq(life.L_to_prob(40, life.L_from_t(K)), T.p(40, 0, K), 'its probability')


def monotone(c, disc):
    """later death, smaller loss, if premiums cover renewal expenses"""
    v = c.real('v', F(1, 20), F(99, 100), sample=(.8, .98))
    life = PolicyValues().set_interest(v=v)
    k = amounts(c)
    claims, init, ren = parts(k)
    c.assume(ren >= 0)
    C = Contract(**k, discrete=disc)
    if disc:
        a, b = c.choose('K', [(0, 1), (1, 3), (7, 20)])
        lo, hi = life.L_from_t(a, C), life.L_from_t(b, C)
        c.lt(hi, lo, 'smaller loss')
    else:
        t, u = c.real('t', 0, 50, sample=(1, 20)), c.real('u', 1, 50, sample=(1, 20))
        w = v ** u
        c.assume(w < 1)
        c.assume(v ** t > 0)
        c.le(life.L_from_t(t + u, C), life.L_from_t(t, C), 'no larger loss')


def instances(tier):
    th = tier == 'thorough'
    n = 6 if th else 4
    out = [Inst('loss-yearly', lambda c: loss(c, True), max_paths=2000), Inst('loss-cont', lambda c: loss(c, False), max_paths=2000),
           Inst('loss-yearly-zero', lambda c: loss(c, True, True), max_paths=2000, bounds='no interest'), Inst('loss-cont-zero', lambda c: loss(c, False, True), max_paths=2000, bounds='no interest'),
           Inst('mean', lambda c: mean(c, 40, 45, [WHOLE, 1, 2, 4]), bounds='5 ages'), Inst('mean-select', lambda c: mean(c, 40, 44, [WHOLE, 2, 3], sel=2), bounds='2 select years'),
           Inst('mean-wide', lambda c: mean(c, 30, 42, [WHOLE, 8], kind='l'), bounds='12 ages'),
           Inst('inverse', inverse), Inst('inverse-yearly', lambda c: inverse_yearly(c, 2, 7), bounds='5 ages from 2'), Inst('default', default_contract, bounds='3 ages'), Inst('monotone-yearly', lambda c: monotone(c, True)), Inst('monotone-cont', lambda c: monotone(c, False))]
    for sh in ('line', 'table'):
        out.append(Inst(f'percentile-{sh}', lambda c, sh=sh: percentile(c, n, sh), bounds=f'{n} years', max_paths=800))
    return out
