"""Expected future lifetimes."""
from .common import *
from actuarialmath import Lifetime, Annuity, LifeTable

OUTSIDE = 'ages and limits other than those listed; survival models for which the integral has no closed form'


def curt(T, X, s, t, m):
    """E[min(K, t)^m]"""
    n = T.w - X - s
    t = n if t < 0 else min(t, n)
    return sum((k ** m * T.q(X, s, k) for k in range(t)), 0) + t ** m * T.p(X, s, t)


def comp(T, X, s, t, m):
    """E[min(T, t)^m], deaths uniform over each year of age"""
    n = T.w - X - s
    t = n if t < 0 else min(t, n)
    g = (lambda k: k + F(1, 2)) if m == 1 else (lambda k: k * k + k + F(1, 3))
    return sum((T.c.const(g(k)) * T.q(X, s, k) for k in range(t)), 0) + t ** m * T.p(X, s, t)


def moments(c, life, T, X, s, t, curtate):
    f = curt if curtate else comp
    nm = f'{"curtate" if curtate else "complete"} s={s} t={t}'
    m1, m2 = f(T, X, s, t, 1), f(T, X, s, t, 2)
    c.eq(life.e_x(X, s=s, t=t, curtate=curtate), m1, nm)
    c.eq(life.e_x(X, s=s, t=t, curtate=curtate, moment=2), m2, nm + ' second moment')
    c.eq(life.e_x(X, s=s, t=t, curtate=curtate, moment=VARIANCE), m2 - m1 * m1, nm + ' variance')


def table(c, X, W, kind, sel, ss, ts, curtate):
    T = Tab(c, X, W, kind, sel)
    cls = c.choose('class', [Lifetime, Annuity])
    life = cls().set_survival(S=T.S if curtate else T.S_udd, minage=0, maxage=W)
    s, t = c.choose('s', ss), c.choose('t', ts)
    moments(c, life, T, X, s, t, curtate)
    if t == WHOLE:
        c.eq(life.e_x(X, s=s, curtate=curtate), (curt if curtate else comp)(T, X, s, t, 1), 'whole life by default')


def recur(c, X, W, kind, curtate):
    """one-year recursion and additivity of the limited expectation"""
    T = Tab(c, X, W, kind)
    life = Lifetime().set_survival(S=T.S if curtate else T.S_udd, minage=0, maxage=W)
    s, t = c.choose('s', [0, 2]), c.choose('t', [1, 3, W - X - 2])
    e = lambda s, t: life.e_x(X, s=s, t=t, curtate=curtate)
    c.eq(e(s, WHOLE), e(s, t) + (life.p_x(X, s=s, t=t) * e(s + t, WHOLE) if X + s + t < W else 0), f'split at {t}')
    if curtate:
        c.eq(e(s, WHOLE), life.p_x(X, s=s) * (1 + e(s + 1, WHOLE)), 'one year')
    if kind == 'p':
        c.le(e(s, t), e(s, WHOLE), 'the limit reduces the expectation')
        c.le(e(s, t), t, 'never more than the limit')


def forms(c):
    """same expectations whichever form the model is given in"""
    w, maxage = 110, 100
    form = c.choose('form', ['S', 'l', 'mu', 'f'])
    S = lambda x, s, t: (w - x - s - t) / (w - x - s)
    k = c.pos('k')
    kw = dict(S=S, l=lambda x, s: k * (w - x - s), mu=lambda x, t: 1 / (w - x - t),
              f=lambda x, s, t: c.const(F(1, w - x - s)))[form]
    life = Lifetime().set_survival(**{form: kw}, maxage=maxage)
    x, s = c.choose('x', [40, 75]), c.choose('s', [0, 5])
    n, m = w - x - s, maxage - x - s
    t = c.real('t', 0, m, hi_open=False, lo_open=False)
    for t, nm in ((t, 'any limit'), (m, 'to the maximum age')):
        a = dict(t=t) if t is not m else {}
        e1 = t - t * t / (2 * n)
        e2 = t * t - 2 * t ** 3 / (3 * n)
        c.eq(life.e_x(x, s=s, curtate=False, **a), e1, f'{form}: {nm}')
        c.eq(life.e_x(x, s=s, curtate=False, moment=2, **a), e2, f'{form}: second moment, {nm}')
        c.eq(life.e_x(x, s=s, curtate=False, moment=VARIANCE, **a), e2 - e1 * e1, f'{form}: variance, {nm}')
    e1 = sum((c.const(F(n - j, n)) for j in range(1, m + 1)), 0)
    e2 = sum((c.const(F((2 * j - 1) * (n - j), n)) for j in range(1, m + 1)), 0)
    c.eq(life.e_x(x, s=s), e1, f'{form}: curtate')
    c.eq(life.e_x(x, s=s, moment=VARIANCE), e2 - e1 * e1, f'{form}: curtate variance')


def force(c):
    mu = c.real('mu', F(1, 1000), 3)
    form = c.choose('form', ['S', 'l', 'mu', 'f'])
    kw = dict(S=lambda x, s, t: math.exp(-mu * t), l=lambda x, s: math.exp(-mu * (x + s)), mu=lambda x, t: mu,
              f=lambda x, s, t: mu * math.exp(-mu * t))[form]
    life = Lifetime().set_survival(**{form: kw}, maxage=100)
    t = c.choose('t', [1, 10, 50])
    v = math.exp(-mu * t)
    c.eq(life.e_x(50, t=t, curtate=False) * mu, 1 - v, f'complete t={t}')
    c.eq(life.e_x(50, t=t, curtate=False, moment=2) * mu * mu, 2 * (1 - v - mu * t * v), f'second moment t={t}')
    if t <= 10:
        c.eq(life.e_x(50, t=t), sum((math.exp(-mu * k) for k in range(1, t + 1)), 0), f'curtate t={t}')


def lifetable(c, X, W, ss, ts, given, curtate):
    T = Tab(c, X, W, 'p')
    rng = range(X, W)
    kw = {'q': dict(q={a: 1 - T.p1(a, 0) for a in rng}), 'p': dict(p={a: c.const(0) + T.p1(a, 0) for a in rng}),
          'l': dict(l={a: 1000 * T.p(X, 0, a - X) for a in range(X, W + 1)})}[given]
    life = LifeTable(udd=c.choose('udd', [True, False]) if curtate else True).set_table(**kw, maxage=W)
    s, t = c.choose('s', ss), c.choose('t', ts)
    x = c.choose('x', [X, X + 1])
    T2 = Tab(c, x, W, 'p')
    T2._p = T._p
    moments(c, life, T2, x, s, t, curtate)


def rejects(c):
    mu = c.pos('mu')
    life = Lifetime().set_survival(mu=lambda x, t: mu, maxage=100)
    c.fails(lambda: life.e_x(30, moment=3), 'moment')
    c.fails(lambda: life.e_x(-1), 'age')
    c.fails(lambda: life.e_x(30, s=-1), 'duration')


def instances(tier):
    th = tier == 'thorough'
    out = []
    for cu in (True, False):
        n = 'curtate' if cu else 'complete'
        out += [
            Inst(f'{n}-deep', lambda c, cu=cu: table(c, 50, 57, 'p', 0, [0, 1, 3], [WHOLE, 0, 1, 2, 4, 9], cu), bounds='7 ages, rates arbitrary'),
            Inst(f'{n}-select', lambda c, cu=cu: table(c, 50, 57, 'p', 2, [0, 1, 3], [WHOLE, 1, 3, 9], cu), bounds='7 ages, 2 select years'),
            Inst(f'{n}-wide', lambda c, cu=cu: table(c, 20, 110, 'l', 0, [0, 7, 45], [WHOLE, 1, 20, 60], cu), bounds='90 ages, lives arbitrary'),
            Inst(f'{n}-newborn', lambda c, cu=cu: table(c, 0, 120, 'l', 0, [0], [WHOLE, 65, 119, 120], cu), bounds='120 ages'),
            Inst(f'{n}-recursion', lambda c, cu=cu: recur(c, 50, 58, 'p', cu)),
            Inst(f'{n}-recursion-wide', lambda c, cu=cu: recur(c, 30, 115, 'l', cu)),
        ]
        for g in 'qpl':
            out.append(Inst(f'{n}-lifetable-{g}', lambda c, cu=cu, g=g: lifetable(
                c, 60, 65 if not th else 67, [0, 1, 2], [WHOLE, 0, 1, 2, 3, 8], g, cu), bounds='life table of 5 ages'))
    return out + [Inst('forms', forms, bounds='linear survival'), Inst('force', force, bounds='constant force'), Inst('rejects', rejects)]
