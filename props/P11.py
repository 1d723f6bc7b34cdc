"""Values read from a life table are ratios of its numbers of lives."""
from .common import *
from actuarialmath import LifeTable

OUTSIDE = 'tables longer than those listed'


def build(c, X, W, given, udd=True, kind='l'):
    """complete table over ages X..W-1; nobody is left at W"""
    if kind in ('l', 'last'):
        l = {a: c.real(f'l{a}', 1, None, sample=(50, 100)) if (a - X) % given == 0 else c.const(1000 - 7 * (a - X))
             for a in range(X, W)}
        l[W] = c.real('last', 1, None, sample=(5, 50)) if kind == 'last' else 0
        life = LifeTable(udd=udd).set_table(l=l, minage=X, maxage=W, fill=c.choose('fill', [True, False]))
    else:
        q = {a: c.prob(f'q{a}', sample=(.05, .4)) for a in range(X, W - 1)}
        q[W - 1] = 1
        life = LifeTable(udd=udd).set_table(q=q, minage=X, maxage=W, radix=100)
        l, y = {}, c.const(100)
        for a in range(X, W):
            l[a] = y
            y = y * (1 - q[a])
        l[W] = 0
    return life, (lambda a: l.get(a, 0))


def queries(c, X, W, step, kind, ss, ts, us):
    life, l = build(c, X, W, step, kind=kind)
    x, s = c.choose('x', [X, X + 1]), c.choose('s', ss)
    t, u = c.choose('t', ts), c.choose('u', us)
    a = x + s
    L = l(a)
    c.eq(life.l_x(x, s=s), L, 'l')
    c.eq(life.p_x(x, s=s, t=t), l(a + t) / L, f'p t={t}')
    c.eq(life.d_x(x, s=s, t=t), L - l(a + t), f'd t={t}')
    c.eq(life.q_x(x, s=s, t=t), (L - l(a + t)) / L, f'q t={t}')
    c.eq(life.q_x(x, s=s, t=t, u=u), (l(a + u) - l(a + u + t)) / L, f'q t={t} u={u}')
    c.eq(life.p_x(x, s=s, t=t) + life.q_x(x, s=s, t=t), 1, 'p + q = 1')
    c.eq(life.p_x(x, s=s, t=0), 1, 'certain to be alive now')
    c.eq(life.d_x(x, s=s), L - l(a + 1), 'd, one year by default')
    c.eq(life.l_x(W + 3), 0, 'nobody beyond the table')


def endow(c, X, W, kind):
    life, l = build(c, X, W, 1, kind=kind)
    v = c.prob('v', sample=(.8, .99))
    life.set_interest(v=v)
    x, s, t = c.choose('x', [X, X + 1]), c.choose('s', [0, 1, 2]), c.choose('t', [0, 1, 2, 3, W - X + 4])
    p = l(x + s + t) / l(x + s)
    c.eq(life.E_x(x, s=s, t=t), v ** t * p, f'pure endowment t={t}')
    c.eq(life.E_x(x, s=s, t=t, moment=2), v ** (2 * t) * p, f'second moment t={t}') if t else None
    if t:
        c.eq(life.E_x(x, s=s, t=t, moment=VARIANCE), v ** (2 * t) * p * (1 - p), f'variance t={t}')
    c.eq(life.E_x(x, s=s, t=WHOLE), 0, 'nobody survives for ever')


def values(c, X, W, kind):
    """insurances and annuities valued on the table"""
    life, l = build(c, X, W, 1, kind=kind)
    v = c.prob('v', sample=(.8, .99))
    life.set_interest(v=v)
    x, s, t = c.choose('x', [X, X + 1]), c.choose('s', [0, 1]), c.choose('t', [WHOLE, 1, 3, W - X + 4])
    n = W - x - s if t < 0 else min(t, W - x - s)
    L = l(x + s)
    A = sum((v ** (k + 1) * (l(x + s + k) - l(x + s + k + 1)) for k in range(n)), 0) / L
    a = sum((v ** k * l(x + s + k) for k in range(n)), 0) / L
    if t < 0:
        c.eq(life.whole_life_insurance(x, s=s), A, 'whole life insurance')
        c.eq(life.whole_life_annuity(x, s=s), a, 'whole life annuity')
    else:
        c.eq(life.term_insurance(x, s=s, t=t), A, f'term insurance t={t}')
        c.eq(life.temporary_annuity(x, s=s, t=t), a, f'temporary annuity t={t}')
        c.eq(life.endowment_insurance(x, s=s, t=t), A + v ** t * l(x + s + t) / L, f'endowment insurance t={t}')


def force(c, X, W):
    udd = c.choose('udd', [True, False])
    life, l = build(c, X, W, 1, kind='q', udd=udd)
    x, s, t = c.choose('x', [X, X + 1]), c.choose('s', [0, 1, 2]), c.choose('t', [None, 0, 1, 2])
    kw = {} if t is None else dict(t=t)
    t = t or 0
    r = l(x + s + t + 1) / l(x + s + t)
    c.assume(r > F(1, 1000))
    c.eq(life.mu_x(x, s=s, **kw), -math.log(r), 'average force over the year')
    c.eq(life.f_x(x, s=s, **kw), (1 - r if udd else -math.log(r)) * l(x + s + t) / l(x + s), 'density under the assumption between ages')


def between(c, X, W):
    """the survival functions of the table: interpolated between ages by the assumption chosen"""
    udd = c.choose('udd', [True, False])
    life, l = build(c, X, W, 1, kind='q', udd=udd)
    x, s, k = c.choose('x', [X, X + 1]), c.choose('s', [0, 1, 2]), c.choose('k', [0, 1, 2])
    r = c.real('r', 0, 1, sample=(.1, .9))
    a = x + s + k
    p = l(a + 1) / l(a)
    c.assume(p > F(1, 1000))
    g = 1 - r * (1 - p) if udd else p ** r
    c.eq(life.S(x, s, k + r), l(a) * g / l(x + s), 'survival')
    c.eq(life.S(x, s, k), l(a) / l(x + s), 'survival to a birthday')
    c.eq(life.l(x, s + k + r), l(a) * g if udd else l(a) ** (1 - r) * l(a + 1) ** r, 'lives')
    c.eq(life.f(x, s, k + r), l(a) / l(x + s) * (1 - p if udd else -math.log(p) * p ** r), 'density')
    c.eq(life.mu(x, s + k + r), (1 - p) / (1 - r * (1 - p)) if udd else -math.log(p), 'force')


def columns(c, X, W):
    life, l = build(c, X, W, 1, kind='q')
    for n in ('l', 'q', 'd', 'p'):
        col = life[n]
        c.same(sorted(k for k in col if k < W), list(range(X, W)), f'column {n}')
        for a in range(X, W):
            t = {'l': l(a), 'd': l(a) - l(a + 1), 'p': l(a + 1) / l(a), 'q': 1 - l(a + 1) / l(a)}[n]
            c.eq(col[a], t, f'column {n} at {a}', atol=2e-7 if n in 'qp' else 1e-4)
    c.fails(lambda: life['z'], 'unknown column')


def instances(tier):
    X, W = 70, 76
    ts, us = [1, 2, 5, 6, 9], [0, 1, 3, 5, 6, 8]
    return [Inst('lives', lambda c: queries(c, X, W, 1, 'l', [0, 1, 3, 4], ts, us), max_paths=1200, bounds='6 ages, any lives'),
            Inst('rates', lambda c: queries(c, X, W, 1, 'q', [0, 1, 3], ts, us), max_paths=1200, bounds='6 ages, any rates'),
            Inst('last', lambda c: queries(c, X, W, 2, 'last', [0, 1, 4], ts, us), max_paths=1200, bounds='6 ages, lives at the last age'),
            Inst('wide', lambda c: queries(c, 20, 110, 5, 'l', [0, 15, 60], [1, 20, 70, 95], [0, 10, 45, 80]), max_paths=1200,
                 bounds='90 ages'),
            Inst('newborn', lambda c: queries(c, 0, 20, 1, 'l', [0, 4], [1, 10, 25], [0, 7]), bounds='from birth'),
            Inst('endowment', lambda c: endow(c, X, W, 'q')), Inst('endowment-l', lambda c: endow(c, X, W, 'l')),
            Inst('values', lambda c: values(c, X, W, 'q')), Inst('values-l', lambda c: values(c, X, W, 'l')),
            Inst('force', lambda c: force(c, X, W)), Inst('between', lambda c: between(c, X, W)), Inst('columns', lambda c: columns(c, X, W))]
