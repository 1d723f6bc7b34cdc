"""Woolhouse's approximation of payments m times a year."""
from .common import *
from .P30 import tt
from actuarialmath import Woolhouse, Annuity, Premiums, LifeTable, Recursion

OUTSIDE = 'frequencies, ages, terms and deferrals other than those listed; zero interest; a force of mortality given as zero; the force approximated at the first or last age'


def model(c, X, W, m, sel=0, table=False, mu=None):
    T = Tab(c, X, W, 'p', sel, lo=F(1, 100))
    w = c.real('w', F(1, 2) if m <= 4 else F(9, 10), 1, sample=(.93, .995))        # discount over an m-th of a year
    v = w ** m if m else w ** 4
    if table:
        life = LifeTable(udd=True).set_interest(v=v).set_table(q={a: 1 - T.p1(a, 0) for a in range(X, W)}, minage=X, maxage=W, radix=1000)
    else:
        life = c.choose('class', [Annuity, Premiums])(udd=True).set_interest(v=v).set_survival(S=T.S, **({'mu': lambda x, t: mu(T, x, t)} if mu else {}), minage=0, maxage=W)
    dm, dl = (m * (1 - w), -m * math.log(w)) if m else (-4 * math.log(w), -4 * math.log(w))
    return T, v, life, dm, dl


def force(c, T, x, s):
    """arbitrary force of mortality at each age"""
    mem = T.__dict__.setdefault('forces', {})
    k = (x, s) if T.sel > s else x + s
    if k not in mem:
        mem[k] = c.real(f'mu[{k}]', F(1, 1000), 5, sample=(.01, .5))
    return mem[k]


def forces(c, X, W, T, life, m, v, three, how):
    """the approximation with the force of mortality mu(x, s)"""
    def mu(x, s):
        if how == 'table':
            return -math.log(T.p(x, s, 1))
        if how == 'approximate':
            prior = T.p(x, s - 1, 1) if s else T.p(x - 1, 0, 1)
            return -(math.log(T.p(x, s, 1)) + math.log(prior)) / 2
        return force(c, T, x, s)
    M = {'function': lambda: Woolhouse(m, life, three_term=three, approximate_mu=mu), 'table': lambda: Woolhouse(m, life, three_term=three, approximate_mu=False), 'exact': lambda: Woolhouse(m, life, three_term=three, approximate_mu=False),
         'approximate': lambda: Woolhouse(m, life, three_term=three), 'given': lambda: Woolhouse(m, life, three_term=three)}[how]()
    r = F(1, m) if m else 0

    def a(x, s, force=None):
        n = W - x - s
        out = sum((v ** k * T.p(x, s, k) for k in range(n)), 0) - (1 - r) / F(2)
        return out - ((mu(x, s) if force is None else force) - math.log(v)) * (1 - r ** 2) * F(1, 12) if three else out
    return M, a, mu


def products(c, X, W, m, three, how, ts, us, ss=(0, 1), sel=0, table=False, lead=0):
    T, v, life, dm, dl = model(c, X - lead, W, m, sel, table, (lambda T, x, s: force(c, T, x, s)) if how == 'exact' else None)
    x, s = X, c.choose('s', ss)
    M, a, mu = forces(c, X, W, T, life, m, v, three, how)
    b = c.nonneg('b', 100000, sample=(1, 50))
    t, u = c.choose('t', ts), c.choose('u', us)
    dead = lambda k: k < 0 or x + s + k >= W
    E = lambda k, j=0: 0 if dead(j + k) or k < 0 else v ** k * T.p(x, s + j, k)
    ann = lambda s, t: a(x, s) - (0 if t < 0 or x + s + t >= W else v ** t * T.p(x, s, t) * a(x, s + t))
    ins = lambda s, t: 1 - dm * a(x, s) - (0 if t < 0 or x + s + t >= W else v ** t * T.p(x, s, t) * (1 - dm * a(x, s + t)))
    f = c.choose('product', ['annuity', 'temporary', 'deferred', 'immediate', 'insurance', 'term', 'endow', 'defer'])
    g = how == 'given'
    if how == 'function' and three and f in ('annuity', 'temporary', 'insurance', 'term') and c.choose('force', ['approximated', 'given at first']) != 'approximated':
        # the force given at the first age only, and approximated at the other
        h = c.real('mu given', F(1, 1000), 5, sample=(.01, .5))
        a1 = a(x, s, h)
        end = lambda g: 0 if t < 0 or x + s + t >= W else v ** t * T.p(x, s, t) * g(a(x, s + t))
        if f == 'annuity':
            c.eq(M.whole_life_annuity(x, s=s, b=b, mu=h), b * a1, 'annuity')
        elif f == 'temporary':
            c.eq(M.temporary_annuity(x, s=s, t=t, b=b, mu=h), b * (a1 - end(lambda a: a)), 'temporary annuity')
        elif f == 'insurance':
            c.eq(M.whole_life_insurance(x, s=s, b=b, mu=h), b * (1 - dm * a1), 'insurance')
        else:
            c.eq(M.term_insurance(x, s=s, t=t, b=b, mu=h), b * (1 - dm * a1 - end(lambda a: 1 - dm * a)), 'term insurance')
        return
    kx, kt = (dict(mu=mu(x, s)), dict(mu1=mu(x, s + t) if t >= 0 else None)) if g else ({}, {})
    ku, kut = (dict(mu=mu(x, s + u)), dict(mu1=mu(x, s + u + t) if t >= 0 else None)) if g else ({}, {})
    if f == 'annuity':
        c.eq(M.whole_life_annuity(x, s=s, b=b, **kx), b * a(x, s), 'annuity')
    elif f == 'temporary':
        c.eq(M.temporary_annuity(x, s=s, t=t, b=b, **kx, **kt), b * ann(s, t), 'temporary annuity')
        c.eq(M.temporary_annuity(x, s=s, b=b, **kx), b * a(x, s), 'annuity without limit')
    elif f == 'deferred':
        c.eq(M.deferred_annuity(x, s=s, u=u, t=t, b=b, **ku, **kut), b * E(u) * ann(s + u, t), 'deferred annuity')
        c.eq(M.deferred_annuity(x, s=s, u=u, b=b, **ku), b * E(u) * a(x, s + u), 'deferred whole life annuity')
    elif f == 'immediate':
        c.assume(not g)
        c.eq(M.immediate_annuity(x, s=s, t=t, b=b), b * (ann(s, t) - ((1 - E(t)) * F(1, m) if m else 0)), 'immediate annuity')
    elif f == 'insurance':
        c.eq(M.whole_life_insurance(x, s=s, b=b, **kx), b * (1 - dm * a(x, s)), 'insurance')
    elif f == 'term':
        c.eq(M.term_insurance(x, s=s, t=t, b=b, **kx, **kt), b * ins(s, t), 'term insurance')
    elif f == 'endow':
        c.assume(not g)
        e = c.nonneg('e', 100000, sample=(1, 50))
        c.eq(M.endowment_insurance(x, s=s, t=t, b=b), b * ins(s, t) + b * E(t), 'endowment insurance')
        c.eq(M.endowment_insurance(x, s=s, t=t, b=b, endowment=e), b * ins(s, t) + e * E(t), 'endowment of another amount')
        c.eq(M.endowment_insurance(x, s=s, t=t, b=b, endowment=0), b * ins(s, t), 'endowment of nothing')
    else:
        c.eq(M.deferred_insurance(x, s=s, u=u, t=t, b=b, **ku, **kut), b * E(u) * ins(s + u, t), 'deferred insurance')
        c.eq(M.deferred_insurance(x, s=s, u=u, b=b, **ku), b * E(u) * (1 - dm * a(x, s + u)), 'deferred whole life insurance')


def twice(c, m, n):
    """a force that depends on the age of selection: asked for in any order"""
    T, v, life, dm, dl = model(c, 50, 54, m, 2)
    M, a, mu = forces(c, 50, 54, T, life, m, v, True, 'function')
    for k in range(n):
        x, s = c.choose(f'at{k}', [(50, 0), (50, 1), (51, 0), (51, 1), (52, 0)])
        c.eq(M.whole_life_annuity(x, s=s), v ** 0 * a2(T, v, m, 54, x, s, mu), f'annuity at {x}+{s}')


def a2(T, v, m, W, x, s, mu):
    r = F(1, m) if m else 0
    return sum((v ** k * T.p(x, s, k) for k in range(W - x - s)), 0) - (1 - r) / F(2) - (mu(x, s) - math.log(v)) * (1 - r ** 2) * F(1, 12)


def known(c, ms):
    """from annuities, insurances and survival that are given rather than calculated"""
    m = c.choose('m', ms)
    w = c.real('w', F(1, 2), 1, sample=(.93, .995))
    v = w ** m if m else w
    r = F(1, m) if m else 0
    b = c.nonneg('b', 100000, sample=(1, 50))
    a0, a1 = c.real('a0', 5, 20), c.real('a1', 2, 15)
    p = c.real('p', F(1, 100), 1, sample=(.3, .9))
    mu = c.real('mu', F(1, 1000), 5, sample=(.01, .5))
    t = c.choose('t', [2, 5])
    life = Recursion(verbose=False).set_interest(v=v).set_a(a0, x=40).set_a(a1, x=40 + t).set_p(p, x=40, t=t)
    k = (1 - r) / F(2)
    M = Woolhouse(m, life)
    c.eq(M.whole_life_annuity(40, b=b), b * (a0 - k), 'annuity')
    c.eq(M.temporary_annuity(40, t=t, b=b), b * (a0 - k - v ** t * p * (a1 - k)), 'temporary annuity')
    M = Woolhouse(m, life, three_term=True)
    c.eq(M.whole_life_annuity(40, b=b, mu=mu), b * (a0 - k - (mu - math.log(v)) * (1 - r ** 2) * F(1, 12)), 'three terms')


def instances(tier):
    deep = tier == 'thorough'
    out = [Inst('twice', lambda c: twice(c, 4, 2), bounds='two annuities')]
    for m, W, three, how, kw in [(1, 54, True, 'function', {}), (2, 54, True, 'function', dict(sel=2)), (2, 54, False, 'function', {}), (4, 53, True, 'given', {}),
                                 (12, 54, True, 'table', dict(table=True)), (0, 53, True, 'function', {}),
                                 (4, 54, True, 'exact', dict(sel=2)), (2, 55, True, 'approximate', dict(table=True)), (4, 55, True, 'approximate', dict(sel=2)), (2, 53, False, 'given', {}), (4, 55, True, 'approximate', dict(table=True, lead=1)),
                                 (4, 55, True, 'approximate', dict(sel=1, lead=1)),
                                 *([(2, 56, True, 'function', {}), (12, 53, True, 'given', dict(sel=2)), (4, 54, True, 'table', dict(table=True)),
                                    (52, 52, True, 'function', {})] if deep else [])]:
        n = W - 50
        nm = f'{m}-{how}-{n}' + ('-three' if three else '') + ''.join(f'-{k}' for k in kw)
        ts, us, ss = ([0, 1, 2, n + 1, -1], [0, 1, 2], (0, 1)) if n > 2 else ([1, -1], [0, 1], (0,))
        if how == 'table' or how == 'given':
            ts, us = [1, -1], [0, 1]
            ss = (0,)
        if how == 'approximate':
            ts, us, ss = [1, -1], [0, 1], (0, 1) if 'lead' in kw else (1,)
        out.append(Inst(nm, lambda c, a=(50, W, m, three, how, ts, us, ss), kw=kw: products(c, *a, **kw), bounds=f'{n} ages, {m} payments a year', max_paths=3000,
                        budget=200 if deep else 40))
    out.append(Inst('known', lambda c: known(c, [0, 1, 2, 4, 12])))
    return out
