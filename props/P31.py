"""Shortcuts for payments m times a year when deaths are uniform over each year."""
from .common import *
from . import P13, P30
from .P30 import Frac, draw, tt
from actuarialmath import UDD, Annuity, Premiums, LifeTable, Recursion

OUTSIDE = 'frequencies, ages, terms and deferrals other than those listed; zero interest; tables of interest functions (interest_frame)'


def insurance(c, X, W, m, ts, us, ss=(0, 1), sel=0, table=False):
    T, w, life, Fr = draw(c, X, W, m, True, sel, table)
    M = UDD(m, life)
    x, s = X, c.choose('s', ss)
    b = c.real('b', F(1, 100), 100000, sample=(1, 50)) if sel else c.nonneg('b', 100000, sample=(1, 50))
    mom = c.choose('moment', [1, 2, VARIANCE])
    kw = dict(moment=mom) if mom != 1 else {}
    t, u = c.choose('t', ts), c.choose('u', us)
    f = c.choose('product', ['whole', 'term', 'endow', 'defer'])

    def value(A):
        if mom == VARIANCE:
            return A(2) - A(1) ** 2
        return A(mom)
    if f == 'whole':
        c.eq(M.whole_life_insurance(x, s=s, b=b, **kw), value(lambda j: b ** j * Fr.ins(w, m, x, s, 0, None, mom=j)), 'whole life')
    elif f == 'term':
        c.eq(M.term_insurance(x, s=s, t=t, b=b, **kw), value(lambda j: b ** j * Fr.ins(w, m, x, s, 0, tt(t), mom=j)), 'term')
    elif f == 'endow':
        e = c.choose('endowment', [None, 0, 'e'])
        if e == 'e':
            e = c.real('e', F(1, 100), 100000, sample=(1, 50)) if sel else c.nonneg('e', 100000, sample=(1, 50))
        ke = {} if e is None else dict(endowment=e)
        e = b if e is None else e
        A = lambda j: b ** j * Fr.ins(w, m, x, s, 0, tt(t), mom=j) + (e ** j * Fr.end(w, m, x, s, t, j) if t >= 0 else 0)
        c.eq(M.endowment_insurance(x, s=s, t=t, b=b, **ke, **kw), value(A), 'endowment')
    else:
        A = lambda j: b ** j * Fr.ins(w, m, x, s, u, tt(t), mom=j)
        if mom == VARIANCE:
            c.assume(value(A) > 0)            # floored at zero
        c.eq(M.deferred_insurance(x, s=s, u=u, t=t, b=b, **kw), value(A), 'deferred')


def annuity(c, X, W, m, ts, us, ss=(0, 1), sel=0, table=False):
    T, w, life, Fr = draw(c, X, W, m, True, sel, table)
    M = UDD(m, life)
    x, s = X, c.choose('s', ss)
    b = c.nonneg('b', 100000, sample=(1, 50))
    t, u = c.choose('t', ts), c.choose('u', us)
    f = c.choose('product', ['whole', 'temporary', 'deferred', 'immediate', 'twin'])
    if f == 'whole':
        c.eq(M.whole_life_annuity(x, s=s, b=b), b * Fr.ann(w, m, x, s, 0, None), 'whole life')
    elif f == 'temporary':
        c.eq(M.temporary_annuity(x, s=s, t=t, b=b), b * Fr.ann(w, m, x, s, 0, tt(t)), 'temporary')
        c.eq(M.temporary_annuity(x, s=s, b=b), b * Fr.ann(w, m, x, s, 0, None), 'without limit')
    elif f == 'deferred':
        c.eq(M.deferred_annuity(x, s=s, t=t, u=u, b=b), b * Fr.ann(w, m, x, s, u, tt(t)), 'deferred')
        c.eq(M.deferred_annuity(x, s=s, u=u, b=b), b * Fr.ann(w, m, x, s, u, None), 'deferred whole life')
    elif f == 'immediate':
        n = W - x - s
        z = n if t < 0 else min(t, n)
        c.eq(M.immediate_annuity(x, s=s, t=t, b=b), b * sum((w ** k * Fr.S(x, s, k, m) for k in range(1, z * m + 1)), 0) / m, 'immediate')
    else:
        A, a = M.whole_life_insurance(x, s=s), M.whole_life_annuity(x, s=s)
        c.eq(M.insurance_twin(a), A, 'insurance from annuity')
        c.eq(M.annuity_twin(A), a, 'annuity from insurance')


def spread(c, X, W, m, ts, us):
    """variance of present value of annuities, from the chances of death in each m-th of a year"""
    T, w, life, Fr = draw(c, X, W, m, True)
    M = UDD(m, life)
    x, s = X, c.choose('s', (0, 1))
    b = c.nonneg('b', 100000, sample=(1, 50))
    t, u = c.choose('t', ts), c.choose('u', us)
    f = c.choose('product', ['whole', 'temporary', 'deferred'])
    u = u if f == 'deferred' else 0
    n = W - x - s
    z = n if f == 'whole' or t < 0 else min(u + t, n)
    dies = [Fr.S(x, s, k, m) - Fr.S(x, s, k + 1, m) for k in range(z * m)]
    pays = [sum((w ** j for j in range(u * m, k + 1)), 0) * F(1, m) for k in range(z * m)]
    full = pays[-1] if pays else 0
    last = T.p(x, s, z)
    m1 = sum((p * q for p, q in zip(pays, dies)), 0) + full * last
    m2 = sum((p ** 2 * q for p, q in zip(pays, dies)), 0) + full ** 2 * last
    V = m2 - m1 ** 2
    c.assume(V > 0)
    kv = dict(variance=True)
    got = (M.whole_life_annuity(x, s=s, b=b, **kv) if f == 'whole' else M.temporary_annuity(x, s=s, t=t, b=b, **kv) if f == 'temporary'
           else M.deferred_annuity(x, s=s, u=u, t=t, b=b, **kv))
    c.eq(got, b ** 2 * V, 'variance')


def factors(c, ms):
    m = c.choose('m', ms)
    if m:
        w = c.real('w', F(1, 2) if m <= 4 else F(9, 10), 1, sample=(.93, .995))
        v, im, dm = w ** m, m * (1 / w - 1), m * (1 - w)
    else:
        v = c.real('v', F(1, 20), 1, sample=(.8, .97))
        im = dm = -math.log(v)
    i, d = 1 / v - 1, 1 - v
    c.eq(UDD.alpha(m=m, i=i), i * d / (im * dm), 'alpha')
    c.eq(UDD.beta(m=m, i=i), (i - im) / (im * dm), 'beta')
    a = c.real('a', 1, 20, sample=(3, 15))
    A = c.real('A', F(1, 100), 1, sample=(.2, .8))
    b = c.nonneg('b', 100000, sample=(1, 50))
    M = UDD(m, Recursion(verbose=False).set_interest(v=v).set_a(a, x=50))
    c.eq(M.whole_life_annuity(50, b=b), b * (a * (i * d / (im * dm)) - (i - im) / (im * dm)), 'from given annuity')
    M = UDD(m, Recursion(verbose=False).set_interest(v=v).set_A(A, x=50))
    c.eq(M.whole_life_insurance(50, b=b), b * A * i / im, 'from given insurance')


def continuous(c, X, W, ts, us, sel=0):
    """frequency zero: paid at the moment of death, or continuously"""
    T = Tab(c, X, W, sel=sel)
    v = c.real('v', F(1, 20), 1, sample=(.8, .97))
    life = c.choose('class', [Annuity, Premiums])(udd=True).set_interest(v=v).set_survival(S=T.S, minage=0, maxage=W)
    M = UDD(0, life)
    x, s = X, c.choose('s', [0, 1])
    b = c.nonneg('b', 100000, sample=(1, 50))
    t, u = c.choose('t', ts), c.choose('u', us)
    mom = c.choose('moment', [1, 2])
    kw = dict(moment=mom) if mom > 1 else {}
    z = lambda t: W if t < 0 else t
    o = lambda a, z, mom=mom: P13.cont_oracle(T, v ** mom, x, s, a, z, b ** mom, 0)
    E = lambda t, mom=mom: v ** (mom * t) * T.p(x, s, t) if t >= 0 else 0
    f = c.choose('product', ['whole', 'term', 'endow', 'defer', 'annuity', 'temporary', 'deferred'])
    dl = -math.log(v)
    if f == 'whole':
        c.eq(M.whole_life_insurance(x, s=s, b=b, **kw), o(0, W), 'whole life')
    elif f == 'term':
        c.eq(M.term_insurance(x, s=s, t=t, b=b, **kw), o(0, z(t)), 'term')
    elif f == 'endow':
        c.eq(M.endowment_insurance(x, s=s, t=t, b=b, **kw), o(0, z(t)) + b ** mom * E(t), 'endowment')
    elif f == 'defer':
        c.eq(M.deferred_insurance(x, s=s, u=u, t=t, b=b, **kw), o(u, u + z(t)), 'deferred')
    elif f == 'annuity':
        c.eq(M.whole_life_annuity(x, s=s, b=b), (b - o(0, W, 1)) / dl, 'annuity')
    elif f == 'temporary':
        c.eq(M.temporary_annuity(x, s=s, t=t, b=b), (b - o(0, z(t), 1) - b * E(t, 1)) / dl, 'temporary')
        c.eq(M.immediate_annuity(x, s=s, t=t, b=b), (b - o(0, z(t), 1) - b * E(t, 1)) / dl, 'immediate')
    else:
        c.eq(M.deferred_annuity(x, s=s, u=u, t=t, b=b), (b * E(u, 1) - o(u, u + z(t), 1) - (b * E(u + t, 1) if t >= 0 else 0)) / dl, 'deferred')


def instances(tier):
    deep = tier == 'thorough'
    out = []
    for m, W, kw in [(1, 54, {}), (2, 54, dict(sel=2)), (4, 53, dict(table=True)), (12, 52, {}),
                     *([(2, 56, {}), (4, 54, {}), (12, 53, dict(sel=2)), (52, 52, {})] if deep else [])]:
        n = W - 50
        nm = f'{m}-{n}' + ''.join(f'-{k}' for k in kw)
        ts, us = ([0, 1, 2, n + 1, -1], [0, 1, 2]) if n > 2 else ([0, 1, n + 1, -1], [0, 1])
        b = f'{n} ages, {m} payments a year'
        out += [Inst(f'ins-{nm}', lambda c, a=(50, W, m, ts, us), kw=kw: insurance(c, *a, **kw), bounds=b, max_paths=3000, budget=200 if deep else 100),
                Inst(f'ann-{nm}', lambda c, a=(50, W, m, ts, us), kw=kw: annuity(c, *a, **kw), bounds=b, max_paths=3000, budget=200 if deep else 100)]
    for m, W in [(1, 53), (2, 53), (4, 52), *([(2, 54), (12, 52)] if deep else [])]:
        out.append(Inst(f'spread-{m}-{W - 50}', lambda c, a=(50, W, m, [0, 1, 3, -1], [0, 1]): spread(c, *a), bounds=f'{W - 50} ages', max_paths=3000,
                        budget=200 if deep else 100))
    out.append(Inst('factors', lambda c: factors(c, [0, 1, 2, 4, 12] + ([3, 6, 26, 52] if deep else [])), bounds='frequencies 0, 1, 2, 4, 12'))
    out.append(Inst('continuous-3', lambda c: continuous(c, 50, 53, [0, 1, 2, 4, -1], [0, 1, 2]), bounds='3 ages', max_paths=3000))
    out.append(Inst('continuous-3-sel', lambda c: continuous(c, 50, 53, [0, 1, 2], [0, 1], sel=2), bounds='3 ages', max_paths=3000))
    return out
