"""Insurances and annuities paid m times a year."""
from .common import *
from . import P13
from actuarialmath import Mthly, Annuity, LifeTable, Premiums

OUTSIDE = 'frequencies, ages, terms and deferrals other than those listed; zero interest; mortality within the year other than uniform deaths and constant force'


class Frac:
    """survival at fractions of a year from yearly survival"""

    def __init__(self, T, udd):
        self.T, self.udd = T, udd

    def S(self, x, s, k, m):
        """survival to k m-ths of a year"""
        y, r = divmod(k, m)
        a = self.T.p(x, s, y)
        if not r:
            return a
        if self.udd:
            return a - (a - self.T.p(x, s, y + 1)) * F(r, m)
        if x + s + y + 1 >= self.T.w and not self.T.alive:
            return self.T.c.const(0)
        return a * (self.T.p(x, s + y, 1)) ** F(r, m)

    def ins(self, w, m, x, s, u, t, b=lambda k: 1, mom=1):
        """payments b(k) at the end of the m-th of a year of death, w: discount over an m-th of a year"""
        n = self.T.w - x - s
        z = n if t is None else min(u + t, n)
        return sum(((b(k) * w ** (k + 1)) ** mom * (self.S(x, s, k, m) - self.S(x, s, k + 1, m)) for k in range(u * m, z * m)), 0)

    def ann(self, w, m, x, s, u, t):
        n = self.T.w - x - s
        z = n if t is None else min(u + t, n)
        return sum((w ** k * self.S(x, s, k, m) for k in range(u * m, z * m)), 0) / m

    def end(self, w, m, x, s, t, mom=1):
        return w ** (t * m * mom) * self.T.p(x, s, t)


def draw(c, X, W, m, udd, sel=0, table=False):
    T = Tab(c, X, W, 'p', sel, lo=F(1, 100) if table else 0)
    w = c.real('w', F(1, 2) if m <= 4 else F(9, 10), 1, sample=(.93, .995))        # discount over an m-th of a year
    if table:
        q = {a: 1 - T.p1(a, 0) for a in range(X, W)}
        life = LifeTable(udd=udd).set_interest(v=w ** m).set_table(q=q, minage=X, maxage=W, radix=1000)
    else:
        life = c.choose('class', [Annuity, Premiums])(udd=udd).set_interest(v=w ** m).set_survival(S=T.S, minage=0, maxage=W)
    return T, w, life, Frac(T, udd)


def tt(t):
    return None if t < 0 else t


def insurance(c, X, W, m, udd, ts, us, ss=(0, 1), sel=0, table=False, grow=True):
    T, w, life, Fr = draw(c, X, W, m, udd, sel, table)
    M = Mthly(m=m, life=life)
    x, s = X, c.choose('s', ss)
    b = c.real('b', 1, 100, sample=(1, 50))
    mom = c.choose('moment', [1, 2])
    kw = dict(moment=mom) if mom > 1 else {}
    t, u = c.choose('t', ts), c.choose('u', us)
    B = lambda k: b
    f = c.choose('product', ['whole', 'term', 'endow', 'defer', 'A_x', 'E_x'])
    if f == 'whole':
        c.eq(M.whole_life_insurance(x, s=s, b=b, **kw), Fr.ins(w, m, x, s, 0, None, B, mom), 'whole life')
    elif f == 'term':
        c.eq(M.term_insurance(x, s=s, t=t, b=b, **kw), Fr.ins(w, m, x, s, 0, tt(t), B, mom), 'term')
    elif f == 'endow':
        e = c.nonneg('e', 100000, sample=(1, 50))
        E = Fr.end(w, m, x, s, t, mom) if t >= 0 else 0
        c.eq(M.endowment_insurance(x, s=s, t=t, b=b, **kw), Fr.ins(w, m, x, s, 0, tt(t), B, mom) + E * b ** mom, 'endowment')
        c.eq(M.endowment_insurance(x, s=s, t=t, b=b, endowment=e, **kw), Fr.ins(w, m, x, s, 0, tt(t), B, mom) + E * e ** mom, 'endowment of another amount')
        c.eq(M.endowment_insurance(x, s=s, t=t, b=b, endowment=0, **kw), Fr.ins(w, m, x, s, 0, tt(t), B, mom), 'endowment of nothing')
    elif f == 'defer':
        c.eq(M.deferred_insurance(x, s=s, u=u, t=t, b=b, **kw), Fr.ins(w, m, x, s, u, tt(t), B, mom), 'deferred')
        c.eq(M.deferred_insurance(x, s=s, u=u, b=b, **kw), Fr.ins(w, m, x, s, u, None, B, mom), 'deferred whole life')
    elif f == 'A_x':
        g = c.real('g', 0, 3, sample=(.1, 2), lo_open=False) if grow else 0
        c.eq(M.A_x(x, s=s, t=t, u=u, benefit=lambda x, t: b + g * t, **kw),
             Fr.ins(w, m, x, s, u, tt(t), lambda k: b + g * F(k, m), mom), 'growing benefits')
        c.eq(M.A_x(x, s=s, t=t, **kw), Fr.ins(w, m, x, s, 0, tt(t), mom=mom), 'benefits of one')
    elif t >= 0:
        c.eq(M.E_x(x, s=s, t=t, endowment=b, **kw), Fr.end(w, m, x, s, t, mom) * b ** mom, 'pure endowment')


def variance(c, X, W, m, udd, ts, us, sel=0):
    """variances, as those of the payments by m-th of a year of death"""
    T, w, life, Fr = draw(c, X, W, m, udd, sel)
    M = Mthly(m=m, life=life)
    x, s = X, c.choose('s', (0, 1))
    b = c.nonneg('b', 100000, sample=(1, 50))
    t, u = c.choose('t', ts), c.choose('u', us)
    f = c.choose('product', ['whole', 'term', 'endow', 'amounts', 'defer', 'annuity', 'temporary'])
    if f == 'amounts':
        c.assume(t >= 0)
        e = c.nonneg('e', 100000, sample=(1, 50))
        A = lambda mom: Fr.ins(w, m, x, s, 0, tt(t), mom=mom) * b ** mom + Fr.end(w, m, x, s, t, mom) * e ** mom
        V = A(2) - A(1) ** 2
        c.assume(V > 0)
        return c.eq(M.endowment_insurance(x, s=s, t=t, b=b, endowment=e, moment=VARIANCE), V, 'endowment of another amount')
    A = lambda mom: dict(whole=lambda: Fr.ins(w, m, x, s, 0, None, mom=mom), annuity=lambda: Fr.ins(w, m, x, s, 0, None, mom=mom),
                         term=lambda: Fr.ins(w, m, x, s, 0, tt(t), mom=mom), defer=lambda: Fr.ins(w, m, x, s, u, tt(t), mom=mom),
                         endow=lambda: Fr.ins(w, m, x, s, 0, tt(t), mom=mom) + (Fr.end(w, m, x, s, t, mom) if t >= 0 else 0),
                         temporary=lambda: Fr.ins(w, m, x, s, 0, tt(t), mom=mom) + (Fr.end(w, m, x, s, t, mom) if t >= 0 else 0))[f]()
    V = A(2) - A(1) ** 2
    c.assume(V > 0)              # a variance: the code floors it at zero
    k = dict(moment=VARIANCE)
    if f == 'whole':
        c.eq(M.whole_life_insurance(x, s=s, b=b, **k), b ** 2 * V, 'whole life')
    elif f == 'term':
        c.eq(M.term_insurance(x, s=s, t=t, b=b, **k), b ** 2 * V, 'term')
    elif f == 'endow':
        c.eq(M.endowment_insurance(x, s=s, t=t, b=b, **k), b ** 2 * V, 'endowment')
    elif f == 'defer':
        c.eq(M.deferred_insurance(x, s=s, t=t, u=u, b=b, **k), b ** 2 * V, 'deferred')
    else:
        d = m * (1 - w)
        if f == 'annuity':
            c.eq(M.whole_life_annuity(x, s=s, b=b, variance=True), b ** 2 * V / d ** 2, 'annuity')
        else:
            c.eq(M.temporary_annuity(x, s=s, t=t, b=b, variance=True), b ** 2 * V / d ** 2, 'temporary annuity')


def annuity(c, X, W, m, udd, ts, us, ss=(0, 1), sel=0, table=False):
    T, w, life, Fr = draw(c, X, W, m, udd, sel, table)
    M = Mthly(m=m, life=life)
    x, s = X, c.choose('s', ss)
    b = c.nonneg('b', 100000, sample=(1, 50))
    t, u = c.choose('t', ts), c.choose('u', us)
    f = c.choose('product', ['whole', 'temporary', 'deferred', 'immediate', 'twin'])
    if f == 'whole':
        c.eq(M.whole_life_annuity(x, s=s, b=b), b * Fr.ann(w, m, x, s, 0, None), 'whole life')
    elif f == 'temporary':
        c.eq(M.temporary_annuity(x, s=s, t=t, b=b), b * Fr.ann(w, m, x, s, 0, tt(t)), 'temporary')
        c.eq(M.temporary_annuity(x, s=s, b=b), b * Fr.ann(w, m, x, s, 0, None), 'without limit')
    elif f == 'deferred':
        c.eq(M.deferred_annuity(x, s=s, t=t, u=u, b=b), b * Fr.ann(w, m, x, s, u, tt(t)), 'deferred')
        c.eq(M.deferred_annuity(x, s=s, u=u, b=b), b * Fr.ann(w, m, x, s, u, None), 'deferred whole life')
    elif f == 'immediate':
        n = W - x - s
        z = n if t < 0 else min(t, n)
        c.eq(M.immediate_annuity(x, s=s, t=t, b=b), b * sum((w ** k * Fr.S(x, s, k, m) for k in range(1, z * m + 1)), 0) / m, 'immediate')
    else:
        A, a = M.whole_life_insurance(x, s=s), M.whole_life_annuity(x, s=s)
        c.eq(M.insurance_twin(a), A, 'insurance from annuity')
        c.eq(M.annuity_twin(A), a, 'annuity from insurance')
        V2 = M.whole_life_insurance(x, s=s, moment=2)
        c.assume(V2 - A ** 2 > 0)
        c.eq(M.annuity_variance(A2=V2, A1=A, b=b), b ** 2 * (V2 - A ** 2) / (m * (1 - w)) ** 2, 'variance of annuity')


def parts(c, X, W, m, udd, sel=0):
    """probabilities, discounts and values of single periods"""
    T, w, life, Fr = draw(c, X, W, m, udd, sel)
    M = Mthly(m=m, life=life)
    x, s = X, c.choose('s_m', [0, 1, m - 1, m, m + 1] if m > 2 else [0, 1, m, m + 1])
    t, u = c.choose('t_m', [0, 1, m, 2 * m + 1]), c.choose('u_m', [0, 1, m + 1])

    def S(k):
        y, r = divmod(s, m)                       # survival from the m-th of a year reached
        return Fr.S(x, y, r + k, m) / Fr.S(x, y, r, m)
    if c.choose('what', ['probabilities', 'payments']) == 'probabilities':
        c.eq(M.p_m(x, s_m=s, t_m=t), S(t), 'survival')
        c.eq(M.q_m(x, s_m=s, t_m=t), 1 - S(t), 'death')
        c.eq(M.q_m(x, s_m=s, t_m=t, u_m=u), S(u) - S(u + t), 'deferred death')
        c.eq(M.v_m(t), w ** t, 'discount')
    else:
        c.assume(t == 0 and u == 0 and s in (0, m))
        y = s // m
        b = c.nonneg('b', 100000, sample=(1, 50))
        g = c.real('g', 0, 3, sample=(.1, 2), lo_open=False)
        mom = c.choose('moment', [1, 2])
        n = c.choose('n', [1, 2])
        Z = M.Z_m(x, s=y, t=n, benefit=lambda x, t: b + g * t, moment=mom)
        c.same(list(Z.index), list(range(1, n * m + 1)), 'periods')
        z, q = list(Z['Z']), list(Z['q'])
        for k in range(n * m):
            c.eq(z[k], ((b + g * F(k, m)) * w ** (k + 1)) ** mom, f'present value of period {k}')
            c.eq(q[k], Fr.S(x, y, k, m) - Fr.S(x, y, k + 1, m), f'probability of period {k}')


def continuous(c, X, W, ts, us):
    """frequency zero: paid at the moment of death, or continuously"""
    T = Tab(c, X, W)
    v = c.real('v', F(1, 20), 1, sample=(.8, .97))
    life = Annuity().set_interest(v=v).set_survival(S=T.S_udd, f=T.f_udd, minage=0, maxage=W)
    M = Mthly(m=0, life=life)
    x, s = X, 0
    b = c.nonneg('b', 100000, sample=(1, 50))
    t, u = c.choose('t', ts), c.choose('u', us)
    o = lambda a, z: P13.cont_oracle(T, v, x, s, a, z, b, 0)
    f = c.choose('product', ['whole', 'term', 'defer', 'growing', 'annuity', 'temporary'])
    dl = -math.log(v)
    if f == 'whole':
        c.eq(M.whole_life_insurance(x, b=b), o(0, W), 'whole life')
    elif f == 'term':
        c.eq(M.term_insurance(x, t=t, b=b), o(0, t), 'term')
    elif f == 'defer':
        c.eq(M.deferred_insurance(x, u=u, t=t, b=b), o(u, u + t), 'deferred')
        c.eq(M.A_x(x, t=t, u=u, benefit=lambda x, t: b), o(u, u + t), 'benefits')
    elif f == 'growing':
        g, s = c.real('g', 0, 3, sample=(.1, 2), lo_open=False), c.choose('s', [0, 1])
        P = lambda a, z, b, g: P13.cont_oracle(T, v, x, s, a, z, b, g)
        B = dict(benefit=lambda y, k: b * (y - x + 1) + g * k)
        c.eq(M.A_x(x, s=s, t=t, u=u, **B), P(u, u + t, b * (s + 1), g), 'growing benefits')
        c.eq(M.A_x(x, s=s, t=t, **B), P(0, t, b * (s + 1), g), 'growing benefits from the start')
        c.eq(M.A_x(x, s=s, t=t, u=u, benefit=lambda y, k: b, moment=2), P13.cont_oracle(T, v * v, x, s, u, u + t, b * b, 0), 'second moment')
    elif f == 'annuity':
        c.eq(M.whole_life_annuity(x, b=b), (b - o(0, W)) / dl, 'annuity')
    else:
        c.eq(M.temporary_annuity(x, t=t, b=b), (b - o(0, t) - b * v ** t * T.p(x, s, t)) / dl, 'temporary')
        c.eq(M.immediate_annuity(x, t=t, b=b), (b - o(0, t) - b * v ** t * T.p(x, s, t)) / dl, 'immediate')


def instances(tier):
    deep = tier == 'thorough'
    out = []
    for m, udd, W, kw in [(1, True, 54, {}), (2, True, 54, dict(sel=2)), (2, False, 53, {}), (4, True, 53, dict(table=True)), (12, True, 52, dict(grow=False)),
                          *([(2, True, 57, {}), (2, False, 55, dict(sel=2)), (4, False, 53, {}), (12, True, 53, dict(grow=False)), (52, True, 52, dict(grow=False)),
                             (12, False, 52, {})] if deep else [])]:
        n = W - 50
        nm = f'{m}-{"udd" if udd else "cfm"}-{n}' + ''.join(f'-{k}' for k in kw)
        kw, kg = {k: a for k, a in kw.items() if k != 'grow'}, kw
        ts, us = ([0, 1, 2, n + 1, -1], [0, 1, 2]) if n > 2 else ([1, n + 1, -1], [1])
        b = f'{n} ages, {m} payments a year'
        out += [Inst(f'ins-{nm}', lambda c, a=(50, W, m, udd, ts, us), kw=kg: insurance(c, *a, **kw), bounds=b, max_paths=3000, budget=200 if deep else 100),
                Inst(f'ann-{nm}', lambda c, a=(50, W, m, udd, ts, us), kw=kw: annuity(c, *a, **kw), bounds=b, max_paths=3000, budget=200 if deep else 100)]
        if 'table' not in kw:
            out += [Inst(f'parts-{nm}', lambda c, a=(50, W, m, udd), kw=kw: parts(c, *a, **kw), bounds=b, max_paths=3000)]
    for m, udd, W in [(2, True, 53), (4, True, 52), *([(2, False, 53), (12, True, 52), (4, True, 54)] if deep else [])]:
        out.append(Inst(f'variance-{m}-{"udd" if udd else "cfm"}-{W - 50}', lambda c, a=(50, W, m, udd, [0, 1, -1], [0, 1]): variance(c, *a),
                        bounds=f'{W - 50} ages', max_paths=3000, budget=200 if deep else 100))
    out.append(Inst('continuous-3', lambda c: continuous(c, 50, 53, [0, 1, 2], [0, 1]), bounds='3 ages', max_paths=3000))
    return out
