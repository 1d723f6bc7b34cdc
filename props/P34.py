"""Histories: settings changed and values asked for in any order, on several models at once."""
from .common import *
from .P12 import Sel
from .P21 import amounts
from . import P30
from actuarialmath import Premiums, Reserves, LifeTable, SelectLife, Recursion, Contract, Mthly, UDD, Woolhouse, ExtraRisk, ConstantForce, SULT

OUTSIDE = 'histories longer than those listed; a table of mortality rates updated with rates that contradict it'


class Survive:
    """a model given by its survival function"""

    def __init__(self, c, nm):
        self.c, self.nm = c, nm
        self.T = [Tab(c, 50, 53, 'p', name=f'{nm}p{k}', lo=F(1, 100)) for k in (0, 1)]
        self.v = [c.real(f'{nm}v{k}', F(1, 20), F(99, 100), sample=(.8, .97)) for k in (0, 1)]
        self.i = self.t = 0
        self.life = self.make()
        self.ops = {'interest': self.interest, 'mortality': self.mortality, 'ask': self.ask, 'ask for some': self.some}

    def make(self):
        return Reserves().set_interest(v=self.v[0]).set_survival(S=self.T[0].S, minage=50, maxage=53)

    def interest(self):
        old = self.life.interest
        self.i = 1 - self.i
        self.life.set_interest(v=self.v[self.i])
        self.c.eq(old.v, self.v[1 - self.i], self.nm + ' interest as it was')

    def mortality(self):
        self.t = 1 - self.t
        T = self.T[self.t]
        form = dict(l=lambda x, s: 1000 * T.p(50, 0, x + s - 50)) if self.t else dict(S=T.S)       # in one form or another
        self.life.set_survival(**form, minage=50, maxage=53)

    def some(self):
        T, V, l = self.T[self.t], disc(self.v[self.i]), self.life
        self.c.eq(l.p_x(50, t=2), T.p(50, 0, 2), self.nm + ' survival')
        self.c.eq(l.whole_life_annuity(50), T.a(V, 50), self.nm + ' annuity')

    def ask(self):
        T, V, l, c = self.T[self.t], disc(self.v[self.i]), self.life, self.c
        self.some()
        c.eq(l.q_x(51), 1 - T.p(51, 0, 1), self.nm + ' mortality')
        c.eq(l.l_x(51), l.l_x(50) * T.p(50, 0, 1), self.nm + ' lives')
        c.eq(l.whole_life_insurance(50), T.A(V, 50), self.nm + ' insurance')
        c.eq(l.whole_life_insurance(50, moment=2), T.A(V, 50, m=2), self.nm + ' second moment')
        c.eq(l.term_insurance(50, t=2), T.A(V, 50, t=2), self.nm + ' term insurance')
        c.eq(l.temporary_annuity(51, t=2), T.a(V, 51, t=2), self.nm + ' temporary annuity')
        c.eq(l.E_x(50, t=2), T.E(V, 50, 0, 2), self.nm + ' endowment')
        c.eq(l.e_x(50, curtate=True), sum((T.p(50, 0, k) for k in (1, 2)), 0), self.nm + ' lifetime')
        P = T.A(V, 50) / T.a(V, 50)
        c.eq(l.net_premium(50), P, self.nm + ' net premium')
        c.eq(l.net_policy_value(50, t=1), T.A(V, 51) - P * T.a(V, 51), self.nm + ' policy value')


class Table(Survive):
    """a life table: with one set of rates, or rates that arrive in two instalments"""

    def make(self):
        self.ops = {}
        self.life = LifeTable(udd=True).set_interest(v=self.v[0])
        self.life.set_table(q={a: 1 - self.T[0].p1(a, 0) for a in (50, 51)}, minage=50, maxage=53, radix=1000)
        self.life.set_table(q={52: 1}, minage=50, maxage=53, radix=1000)
        return self.life

    def mortality(self):
        """another table is another model"""
        self.t = 1 - self.t
        self.life = LifeTable(udd=True).set_interest(v=self.v[self.i]).set_table(q={a: 1 - self.T[self.t].p1(a, 0) for a in (50, 51, 52)},
                                                                             minage=50, maxage=53, radix=1000)


class Select:
    """a select table set again"""

    def __init__(self, c, nm):
        self.c, self.nm = c, nm
        self.v = [c.real(f'{nm}v{k}', F(1, 20), F(99, 100), sample=(.8, .97)) for k in (0, 1)]
        self.T = [Sel(P30_Named(c, f'{nm}{k}'), 50, 2, 1, complete=True, v=None, lo=F(1, 100)) for k in (0, 1)]
        self.i = self.t = 0
        self.life = SelectLife(periods=1).set_interest(v=self.v[0])
        self.load()
        self.ops = {'interest': self.interest, 'mortality': self.mortality, 'ask': self.ask, 'ask for some': self.some}

    def load(self):
        T = self.T[self.t]
        if self.t:          # in one form or another
            n = 1000 * T.p1(50, 1)
            self.life.set_table(l={50: [1000 / T.p1(50, 0), 1000], 51: [n / T.p1(51, 0), n]})
        else:
            self.life.set_table(q={a: [1 - T.p1(a, 0), 1 - T.p1(a, 1)] for a in (50, 51)})

    def interest(self):
        self.i = 1 - self.i
        self.life.set_interest(v=self.v[self.i])
        self.load()

    def mortality(self):
        self.t = 1 - self.t
        self.load()

    def some(self):
        T = self.T[self.t]
        self.c.eq(self.life.p_x(50, s=0, t=2), T.p(50, 0, 2), self.nm + ' survival')

    def ask(self):
        T, v, l, c = self.T[self.t], self.v[self.i], self.life, self.c
        for x, s in ((50, 0), (51, 0), (50, 1)):
            c.eq(l.q_x(x, s=s), 1 - T.p1(x, s), self.nm + f' mortality {x}+{s}')
            if x + s < 51:
                c.eq(l.p_x(x, s=s, t=2), T.p(x, s, 2), self.nm + f' survival {x}+{s}')
                c.eq(l.E_x(x, s=s, t=2), v ** 2 * T.p(x, s, 2), self.nm + f' endowment {x}+{s}')
                c.eq(l.temporary_annuity(x, s=s, t=2), 1 + v * T.p(x, s, 1), self.nm + f' annuity {x}+{s}')
                c.eq(l.term_insurance(x, s=s, t=2), v * (1 - T.p1(x, s)) + v ** 2 * (T.p1(x, s) - T.p(x, s, 2)), self.nm + f' insurance {x}+{s}')


class P30_Named:
    """a context whose variables carry a prefix"""

    def __init__(self, c, nm):
        self.c, self.nm = c, nm

    def __getattr__(self, k):
        return getattr(self.c, k)

    def real(self, n, *a, **k):
        return self.c.real(self.nm + n, *a, **k)


class Facts:
    """a recursion given facts, again or no more"""

    def __init__(self, c, nm):
        self.c, self.nm = c, nm
        self.v = [c.real(f'{nm}v{k}', F(1, 20), F(99, 100), sample=(.8, .97)) for k in (0, 1)]
        self.p = [c.real(f'{nm}p{k}', F(1, 100), 1, sample=(.6, .98)) for k in (0, 1)]
        self.a = [c.real(f'{nm}a{k}', 2, 10) for k in (0, 1)]
        self.i = self.t = self.j = 0
        self.life = Recursion(verbose=False).set_interest(v=self.v[0]).set_p(self.p[0], x=50).set_a(self.a[0], x=51)
        self.ops = {'interest': self.interest, 'mortality': self.mortality, 'annuity': self.annuity, 'ask': self.ask, 'ask for some': self.some}

    def interest(self):
        self.i = 1 - self.i
        self.life.set_interest(v=self.v[self.i])

    def mortality(self):
        self.t = 1 - self.t
        self.life.set_p(self.p[self.t], x=50)

    def annuity(self):
        self.j = 1 - self.j
        self.life.set_a(self.a[self.j], x=51)

    def some(self):
        self.c.eq(self.life.q_x(50), 1 - self.p[self.t], self.nm + ' mortality')

    def ask(self):
        p, v, a, l, c = self.p[self.t], self.v[self.i], self.a[self.j], self.life, self.c
        self.some()
        c.eq(l.p_x(50), p, self.nm + ' survival')
        c.eq(l.E_x(50, t=1), v * p, self.nm + ' endowment')
        c.eq(l.whole_life_annuity(50), 1 + v * p * a, self.nm + ' annuity')
        c.eq(l.whole_life_insurance(50), 1 - (1 - v) * (1 + v * p * a), self.nm + ' insurance')


def history(c, A, B, steps):
    """any sequence of operations on two models of which each must keep to its own settings"""
    ms = [A(c, 'a'), B(c, 'b')]
    last = None
    for k in range(steps):
        who = c.choose(f'model{k}', [0, 1]) if B is not A or k else 0        # two of a kind: the first to be touched is called the first
        ops = list(ms[who].ops)
        op = c.choose(f'op{k}', ops)
        c.assume(not (op == 'ask for some' and last == (who, 'ask')))          # adds nothing
        last = who, op
        ms[who].ops[op]()
    for m in ms:
        m.ask()


def wrapped(c, steps):
    """models on top of a life neither change it nor each other"""
    m = c.choose('m', [2, 4])
    T = Tab(c, 50, 53, 'p', lo=F(1, 100))
    w = c.real('w', F(1, 2), F(99, 100), sample=(.93, .98))
    v = w ** m
    udd = m > 2 or c.choose('udd', [True, False])
    life = Premiums(udd=udd).set_interest(v=v).set_survival(S=T.S, minage=0, maxage=53)
    Fr = P30.Frac(T, udd)
    V = disc(v)
    r = F(1, m)
    h = c.real('extra', F(1, 100), 1, sample=(.05, .5))
    made = {}

    def use(how):
        if how not in made:
            made[how] = {'mthly': lambda: Mthly(m, life), 'udd': lambda: UDD(m, life), 'woolhouse': lambda: Woolhouse(m, life),
                         'risk': lambda: ExtraRisk(life, extra=h, risk='ADD_FORCE')}[how]()
        M = made[how]
        if how == 'risk':
            c.eq(M.p_x(50), T.p(50, 0, 1) * math.exp(-h), 'rated survival')
        elif how == 'woolhouse':
            c.eq(M.whole_life_annuity(50), T.a(V, 50) - (1 - r) / 2, how)
            c.eq(M.deferred_annuity(50, u=1, t=1), v * T.p(50, 0, 1) * (T.a(V, 51) - (1 - r) / 2 - v * T.p(51, 0, 1) * (T.a(V, 52) - (1 - r) / 2)), how)
        else:
            f = Fr if how == 'mthly' else P30.Frac(T, True)
            c.eq(M.whole_life_annuity(50), f.ann(w, m, 50, 0, 0, None), how)
            c.eq(M.whole_life_insurance(50), f.ins(w, m, 50, 0, 0, None), how)
            c.eq(M.temporary_annuity(50, t=1), f.ann(w, m, 50, 0, 0, 1), how)
    for k in range(steps):
        how = c.choose(f'op{k}', ['mthly', 'udd', 'woolhouse', 'risk', 'ask'])
        if how != 'ask':
            use(how)
        else:
            c.eq(life.whole_life_annuity(50), T.a(V, 50), 'annuity in between')
    c.eq(life.whole_life_annuity(50), T.a(V, 50), 'annuity')
    c.eq(life.whole_life_insurance(50), T.A(V, 50), 'insurance')
    c.eq(life.p_x(50, t=2), T.p(50, 0, 2), 'survival')
    c.eq(life.p_r(50, r=F(1, 2), t=F(1, 2)), T.p(50, 0, 1) / Fr.S(50, 0, 1, 2), 'survival between birthdays')
    c.eq(life.interest.v, v, 'discount factor')


def rebuilt(c, steps):
    """models on top of a life whose mortality or interest changes follow it"""
    m = c.choose('m', [2, 4])
    T = [Tab(c, 49, 53, 'p', lo=F(1, 100), name=f'p{k}') for k in (0, 1)]
    w = [c.real(f'w{k}', F(1, 2), F(99, 100), sample=(.93, .98)) for k in (0, 1)]
    i = t = 0
    life = Premiums(udd=True).set_interest(v=w[0] ** m).set_survival(S=T[0].S, minage=0, maxage=53)
    h = c.real('extra', F(1, 100), 1, sample=(.05, .5))
    how = c.choose('model', ['mthly', 'udd', 'woolhouse', 'risk'])
    M = {'mthly': lambda: Mthly(m, life), 'udd': lambda: UDD(m, life), 'woolhouse': lambda: Woolhouse(m, life, three_term=True),
         'risk': lambda: ExtraRisk(life, extra=h, risk=c.choose('risk', ['ADD_FORCE', 'MULTIPLY_RATE', 'MULTIPLY_FORCE']))}[how]()
    r = F(1, m)

    def ask(whole):
        S, d = T[t], w[i] ** m
        V, Fr = disc(d), P30.Frac(S, True)
        if how == 'risk':
            p = S.p(50, 0, 1)
            want = {'ADD_FORCE': lambda: p * math.exp(-h), 'MULTIPLY_RATE': lambda: 1 - h * (1 - p), 'MULTIPLY_FORCE': lambda: p ** h}[M.risk_]()
            c.eq(M.p_x(50), want, 'rated survival')
            c.eq(M.q_x(50), 1 - want, 'rated mortality')
        elif how == 'woolhouse':
            f = -(math.log(S.p(50, 0, 1)) + math.log(S.p(49, 0, 1))) / 2
            a = S.a(V, 50) - (1 - r) / 2 - (f - math.log(d)) * (1 - r * r) * F(1, 12)
            c.eq(M.whole_life_annuity(50), a, 'annuity')
            if whole:
                c.eq(M.whole_life_insurance(50), 1 - m * (1 - w[i]) * a, 'insurance')
        else:
            c.eq(M.whole_life_annuity(50), Fr.ann(w[i], m, 50, 0, 0, None), 'annuity')
            c.eq(M.whole_life_insurance(50), Fr.ins(w[i], m, 50, 0, 0, None), 'insurance')
            if whole:
                c.eq(M.temporary_annuity(50, t=1), Fr.ann(w[i], m, 50, 0, 0, 1), 'temporary annuity')
    for k in range(steps):
        op = c.choose(f'op{k}', ['interest', 'mortality', 'ask'])
        if op == 'interest':
            i = 1 - i
            life.set_interest(v=w[i] ** m)
        elif op == 'mortality':
            t = 1 - t
            life.set_survival(S=T[t].S, minage=0, maxage=53)
        else:
            ask(False)
    ask(True)


def shown(c):
    """tables and figures shown in between change nothing"""
    T = Tab(c, 50, 53, 'p', lo=F(1, 100))
    v = c.real('v', F(1, 20), F(99, 100), sample=(.8, .97))
    V = disc(v)
    life = {'life table': lambda: LifeTable(udd=True).set_interest(v=v).set_table(q={a: 1 - T.p1(a, 0) for a in (50, 51, 52)}, minage=50, maxage=53, radix=1000),
            'sult': lambda: SULT(i=1 / v - 1, S=lambda x, t: T.p(x, 0, t), minage=50, maxage=53)}
    how = c.choose('table', list(life))
    l = life[how]()
    for k in range(2):
        op = c.choose(f'op{k}', ['frame', 'column', 'nothing'])
        if op == 'frame':
            f = l.frame()
            f.iloc[:, :] = 0        # a copy
        elif op == 'column' and how == 'sult':
            q = l['q']
            for a in q:
                q[a] = 0
            l.set_interest(v=v)
    for x in (50, 51, 52):
        c.eq(l.q_x(x), 1 - T.p(x, 0, 1), f'mortality at {x}')
        c.eq(l['q'][x], 1 - T.p(x, 0, 1), f'column of mortality at {x}')
        c.eq(l.l_x(x) * T.p(50, 0, 0), l.l_x(50) * T.p(50, 0, x - 50), f'lives at {x}')
        c.eq(l.whole_life_insurance(x), T.A(V, x), f'insurance at {x}')
        if how == 'sult':
            c.eq(l['q'][x], 1 - T.p(x, 0, 1), f'column of mortality at {x}')
            c.eq(l['a'][x], T.a(V, x), f'column of annuities at {x}')
    if how == 'sult':           # other interest: other columns
        y = c.real('y', F(1, 20), F(99, 100), sample=(.8, .97))
        l.set_interest(v=y)
        for x in (50, 52):
            c.eq(l['a'][x], T.a(disc(y), x), f'column of annuities at {x}, other interest')
            c.eq(l['A'][x], T.A(disc(y), x), f'column of insurances at {x}, other interest')


def contracts(c):
    """terms of contracts: each its own, and as last set"""
    names = ['premium', 'benefit', 'initial_policy', 'initial_premium', 'renewal_policy', 'renewal_premium', 'settlement_policy', 'endowment']
    z = {n: c.real(n, 1, 100) for n in names}
    y = {n: c.real('new ' + n, 1, 100) for n in names}
    C = Contract(**z)
    D = Contract(T=10)
    which = c.choose('changed', names)
    how = c.choose('how', ['set', 'assigned', 'renewed'])
    if how == 'set':
        if c.choose('to nothing', [False, True]):
            y[which] = 0
        c.same(C.set_contract(**{which: y[which]}) is C, True, 'the contract itself')
        C.set_contract(nonsense=1)
    elif how == 'assigned':
        setattr(C, which, y[which])
    else:
        R = C.renewals()
        setattr(R, which, y[which])
        R.set_contract(benefit=y['benefit'])
    now = dict(z)
    if how != 'renewed':
        now[which] = y[which]
    for n in names:
        c.eq(getattr(C, n), now[n], n)
    c.same([getattr(D, n) for n in names], [1, 1, 0, 0, 0, 0, 0, 0], 'defaults of another contract')
    c.same((C.T, D.T), (WHOLE, 10), 'terms of the contracts')
    t = C.premium_terms
    c.same(sorted(t), sorted(['benefit', 'initial_policy', 'initial_premium', 'renewal_policy', 'renewal_premium', 'settlement_policy']), 'terms of premiums')
    for n in t:
        c.eq(t[n], now[n], 'terms: ' + n)
    t['benefit'] = 0
    c.eq(C.benefit, now['benefit'], 'terms are a copy')
    c.eq(C.claims_cost, now['benefit'] + now['settlement_policy'], 'claims cost')
    c.eq(C.renewal_profit, now['premium'] * (1 - now['renewal_premium']) - now['renewal_policy'], 'renewal profit')
    c.eq(C.initial_cost, now['initial_policy'] - now['renewal_policy'] + now['premium'] * (now['initial_premium'] - now['renewal_premium']), 'initial cost')


def reserves(c, steps):
    """tables of reserves of two lives, filled or given in turn"""
    v = c.real('v', F(1, 20), F(99, 100), sample=(.8, .97))
    T = Tab(c, 50, 60, 'p', lo=F(1, 100), alive=True)
    ls = [Reserves().set_interest(v=v).set_survival(S=T.S, minage=0, maxage=60) for _ in range(2)]
    P = [c.real(f'P{k}', 0, 50, sample=(1, 20)) for k in (0, 1)]
    b = [c.real(f'b{k}', 1, 500, sample=(10, 100)) for k in (0, 1)]
    for k, l in enumerate(ls):
        l.set_reserves(T=2 + k)
    want = []
    for k in (0, 1):
        R = [0]
        for t in range(1, 2 + k):
            R.append(((R[-1] + P[k]) / v - b[k] * (1 - T.p(50, t - 1, 1))) / T.p(50, t - 1, 1))
        want.append(R + [0])
    for j in range(steps):
        k = c.choose(f'model{j}', [0, 1])
        ls[k].fill_reserves(50, contract=Contract(premium=P[k], benefit=b[k], T=2 + k))
    for k in (0, 1):
        ls[k].fill_reserves(50, contract=Contract(premium=P[k], benefit=b[k], T=2 + k))
    for k, l in enumerate(ls):
        c.same(sorted(l._reserves['V']), list(range(3 + k)), 'years of reserves')
        for t in range(3 + k):
            c.eq(l._reserves['V'][t], want[k][t], f'reserve {k} after {t} years')


def valued(c, n):
    """a contract valued in any order of years keeps its terms"""
    v = c.real('v', F(1, 20), F(99, 100), sample=(.8, .97))
    T = Tab(c, 50, 55, 'p', lo=F(1, 100))
    V = disc(v)
    life = Reserves().set_interest(v=v).set_survival(S=T.S, minage=0, maxage=55)
    N = c.choose('term', [3, WHOLE])
    k = amounts(c, None if N < 0 else c.choose('endowment', [None, 'other', 'same']))
    C = Contract(**k, T=N)
    twin = Contract(**k, T=N)
    e, b = k.get('endowment', 0), k['benefit'] + k['settlement_policy']

    def value(t):
        z = 'initial' if t == 0 else 'renewal'
        first = k[z + '_policy'] + k[z + '_premium'] * k['premium']
        rest = k['renewal_policy'] + k['renewal_premium'] * k['premium']
        if N < 0:
            a, A, E = T.a(V, 50, t), T.A(V, 50, t), 0
        else:
            a, A, E = T.a(V, 50, t, t=N - t), T.A(V, 50, t, t=N - t), T.E(V, 50, t, N - t)
        return b * A + e * E + first + rest * (a - 1) - k['premium'] * a
    for j in range(n):
        what = c.choose(f'op{j}', ['value at 0', 'value at 1', 'value at 2', 'reserves', 'loss', 'renewals', 'premium'])
        if what.startswith('value'):
            t = int(what[-1])
            c.eq(life.gross_policy_value(50, t=t, n=N, contract=C), value(t), what)
        elif what == 'reserves':
            life.set_reserves(T=3, endowment=e).fill_reserves(50, contract=C)
        elif what == 'loss':
            life.L_from_t(1, contract=C)
        elif what == 'renewals':
            C.renewals().set_contract(benefit=7, premium=3, T=9)
        else:
            life.gross_premium(A=T.A(V, 50), a=T.a(V, 50), **C.premium_terms)
    for nm in k:
        c.eq(getattr(C, nm), k[nm], 'term kept: ' + nm)
    c.same((C.T, twin.T), (N, N), 'term of the contract')
    c.eq(life.gross_policy_value(50, t=1, n=N, contract=twin), value(1), 'another contract of the same terms')


def shared(c, n):
    """one set of known reserves given to two lives"""
    v = c.real('v', F(1, 20), F(99, 100), sample=(.8, .97))
    T = Tab(c, 50, 60, 'p', lo=F(1, 100), alive=True)
    R = c.real('R', -100, 1000, sample=(1, 50))
    P = [c.real(f'P{k}', 0, 50, sample=(1, 20)) for k in (0, 1)]
    known = {2: R}
    ls = [Reserves().set_interest(v=v).set_survival(S=T.S, minage=0, maxage=60) for _ in range(2)]
    for k, l in enumerate(ls):
        l.set_reserves(T=4, V=known, **(dict(endowment=c.choose('endowment', [0, 50])) if k else {}))
    for j in range(n):
        k = c.choose(f'model{j}', [0, 1])
        ls[k].fill_reserves(50, contract=Contract(premium=P[k], benefit=100, T=4))
    c.same(sorted(known), [2], 'years of the reserves given')
    c.eq(known[2], R, 'the reserve given')
    for k, l in enumerate(ls):
        l.fill_reserves(50, contract=Contract(premium=P[k], benefit=100, T=4))
        p = T.p(50, 0, 1)
        c.eq(l._reserves['V'][1] * p, P[k] / v - 100 * (1 - p), f'reserve of model {k} after 1 year')
        c.eq(l._reserves['V'][2], R, f'reserve of model {k} after 2 years')
        p = T.p(50, 2, 1)
        c.eq(l._reserves['V'][3] * p, (R + P[k]) / v - 100 * (1 - p), f'reserve of model {k} after 3 years')


def instances(tier):
    deep = tier == 'thorough'
    n = 4 if deep else 3
    kw = dict(max_paths=30000, budget=600 if deep else 150)
    out = [Inst('survival', lambda c: history(c, Survive, Survive, n), bounds=f'{n} operations on two models', **kw),
           Inst('table', lambda c: history(c, Table, Table, n), bounds=f'{n} operations on two models', **kw),
           Inst('select', lambda c: history(c, Select, Select, n), bounds=f'{n} operations on two models', **kw),
           Inst('recursion', lambda c: history(c, Facts, Facts, n), bounds=f'{n} operations on two models', **kw),
           Inst('wrapped', lambda c: wrapped(c, n), bounds=f'{n} uses of models built on one life', **kw),
           Inst('rebuilt', lambda c: rebuilt(c, n), bounds=f'{n} changes of the life below another model', **kw),
           Inst('shown', shown, bounds='two tables shown', **kw),
           Inst('contracts', contracts, **kw),
           Inst('valued', lambda c: valued(c, n - 1), bounds=f'{n - 1} uses of a contract', **kw),
           Inst('shared', lambda c: shared(c, 2), bounds='2 fills before the last', **kw),
           Inst('reserves', lambda c: reserves(c, 2), bounds='2 fills before the last', **kw)]
    return out
