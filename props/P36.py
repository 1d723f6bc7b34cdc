"""Tables list the values of the functions they are named for."""
from .common import *
from .P12 import Sel
from actuarialmath import SULT, LifeTable, SelectLife, Reserves, UDD, Interest, Life

OUTSIDE = 'how the tables look; digits beyond those shown; life tables longer than those listed'


def sult(c, X, W, ages):
    """the columns of the examination table"""
    T = Tab(c, X, W, 'p', lo=F(1, 100))
    v = c.real('v', F(1, 20), F(99, 100), sample=(.8, .98))
    r = c.real('radix', 1, 1000000, sample=(1000, 100000))
    life = SULT(i=1 / v - 1, radix=r, S=lambda x, t: T.p(x, 0, t), minage=X, maxage=W)
    tab = life.frame(minage=X, maxage=W)
    V = disc(v)
    end = lambda x, t: T.A(V, x, t=t, e=1)
    cols = {'l_x': (1, lambda x: r * T.p(X, 0, x - X)), 'q_x': (6, lambda x: 1 - T.p(x, 0, 1)),
            'a_x': (4, lambda x: T.a(V, x)), 'A_x': (5, lambda x: T.A(V, x)), '2A_x': (5, lambda x: T.A(V, x, m=2)),
            'a_x:10': (4, lambda x: T.a(V, x, t=10)), 'A_x:10': (5, lambda x: end(x, 10)),
            'a_x:20': (4, lambda x: T.a(V, x, t=20)), 'A_x:20': (5, lambda x: end(x, 20)),
            '5_E_x': (5, lambda x: T.E(V, x, 0, 5)), '10_E_x': (5, lambda x: T.E(V, x, 0, 10)), '20_E_x': (5, lambda x: T.E(V, x, 0, 20))}
    c.same(list(tab.columns), list(cols), 'columns')
    c.same(list(tab.index), list(range(X, W + 1)), 'ages')
    x = c.choose('x', ages)
    for k, (digits, f) in cols.items():
        shown(c, tab[k][x], f(x), digits, f'{k} at {x}')


def part(c):
    """only the rows asked for"""
    T = Tab(c, 30, 36, 'p', lo=F(1, 100))
    life = SULT(i=F(1, 20) if c.mode == 'symbolic' else .05, radix=1000, S=lambda x, t: T.p(x, 0, t), minage=30, maxage=36)
    lo, hi = c.choose('lo', [30, 32]), c.choose('hi', [33, 36])
    tab = life.frame(minage=lo, maxage=hi)
    c.same(list(tab.index), list(range(lo, hi + 1)), 'ages')
    for x in range(lo, min(hi, 35) + 1):
        shown(c, tab['q_x'][x], 1 - T.p(x, 0, 1), 6, f'q_x at {x}')
        shown(c, tab['l_x'][x], 1000 * T.p(30, 0, x - 30), 1, f'l_x at {x}')


def usual(c):
    """rows shown unless asked for: ages 20 to 100 of those in the table"""
    X, W = c.choose('ages', [(18, 23), (98, 103), (40, 44)])
    T = Tab(c, X, W, 'p', lo=F(1, 100))
    life = SULT(i=F(1, 20) if c.mode == 'symbolic' else .05, radix=1000, S=lambda x, t: T.p(x, 0, t), minage=X, maxage=W)
    tab = life.frame()
    c.same(list(tab.index), list(range(max(20, X), min(100, W) + 1)), 'ages')
    for x in tab.index:
        shown(c, tab['l_x'][x], 1000 * T.p(X, 0, x - X), 1, f'l_x at {x}')
        if x < W:
            shown(c, tab['q_x'][x], 1 - T.p(x, 0, 1), 6, f'q_x at {x}')
            shown(c, tab['5_E_x'][x], F(20, 21) ** 5 * T.p(x, 0, 5), 5, f'5_E_x at {x}')
    for col, f in (('q', lambda x: 1 - T.p(x, 0, 1)), ('p', lambda x: T.p(x, 0, 1)), ('a', lambda x: T.a(disc(F(20, 21)), x)), ('A', lambda x: T.A(disc(F(20, 21)), x))):
        got = life[col]
        c.same(list(got), list(range(X, W)), f'ages of column {col}')
        for x in got:
            c.eq(got[x], f(x), f'column {col} at {x}')


def cells(c, tab, want, what, gaps=True):
    """every value in place, everything else missing"""
    import pandas as pd
    for col, w in want.items():
        for x, y in w.items():
            c.eq(tab[col][x], y, f'{what}: {col} at {x}')
        for x in tab.index:
            if x not in w:
                c.true(pd.isna(tab[col][x]), f'{what}: no {col} at {x}')


def life_table(c):
    X, n = 60, 4
    q = {a: c.prob(f'q{a}', sample=(.05, .4)) for a in (range(X, X + n) if c.choose('up', [True, False]) else reversed(range(X, X + n)))}
    life = LifeTable().set_table(q=q, radix=1000)
    tab = life.frame()
    l, y = {}, c.const(1000)
    for a in range(X, X + n):
        l[a] = y
        y = y * (1 - q[a])
    l[X + n] = y
    c.same(list(tab.index), list(range(X, X + n + 1)), 'ages in order')
    c.same(sorted(tab.columns), ['d', 'l', 'p', 'q'], 'columns')
    cells(c, tab, {'l': l}, 'life table')
    for a in range(X, X + n):
        c.eq(tab['q'][a], q[a], f'q at {a}', atol=2e-7), c.eq(tab['p'][a], 1 - q[a], f'p at {a}', atol=2e-7), c.eq(tab['d'][a], l[a] * q[a], f'd at {a}')


def select_table(c):
    X, n, k = 50, 3, c.choose('years', [1, 2])
    order = c.choose('order', [range(X, X + n), [X + 1, X + 2, X]])
    q = {x: [c.prob(f'q{x}+{s}', sample=(.05, .4)) for s in range(k + 1)] for x in order}
    life = SelectLife(periods=k).set_table(q=q, fill=c.choose('fill', [True, False]), radix=700)
    tab = life.frame(c.choose('name', ['q', 'q_x']))
    c.same(list(tab.index), list(range(X, X + n)), 'ages of selection in order')
    c.same(list(tab.columns), list(range(k + 1)), 'years after selection in order')
    cells(c, tab, {s: {x: q[x][s] for x in q} for s in range(k + 1)}, 'select table')


def reserve_table(c):
    n = c.choose('n', [2, 5])
    V = {t: c.real(f'V{t}', -1000, 1000, sample=(10, 90)) for t in range(1, n)}
    e = c.real('endowment', 0, 1000, sample=(10, 90), lo_open=False)
    tab = Reserves().set_reserves(T=n, endowment=e, V=V).reserves_frame()
    c.same(list(tab.columns), ['V_t'], 'columns')
    c.same(sorted(tab.index), list(range(n + 1)), 'times')
    cells(c, tab, {'V_t': {0: 0, n: e, **V}}, 'reserves')


def interest_table(c):
    """nominal rates and adjustment factors of the examination table"""
    i = c.real('i', F(1, 1000), F(1, 2), sample=(.01, .2))
    tab = UDD.interest_frame(i=i)
    c.same(list(tab.index), [1, 2, 4, 12, 0], 'frequencies')
    d = i / (1 + i)
    for m in tab.index:
        im = math.log(1 + i) if m == 0 else m * ((1 + i) ** F(1, m) - 1) if m > 1 else i
        dm = math.log(1 + i) if m == 0 else m * (1 - (1 + i) ** F(-1, m)) if m > 1 else d
        R = dict(rtol=1e-6, atol=1.2e-6)       # five digits
        for k, w in {'i(m)': im, 'd(m)': dm, 'i/i(m)': i / im, 'd/d(m)': d / dm, 'alpha(m)': i * d / (im * dm), 'beta(m)': (i - im) / (im * dm)}.items():
            c.eq(tab[k][m], w, f'{k}, m = {m}', **R)


def tables(c):
    """tables of reserves, lives and select rates"""
    f = c.choose('table', ['reserves', 'lives', 'select'])
    if f == 'reserves':
        n = 3
        V = {t: c.real(f'V{t}', 0, 100) for t in range(1, n)}
        e = c.real('e', 0, 100, lo_open=False)
        v = c.real('v', F(1, 20), F(99, 100), sample=(.8, .97))
        T = Tab(c, 50, 60, 'p', lo=F(1, 100), alive=True)
        life = Reserves().set_interest(v=v).set_survival(S=T.S, minage=0, maxage=60).set_reserves(T=n, endowment=e, V=V)
        want = {0: 0, **V, n: e}
        fr = life.reserves_frame()
        c.same(list(fr.columns), ['V_t'], 'columns')
        c.same(sorted(fr.index), list(range(n + 1)), 'years')
        for t in want:
            c.eq(fr['V_t'][t], want[t], f'reserve after {t} years')
    elif f == 'lives':
        T = Tab(c, 50, 53, 'p', lo=F(1, 100))
        life = LifeTable().set_table(q={a: 1 - T.p1(a, 0) for a in (52, 50, 51)}, minage=50, maxage=53, radix=1000)
        fr = life.frame()
        c.same(list(fr.index), [50, 51, 52, 53], 'ages in order')
        c.same(sorted(fr.columns), ['d', 'l', 'p', 'q'], 'columns')
        for a in (50, 51, 52):
            c.eq(fr['l'][a], 1000 * T.p(50, 0, a - 50), f'lives at {a}')
            c.eq(fr['d'][a], 1000 * T.q(50, 0, a - 50), f'deaths at {a}')
            c.eq(fr['q'][a], 1 - T.p(a, 0, 1), f'mortality at {a}')
            c.eq(fr['p'][a], T.p(a, 0, 1), f'survival at {a}')
    else:
        T = Sel(c, 50, 3, 2, complete=True)
        T.l0 = c.const(100000)
        life = SelectLife(periods=2).set_table(q={a: [1 - T.p1(a, k) for k in range(3)] for a in (52, 50, 51)})
        for col, val in [('q', lambda a, k: 1 - T.p1(a, k)), ('l', T.l), ('d', lambda a, k: T.l(a, k) * (1 - T.p1(a, k)))]:
            fr = life.frame(col)
            c.same([list(fr.index)[:3], list(fr.columns)[:3]], [[50, 51, 52], [0, 1, 2]], f'{col}: ages and durations in order')
            l0 = life.l_x(50, s=0) / T.l(50, 0) if col != 'q' else 1
            for a in (50, 51, 52):
                for k in range(3):
                    if (col, a, k) == ('d', 52, 2):
                        continue            # lives a year later are not in the table
                    c.eq(fr[k][a], val(a, k) * l0, f'{col} of {a}+{k}')


def quantiles(c):
    """values of the standard normal at the probabilities asked for"""
    ps = [c.real(f'p{k}', F(1, 100), F(99, 100), sample=(.1, .9)) for k in range(2)]
    tab = Life.quantiles_frame(quantiles=ps)
    c.same(list(tab.shape), [1, 2], 'one row')
    for k, p in enumerate(ps):
        c.eq(tab.iloc[0, k], p, f'probability {k}', atol=6e-5)
        z = tab.columns[k]
        c.le(Life.portfolio_percentile(0, 1, p) - z, 6e-4, f'value {k} not too small')
        c.le(z - Life.portfolio_percentile(0, 1, p), 6e-4, f'value {k} not too large')


def instances(tier):
    out = [Inst('sult', lambda c: sult(c, 40, 65, [40, 44, 55, 62, 64]), bounds='25 ages'), Inst('sult-late', lambda c: sult(c, 70, 78, range(70, 78)), bounds='8 ages'),
           Inst('part', part), Inst('usual', usual, bounds='4-5 ages, below 20, above 100 and between'), Inst('life', life_table, bounds='4 ages'), Inst('select', select_table, bounds='3 ages, 1-2 select years'),
           Inst('tables', tables, bounds='3 ages'), Inst('quantiles', quantiles, bounds='two probabilities'), Inst('reserves', reserve_table, bounds='2-5 years'), Inst('interest', interest_table, bounds='frequencies 1, 2, 4, 12 and continuous')]
    return out
