"""Reserve recursions and tables of reserves."""
from .common import *
from .P20 import model
from .P21 import amounts
from actuarialmath import Reserves, Contract, LifeTable

OUTSIDE = 'ages, terms and years other than those listed; contracts whose term differs from that of the table of reserves; reserves of an age that nobody survives'


def setup(c, X, W, sel=0, table=False, kind='p', zero=False):
    T = Tab(c, X, W, kind, sel, alive=not table, lo=F(1, 100))
    v = c.const(1) if zero else c.prob('v', sample=(.8, .97))
    if table:
        q = {x: 1 - T.p1(x, 0) for x in range(X, W)}
        life = LifeTable().set_interest(v=v).set_table(q=q, minage=X, maxage=W, radix=1000)
    else:
        life = Reserves().set_interest(i=1 / v - 1).set_survival(S=T.S, minage=0, maxage=W)
    return T, v, life


def step(c, X, sel=0, table=False, zero=False):
    """one year forward and backward from any given reserve"""
    T, v, life = setup(c, X, X + 8 if table else X + 60, sel, table, zero=zero)
    s = c.choose('s', [0, 1])
    t = c.choose('t', [0, 1, 2, 3])
    R = c.real('V', -1000, 5000, sample=(10, 50))
    P, b = c.real('P', 0, 500, sample=(1, 20), lo_open=False), c.real('b', 0, 5000, sample=(10, 500), lo_open=False)
    pp, ep = c.real('pp', 0, 1, sample=(0, .5), lo_open=False), c.real('ep', 0, 100, sample=(0, 5), lo_open=False)
    rb = c.choose('reserve_benefit', [False, True])
    how = c.choose('how', ['all', 'benefit by year', 'defaults', 'no benefit'])
    amount = b
    kw = dict(premium=P, benefit=lambda t, b=b: b, per_premium=pp, per_policy=ep)
    if how == 'benefit by year':
        kw['benefit'] = lambda u, b=b: b * u
        b = b * t       # of the year ending at t (forward); see below
    elif how == 'no benefit':
        b = amount = 0
        kw['benefit'] = lambda u: 0
    elif how == 'defaults':
        kw = {}
        P, b, pp, ep = 0, 1, 0, 0
    if rb:
        kw['reserve_benefit'] = True
    net = P - P * pp - ep
    which = c.choose('which', ['forward', 't_V', 'backward', 't_V-', 'unknown', 'known', 'both'] if t else ['backward'])
    if which in ('forward', 't_V'):
        life.set_reserves(T=50, V={t - 1: R})
        if t == 1:
            R = 0       # nil at issue
        got = (life.t_V_forward if which == 'forward' else life.t_V)(X, s=s, t=t, **kw)
        p = T.p(X, s + t - 1, 1)
        nxt = p * got if not rb else got
        c.eq((R + net) / v, (1 - p) * b + nxt, f'{which} to {t}')
    elif which in ('backward', 't_V-'):
        if how == 'benefit by year':
            b = amount * (t + 1)
        life.set_reserves(T=50, V={t + 1: R})
        if which == 't_V-' and t == 1:
            return
        got = (life.t_V_backward if which == 'backward' else life.t_V)(X, s=s, t=t, **kw)
        p = T.p(X, s + t, 1)
        nxt = p * R if not rb else R
        c.eq((got + net) / v, (1 - p) * b + nxt, f'{which} to {t}')
    elif which == 'both':   # forward undoes backward
        life.set_reserves(T=50, V={t + 2: R})
        kw['benefit'] = lambda u, b=b: b
        back = life.t_V_backward(X, s=s, t=t + 1, **kw)
        life.set_reserves(V={t + 1: back})
        c.eq(life.t_V_forward(X, s=s, t=t + 2, **kw), R, 'there and back')
    elif which == 'known':
        life.set_reserves(T=50, V={t: R, t + 1: R + 5})
        c.eq(life.t_V(X, s=s, t=t, **kw), R, 'the given reserve')
        c.eq(life.t_V(X, s=s, t=0, **kw), 0, 'nil at issue')
        c.eq(life.t_V(X, s=s, t=50, **kw), 0, 'nil at expiry')
    else:
        life.set_reserves(T=50, V={t + 5: R}, endowment=b)
        c.true(life.t_V(X, s=s, t=t + 3, **kw) is None, 'unknown')
        c.true(life.t_V_forward(X, s=s, t=t + 3, **kw) is None, 'unknown forward')
        c.true(life.t_V_backward(X, s=s, t=t + 3, **kw) is None, 'unknown backward')
        c.eq(life.t_V(X, s=s, t=50, **kw), b, 'endowment at expiry')


def fill(c, X, n, sel=0, table=False, zero=False):
    """tables: years linked by the recursion, given reserves kept"""
    T, v, life = setup(c, X, X + 7 if table else X + 60, sel, table, zero=zero)
    s = c.choose('s', [0, 1])
    given = [g for g in ((), (1,), (2,), (n - 1,)) if all(0 < k < n for k in g)]
    given = c.choose('given', given)
    V = {t: c.real(f'V[{t}]', -1000, 5000, sample=(10, 50)) for t in given}
    k = amounts(c, c.choose('endowment', [None, 'other', 'less']))
    rb = c.choose('reserve_benefit', [False, True])
    C = Contract(**k, **(dict(T=n) if c.choose('T', [0, 1]) else {}))
    e = k.get('endowment', 0)
    c.true(life.set_reserves(T=n, V=V, endowment=e) is life, 'returns itself')
    kw = dict(reserve_benefit=True) if rb else {}
    c.true(life.fill_reserves(X, s=s, contract=C, **kw) is life, 'returns itself')
    R = life._reserves['V']
    c.true(sorted(R) == list(range(n + 1)), 'every year')
    c.eq(R[0], 0, 'nil at issue')
    c.eq(R[n], e, 'endowment at expiry')
    for t in given:
        c.eq(R[t], V[t], f'given {t}')
    b = k['benefit'] + k['settlement_policy']
    for t in range(1, n):
        if t in given:
            continue
        z = 'initial' if t == 1 else 'renewal'
        net = k['premium'] * (1 - k[z + '_premium']) - k[z + '_policy']
        p = T.p(X, s + t - 1, 1)
        c.eq((R[t - 1] + net) / v, (1 - p) * b + (R[t] if rb else p * R[t]), f'year {t}')


def defaults(c, X):
    """no contract: premium and benefit of 1; number of years from the reserves given"""
    T, v, life = setup(c, X, X + 60)
    s = c.choose('s', [0, 1])
    n = c.choose('n', [2, 3, 5])
    V = {t: c.real(f'V[{t}]', -1000, 5000, sample=(10, 50)) for t in range(n + 1)}
    e = c.real('e', 0, 1000, sample=(10, 50), lo_open=False)
    life.set_reserves(V=V, endowment=e)
    c.true(life.T == n, 'years')
    c.true(sorted(life._reserves['V']) == list(range(n + 1)), 'all years')
    c.eq(life._reserves['V'][0], 0, 'nil at issue')
    c.eq(life._reserves['V'][n], e, 'endowment at expiry')
    for t in range(1, n):
        c.eq(life._reserves['V'][t], V[t], f'given {t}')
    life = Reserves().set_interest(i=1 / v - 1).set_survival(S=T.S, minage=0, maxage=X + 60).set_reserves(T=n, endowment=e).fill_reserves(X, s=s)
    R = life._reserves['V']
    for t in range(1, n):
        p = T.p(X, s + t - 1, 1)
        c.eq((R[t - 1] + 1) / v, 1 - p + p * R[t], f'year {t}')


def given(c, X):
    """reserves given in several instalments, by year, kept until given again; those of the caller left alone"""
    T, v, life = setup(c, X, X + 60)
    n = 5
    first = c.choose('first', [(2,), (1, 3), (0, 4)])
    then = c.choose('then', [(3,), (2, 4), (1,), (5,)])
    R = {t: c.real(f'V[{t}]', -1000, 5000, sample=(10, 50)) for t in first}
    Q = {t: c.real(f'W[{t}]', -1000, 5000, sample=(10, 50)) for t in then}
    e = c.real('e', 0, 1000, sample=(10, 50), lo_open=False)
    R0, Q0 = dict(R), dict(Q)
    life.set_reserves(T=n, V=R, endowment=e)
    life.set_reserves(V=Q, endowment=e)
    c.true(life.T == n, 'years')
    got = life._reserves['V']
    want = {**R, **Q, 0: 0, n: e}
    c.true(sorted(got) == sorted(want), 'years of reserves')
    for t in want:
        c.eq(got[t], want[t], f'given {t}')
    for D, D0, nm in ((R, R0, 'first'), (Q, Q0, 'second')):
        c.true(sorted(D) == sorted(D0), f'{nm} given: years')
        for t in D0:
            c.eq(D[t], D0[t], f'{nm} given: {t}')
    P = c.real('P', 0, 50, sample=(1, 20), lo_open=False)
    life.fill_reserves(X, contract=Contract(premium=P, benefit=100, T=n))
    for D, D0, nm in ((R, R0, 'first'), (Q, Q0, 'second')):
        c.true(sorted(D) == sorted(D0), f'{nm} given, after filling: years')
    for t in want:
        c.eq(life._reserves['V'][t], want[t], f'given {t}, after filling')
    life.set_reserves(V={2: 0}, endowment=e)
    c.eq(life._reserves['V'][2], 0, 'a reserve of nothing')


def value(c, X, n, sel=0, table=False):
    """at the gross premium reserves are gross policy values"""
    T, v, life = setup(c, X, X + 8 if table else X + 60, sel, table)
    s = c.choose('s', [0, 1])
    e = c.choose('endowment', [None, 'same', 'other', 'less'])
    k = amounts(c, e)
    k.pop('premium')
    C = Contract(**k, T=n)
    A, a, E = life.term_insurance(X, s=s, t=n), life.temporary_annuity(X, s=s, t=n), life.E_x(X, s=s, t=n)
    c.assume(a * (1 - k['renewal_premium']) - k['initial_premium'] + k['renewal_premium'] > 0)
    G = life.gross_premium(A=A, a=a, E=E, endowment=k.get('endowment', 0), **C.premium_terms)
    C.set_contract(premium=G)
    life.set_reserves(T=n, endowment=k.get('endowment', 0)).fill_reserves(X, s=s, contract=C)
    for t in range(n):
        c.eq(life._reserves['V'][t], life.gross_policy_value(X, s=s, t=t, n=n, contract=C), f'year {t}')


def net(c, X, n, sel=0):
    """at the net premium they are net policy values"""
    T, v, life = setup(c, X, X + 60, sel)
    s = c.choose('s', [0, 1])
    b = c.pos('b', sample=(10, 90))
    e = c.choose('endowment', [0, b, 77])
    P = life.net_premium(X, s=s, t=n, b=b, endowment=e)
    life.set_reserves(T=n, endowment=e).fill_reserves(X, s=s, contract=Contract(premium=P, benefit=b, endowment=e, T=n))
    for t in range(n):
        c.eq(life._reserves['V'][t], life.net_policy_value(X, s=s, t=t, n=n, b=b, endowment=e), f'year {t}')


def wide(c, X, n):
    T, v, life = setup(c, X, X + 90, kind='l')
    b = c.pos('b', sample=(10, 90))
    P = c.pos('P', sample=(1, 5))
    e = c.pos('e', sample=(1, 50))
    life.set_reserves(T=n, endowment=e).fill_reserves(X, contract=Contract(premium=P, benefit=b, endowment=e))
    R = life._reserves['V']
    for t in range(1, n):
        # accumulated premiums less claims per life surviving
        if t in (1, 2, n // 2, n - 1):
            fund = 0
            for j in range(t):
                fund = (fund + P * T.p(X, 0, j)) / v - b * T.q(X, 0, j)
            c.eq(R[t] * T.p(X, 0, t), fund, f'year {t}')


def instances(tier):
    th = tier == 'thorough'
    n = 6 if th else 4
    out = []
    for nm, kw in (('', {}), ('-select', dict(sel=2)), ('-lifetable', dict(table=True)), ('-zero', dict(zero=True))):
        out += [Inst('step' + nm, lambda c, kw=kw: step(c, 40, **kw), max_paths=3000, bounds='durations 1 to 3'), Inst('fill' + nm, lambda c, kw=kw: fill(c, 40, n, **kw), max_paths=3000, bounds=f'{n} years')]
        if 'zero' not in nm:
            out.append(Inst('value' + nm, lambda c, kw=kw: value(c, 40, n, **kw), bounds=f'{n} years'))
    out += [Inst('net', lambda c: net(c, 40, n), bounds=f'{n} years'), Inst('net-select', lambda c: net(c, 40, n, sel=2), bounds=f'{n} years'),
            Inst('given', lambda c: given(c, 40), bounds='5 years, given in two instalments'), Inst('defaults', lambda c: defaults(c, 40), bounds='up to 5 years'), Inst('wide', lambda c: wide(c, 30, 40 if th else 25), bounds='25 years')]
    return out
