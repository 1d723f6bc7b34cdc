"""Interim reserves between anniversaries."""
from .common import *
from .P23 import setup
from actuarialmath import Reserves, LifeTable

OUTSIDE = 'durations other than those listed; reserves of an age that nobody survives'


def interim(c, X, udd, sel=0, table=False, zero=False):
    T = Tab(c, X, X + (6 if table else 60), 'p', sel, alive=not table, lo=F(1, 100))
    v = c.const(1) if zero else c.prob('v', sample=(.8, .97))
    if table:
        q = {x: 1 - T.p1(x, 0) for x in range(X, X + 6)}
        life = LifeTable(udd=udd).set_interest(v=v).set_table(q=q, minage=X, maxage=X + 6, radix=1000)
    else:
        life = Reserves(udd=udd).set_interest(i=1 / v - 1).set_survival(S=T.S, minage=0, maxage=X + 60)
    k = c.choose('years', [0, 1, 3])
    r = c.real('r', 0, 1, sample=(.1, .9))
    P, b = c.real('P', 0, 500, sample=(1, 20), lo_open=False), c.choose('benefit', [0, 'b', None])
    V0 = c.real('V0', -1000, 5000, sample=(10, 50))
    kw = {} if b is None else dict(benefit=c.real('b', 0, 5000, sample=(10, 500), lo_open=False) if b else 0)
    B = 1 if b is None else kw['benefit']
    p = T.p(X, k, 1)
    pr = 1 - (1 - p) * r if udd else p ** r         # survive the part of the year gone by
    pw = dict(premium=P) if c.choose('premium', [1, 0]) else {}
    P = P if pw else 0
    which = c.choose('which', ['forward', 'backward', 'both', 'unknown', 'whole'])
    where = c.choose('where', [(0, k), (k, 0)])     # years counted in s or in r
    at = lambda r: dict(s=where[0], r=where[1] + r)
    if k == 0:
        V0 = 0      # nil at issue
    if which == 'forward':
        life.set_reserves(T=50, V={k: V0, k + 2: 5})
        got = life.r_V_forward(X, **at(r), **kw, **pw)
        # reserve at the start with premium = reserves of survivors, and claims of those who die in between, paid at the end of the year
        c.eq((V0 + P), pr * got * v ** r + (1 - pr) * B * v, f'{k}')
    elif which == 'backward':
        V1 = c.real('V1', -1000, 5000, sample=(10, 50))
        life.set_reserves(T=50, V={k + 1: V1})
        got = life.r_V_backward(X, **at(r), **kw)
        c.eq(got * pr, v ** (1 - r) * (p * V1 + (pr - p) * B), f'{k}')
    elif which == 'both':       # agree when the year's reserves satisfy the recursion
        V1 = ((V0 + P) / v - (1 - p) * B) / p
        life.set_reserves(T=50, V={k: V0, k + 1: V1})
        c.eq(life.r_V_forward(X, **at(r), **kw, **pw), life.r_V_backward(X, **at(r), **kw), f'{k}')
    elif which == 'unknown':
        life.set_reserves(T=50, V={k + 3: V0})
        if k:
            c.true(life.r_V_forward(X, **at(r), **kw, **pw) is None, 'no reserve at the start of the year')
        c.true(life.r_V_backward(X, **at(r), **kw) is None, 'no reserve at the end of the year')
    else:
        life.set_reserves(T=50, V={k: V0, k + 1: V0 + 7})
        c.eq(life.r_V_forward(X, **at(0), **kw, **pw), V0 + P, 'just after the premium')
        c.eq(life.r_V_backward(X, **at(0), **kw), v * (p * (V0 + 7) + (1 - p) * B), 'start of the year')


def instances(tier):
    out = []
    for udd in (True, False):
        z = 'udd' if udd else 'cfm'
        for nm, kw in (('', {}), ('-select', dict(sel=3)), ('-lifetable', dict(table=True)), ('-zero', dict(zero=True))):
            out.append(Inst(z + nm, lambda c, udd=udd, kw=kw: interim(c, 40, udd, **kw), max_paths=3000, bounds='durations 0 to 4'))
    return out
