"""Doubling the force of interest."""
from .common import *
from actuarialmath import Interest

OUTSIDE = 'several forms given at once'


def forms(c):
    v = c.prob('v', sample=(.7, .99))
    i, d = 1 / v - 1, 1 - v
    f = c.choose('form', ['i', 'd', 'v'])
    x = Interest.double_force(**{f: dict(i=i, d=d, v=v)[f]})
    v2 = v * v
    c.eq(x, dict(i=1 / v2 - 1, d=1 - v2, v=v2)[f], f'double force of {f}')
    r, r2 = Interest(v=v), Interest(**{f: x})
    c.eq(r2.v, r.v ** 2, 'v squared')
    c.eq(1 + r2.i, (1 + r.i) ** 2, '(1+i) squared')
    c.eq(r2.delta, 2 * r.delta, 'delta doubled')
    for t in (1, 3, 20):
        c.eq(r2.v_t(t), r.v_t(t) ** 2, f'v_t({t}) squared', atol=1e-12)
        c.eq(r2.v_t(t), r.v_t(2 * t), f'v_t({t}) at twice the time', atol=1e-12)


def direct(c):
    f = c.choose('form', ['i', 'd', 'v', 'delta'])
    x = c.pos('x', sample=(.01, .3)) if f in ('i', 'delta') else c.prob('x', sample=(.05, .9))
    y = Interest.double_force(**{f: x})
    r, r2 = Interest(**{f: x}), Interest(**{f: y})
    c.eq(r2.v, r.v ** 2, f'v squared ({f})')
    c.eq(r2.delta, 2 * r.delta, f'delta doubled ({f})')
    c.eq(1 - r2.d, (1 - r.d) ** 2, f'(1-d) squared ({f})')
    if f == 'delta':
        c.eq(y, 2 * x, 'force doubled')


def zero(c):
    f = c.choose('form', ['i', 'd', 'delta', 'v'])
    c.eq(Interest.double_force(**{f: 1 if f == 'v' else 0}), 1 if f == 'v' else 0, 'zero force')
    c.fails(lambda: Interest.double_force(), 'no rate')


def twice(c):
    v = c.prob('v', sample=(.7, .99))
    f = c.choose('form', ['i', 'd', 'v', 'delta'])
    x = dict(i=1 / v - 1, d=1 - v, v=v, delta=-math.log(v))[f]
    D = lambda y: Interest.double_force(**{f: y})
    c.eq(D(D(x)), dict(i=v ** -4 - 1, d=1 - v ** 4, v=v ** 4, delta=-4 * math.log(v))[f], f'doubled twice ({f})')


def instances(tier):
    return [Inst('forms', forms), Inst('direct', direct), Inst('zero', zero), Inst('twice', twice)]
