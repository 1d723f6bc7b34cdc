"""Annual and m-thly rates convert into each other consistently."""
from .common import *
from actuarialmath import Interest

OUTSIDE = 'payment frequencies other than those listed'


def conv(c, ms):
    v = c.prob('v', sample=(.7, .99))
    m = c.choose('m', ms)
    i, d = 1 / v - 1, 1 - v
    im, dm = m * (v ** c.const(F(-1, m)) - 1), m * (1 - v ** c.const(F(1, m)))
    c.eq(Interest.mthly(m=m, i=i), im, f'i -> i({m})')
    c.eq(Interest.mthly(m=m, d=d), dm, f'd -> d({m})')
    c.eq(Interest.mthly(m=m, i_m=im), i, f'i({m}) -> i')
    c.eq(Interest.mthly(m=m, d_m=dm), d, f'd({m}) -> d')
    r = Interest(i=i)
    a, b = r.mthly(m=m, i=r.i), r.mthly(m=m, d=r.d)
    c.eq(b, a / (1 + a / m), 'd(m) = i(m)/(1+i(m)/m)')
    c.eq((1 + a / m) * (1 - b / m), 1, '(1+i(m)/m)(1-d(m)/m) = 1')


def roundtrip(c, ms):
    m = c.choose('m', ms)
    f = c.choose('form', ['i', 'd', 'i_m', 'd_m'])
    x = c.pos('x', sample=(.01, .3)) if f in ('i', 'i_m') else c.real('x', 0, 1 if f == 'd' else m, sample=(.01, .3))
    y = Interest.mthly(m=m, **{f: x})
    g = {'i': 'i_m', 'i_m': 'i', 'd': 'd_m', 'd_m': 'd'}[f]
    c.eq(Interest.mthly(m=m, **{g: y}), x, f'{f} -> {g} -> {f}, m={m}')


def order(c, ms):
    """d < d(m) < d(2m) < delta < i(2m) < i(m) < i"""
    m = c.choose('m', ms)
    w = c.prob('v', sample=(.7, .99))
    i, d = 1 / w - 1, 1 - w
    M = Interest.mthly
    c.lt(M(m=2 * m, i=i), M(m=m, i=i), f'i({2*m}) < i({m})')
    c.lt(M(m=m, d=d), M(m=2 * m, d=d), f'd({m}) < d({2*m})')
    c.lt(M(m=m, d=d), M(m=m, i=i), f'd({m}) < i({m})')
    if m > 1:
        c.lt(M(m=m, i=i), i, f'i({m}) < i')
        c.lt(d, M(m=m, d=d), f'd < d({m})')
    else:
        c.eq(M(m=1, i=i), i, 'i(1) = i')
        c.eq(M(m=1, d=d), d, 'd(1) = d')


def limit(c):
    v = c.prob('v', sample=(.7, .99))
    delta = -math.log(v)
    c.eq(Interest.mthly(m=0, i=1 / v - 1), delta, 'continuous limit of i(m)')
    c.eq(Interest.mthly(m=0, d=1 - v), delta, 'continuous limit of d(m)')
    c.lt(Interest.mthly(m=0, i=1 / v - 1), Interest.mthly(m=4, i=1 / v - 1), 'delta < i(4)')
    c.lt(Interest.mthly(m=4, d=1 - v), Interest.mthly(m=0, d=1 - v), 'd(4) < delta')


def zero(c, ms):
    m = c.choose('m', ms)
    f = c.choose('form', ['i', 'd', 'i_m', 'd_m'])
    c.eq(Interest.mthly(m=m, **{f: c.choose('z', [0, 0.0])}), 0, 'zero converts to zero')


def rejects(c):
    x = c.pos('x', sample=(.01, .3))
    c.fails(lambda: Interest.mthly(m=12), 'no rate given')
    c.fails(lambda: Interest.mthly(m=-1, i=x), 'negative frequency')


def instances(tier):
    ms = [1, 2, 3, 4, 6, 12, 24, 52, 365] if tier == 'thorough' else [1, 2, 3, 4, 6, 12, 52, 365]
    small = [m for m in ms if m <= 12]
    return [Inst('conv', lambda c: conv(c, ms), bounds=f'm in {ms}'),
            Inst('roundtrip', lambda c: roundtrip(c, small), bounds=f'm in {small}'),
            Inst('order', lambda c: order(c, [1, 2, 3, 4, 6]), bounds='m in 1,2,3,4,6 (against 2m)'),
            Inst('limit', limit), Inst('zero', lambda c: zero(c, ms), bounds=f'm in {ms}'), Inst('rejects', rejects)]
