"""Interest-rate forms are equivalent."""
from .common import *
from actuarialmath import Interest, Life, Annuity

OUTSIDE = 'which form wins when several are given at once; negative rates other than a rejected annual rate'


def same_rates(c, r, v, delta, what, short=False):
    i, d = 1 / v - 1, 1 - v
    c.eq(r.i, i, what + ' i')
    c.eq(r.d, d, what + ' d')
    c.eq(r.v, v, what + ' v')
    c.eq(r.delta, delta, what + ' delta')
    c.eq(r.v_t(0), 1, what + ' v_t(0)')
    c.eq(r.v_t(1), v, what + ' v_t(1)')
    if short:
        return
    c.eq(r.v_t(7), v ** 7, what + ' v_t(7)')
    c.eq(r.v_t(-2) * v * v, 1, what + ' v_t(-2)')
    c.eq(r.v_t(60), v ** 60, what + ' v_t(60)', atol=1e-12)
    c.eq(r.v_t(c.const(F(5, 2))), v ** c.const(F(5, 2)), what + ' v_t(2.5)')


def make(c, kind, **kw):
    if kind == 'Interest':
        return Interest(**kw)
    cls = {'Life': Life, 'Annuity': Annuity}[kind]
    life = cls()
    r = life.set_interest(**kw)
    c.true(r is life, 'set_interest returns the life itself')
    return life.interest


def forms(c, ms, kind):
    v = c.prob('v', sample=(.7, .99))
    delta = -_log(v)
    form = c.choose('form', ['i', 'd', 'v', 'i_m', 'd_m'])
    if form in ('i_m', 'd_m'):
        m = c.choose('m', ms)
        x = {'i_m': m * (v ** c.const(F(-1, m)) - 1), 'd_m': m * (1 - v ** c.const(F(1, m)))}[form]
        r = make(c, kind, **{form: x, 'm': m})
        same_rates(c, r, v, delta, f'{form} m={m}', short=m > 12)
    else:
        r = make(c, kind, **{form: dict(i=1 / v - 1, d=1 - v, v=v)[form]})
        same_rates(c, r, v, delta, form)


def direct(c, ms):
    """the m-thly rate itself is the symbol"""
    m = c.choose('m', ms)
    form = c.choose('form', ['i_m', 'd_m', 'i', 'd'])
    if form == 'i_m':
        x = c.pos('i_m', sample=(.01, .3))
        r = Interest(i_m=x, m=m)
        c.eq(1 + r.i, (1 + x / m) ** m, f'i_m m={m}')
    elif form == 'd_m':
        x = c.real('d_m', 0, m, sample=(.01, .3))
        r = Interest(d_m=x, m=m)
        c.eq(1 - r.d, (1 - x / m) ** m, f'd_m m={m}')
    elif form == 'i':
        x = c.pos('i', sample=(.01, .3))
        r = Interest(i=x)
        c.eq(r.d, x / (1 + x), 'd from i')
    else:
        x = c.prob('d', sample=(.01, .3))
        r = Interest(d=x)
        c.eq(r.i, x / (1 - x), 'i from d')
    c.eq((1 + r.i) * r.v, 1, '(1+i)v = 1')
    c.eq(r.d, r.i * r.v, 'd = iv')
    c.eq(r.d, 1 - r.v, 'd = 1-v')
    c.eq(_exp(-r.delta), r.v, 'v = exp(-delta)')
    c.lt(r.d, r.delta, 'd < delta')
    c.lt(r.delta, r.i, 'delta < i')


def force(c):
    delta = c.pos('delta', sample=(.01, .3))
    r = make(c, c.choose('kind', ['Interest', 'Life']), delta=delta)
    same_rates(c, r, _exp(-delta), delta, 'delta')


def zero(c, ms):
    form = c.choose('form', ['i', 'd', 'delta', 'v', 'i_m', 'd_m'])
    kw = {form: 1 if form == 'v' else c.choose('int', [0, 0.0])}
    if form in ('i_m', 'd_m'):
        kw['m'] = c.choose('m', ms)
    r = Interest(**kw)
    t = c.pos('t', sample=(1, 20))
    for got, want in ((r.i, 0), (r.d, 0), (r.delta, 0), (r.v, 1), (r.v_t(5), 1), (r.v_t(t), 1)):
        c.eq(got, want, f'zero rate given as {form}')


def custom(c):
    a = c.pos('a', sample=(.01, .3))
    t = c.pos('t', sample=(1, 20))
    f = lambda t: 1 / (1 + a * t)
    r = make(c, c.choose('kind', ['Interest', 'Life']), v_t=f)
    c.eq(r.v_t(t), 1 / (1 + a * t), 'given discount function')
    c.eq(r.v_t(0), 1, 'given discount function at 0')
    c.fails(lambda: Interest(v_t=lambda t: 1 + a - a * t), 'v_t(0) must be 1')
    c.fails(lambda: Interest(v_t=a), 'v_t must be callable')


def rejects(c):
    x = c.pos('x', sample=(.01, .3))
    c.fails(lambda: Interest(), 'no rate')
    c.fails(lambda: Interest(i=-x), 'negative rate')
    c.fails(lambda: Life().set_interest(), 'no rate')


def monotone(c):
    """discount function is decreasing and multiplicative"""
    i = c.pos('i', sample=(.01, .3))
    r = Interest(i=i)
    t, s = c.choose('t', [0, 1, 2, 9, 33]), c.choose('s', [1, 4, 50])
    c.lt(r.v_t(t + s), r.v_t(t), 'v_t decreases', tol=0)
    c.eq(r.v_t(t + s), r.v_t(t) * r.v_t(s), 'v_t multiplicative', atol=1e-12)
    y = c.pos('y', sample=(.1, 9))
    z = c.pos('z', sample=(.1, 9))
    c.eq(r.v_t(y + z), r.v_t(y) * r.v_t(z), 'v_t multiplicative (real)')
    c.eq(r.v_t(y), _exp(-r.delta * y), 'v_t = exp(-delta t)')


def _log(x):
    return math.log(x)


def _exp(x):
    return math.exp(x)


def instances(tier):
    ms = [1, 2, 3, 4, 6, 12, 52, 365] if tier == 'thorough' else [1, 2, 4, 12, 365]
    return [
        Inst('forms', lambda c: forms(c, ms, 'Interest'), bounds=f'm in {ms}'),
        Inst('forms-life', lambda c: forms(c, [2, 12], 'Life'), bounds='m in 2, 12'),
        Inst('forms-annuity', lambda c: forms(c, [4], 'Annuity'), bounds='m = 4'),
        Inst('direct', lambda c: direct(c, [m for m in ms if m <= 12]), bounds='m <= 12'),
        Inst('force', force), Inst('zero', lambda c: zero(c, ms), bounds=f'm in {ms}'),
        Inst('custom', custom), Inst('rejects', rejects), Inst('monotone', monotone, bounds='t+s up to 83 years'),
    ]
