"""Annuities certain equal the sum of their discounted payments."""
from .common import *
from actuarialmath import Interest

OUTSIDE = 'terms and frequencies other than those listed'


def pv(v, t, m, due, c):
    out = 0
    for k in range(int(t * m)):
        out = out + v ** c.const(F(k if due else k + 1, m)) / m
    return out


def summed(c, ts, ms):
    v = c.prob('v', sample=(.7, .99))
    r = Interest(**{(f := c.choose('form', ['v', 'i', 'd'])): dict(v=v, i=1 / v - 1, d=1 - v)[f]})
    t, m, due = c.choose('t', ts), c.choose('m', ms), c.choose('due', [True, False])
    c.eq(r.annuity(t=t, m=m, due=due), pv(v, t, m, due, c), f'annuity certain t={t} m={m} due={due}')
    if m > 1:       # and any number of m-ths of a year
        h = F(c.choose('part', [1, m - 1]), m) + t
        c.eq(r.annuity(t=c.const(h), m=m, due=due), pv(v, h, m, due, c), f'annuity certain t={h} m={m} due={due}')


def long(c, ts):
    """telescoping: a(t+1) - a(t) is the one payment in between"""
    v = c.prob('v', sample=(.9, .99))
    r = Interest(v=v)
    t, m, due = c.choose('t', ts), c.choose('m', [1, 4, 12]), c.choose('due', [True, False])
    y = pv(v, 1, m, due, c)
    c.eq(r.annuity(t=t + 1, m=m, due=due) - r.annuity(t=t, m=m, due=due), v ** t * y, f'year {t}')
    c.eq(r.annuity(t=0, m=m, due=due), 0, 'no payments')


def cont(c, ts):
    delta = c.pos('delta', sample=(.01, .2))
    r = Interest(delta=delta)
    t = c.choose('t', ts)
    T = c.pos('T', sample=(1, 30))
    c.eq(r.annuity(t=t, m=0) * delta, 1 - math.exp(-delta * t), f'continuous t={t}')
    c.eq(r.annuity(t=T, m=0) * delta, 1 - math.exp(-delta * T), 'continuous, any term')
    c.eq(r.annuity(t=T, m=0, due=False), r.annuity(t=T, m=0, due=True), 'due and immediate coincide')


def perp(c, ms):
    v = c.prob('v', sample=(.7, .99))
    r = Interest(v=v)
    m, due, t = c.choose('m', ms), c.choose('due', [True, False]), c.choose('t', [1, 7])
    p = r.annuity(m=m, due=due)
    c.eq(p, r.annuity(t=t, m=m, due=due) + v ** t * p, 'perpetuity = term + deferred perpetuity')
    c.lt(r.annuity(t=t, m=m, due=due), p, 'perpetuity is larger')
    c.eq(r.annuity(t=-999, m=m, due=due), p, 'whole life term means perpetuity')


def rel(c, ms):
    v = c.prob('v', sample=(.7, .99))
    r = Interest(v=v)
    m, t = c.choose('m', ms), c.choose('t', [1, 5])
    dd, im = r.annuity(t=t, m=m), r.annuity(t=t, m=m, due=False)
    c.eq(im, v ** c.const(F(1, m)) * dd, 'immediate = due discounted one period')
    c.eq(dd - im, (1 - v ** t) / m, 'due - immediate')


def zero(c, ms):
    r = Interest(**c.choose('form', [dict(i=0), dict(d=0), dict(delta=0), dict(v=1)]))
    m, due, t = c.choose('m', [0] + ms), c.choose('due', [True, False]), c.choose('t', [0, 1, 6, 40])
    c.eq(r.annuity(t=t, m=m, due=due), t, 'zero interest: total of the payments')


def instances(tier):
    ms = [1, 2, 4, 12] if tier == 'quick' else [1, 2, 3, 4, 6, 12, 52]
    ts = [1, 2, 3, 5, 10] if tier == 'quick' else [1, 2, 3, 4, 5, 6, 7, 8, 10, 15, 25]
    return [Inst('summed', lambda c: summed(c, ts, ms), bounds=f't in {ts}, m in {ms}'),
            Inst('step', lambda c: long(c, [0, 1, 7, 30, 80]), bounds='t up to 80'),
            Inst('continuous', lambda c: cont(c, [0, 1, 12, 50])), Inst('perpetuity', lambda c: perp(c, ms)),
            Inst('relations', lambda c: rel(c, ms)), Inst('zero', lambda c: zero(c, ms)),
            Inst('rejects', lambda c: c.fails(lambda: Interest(i=.05).annuity(t=3, m=-1), 'negative frequency'))]
