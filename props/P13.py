"""Expected present values of insurances."""
from .common import *
from actuarialmath import Insurance, Annuity, Premiums

OUTSIDE = 'ages, terms and deferrals other than those listed; continuous mortality other than uniform deaths within each year and constant force'
PRODUCTS = ['whole', 'term', 'deferred', 'endow', 'inc', 'dec', 'pure']


def model(c, T, v, cont=False):
    cls = c.choose('class', [Insurance, Premiums]) if T.kind == 'p' and T.sel == 0 else Annuity
    return cls().set_interest(v=v).set_survival(S=T.S_udd if cont else T.S, f=T.f_udd if cont else None, minage=0, maxage=T.w)


def epv(c, X, W, ts, us, kind='p', sel=0, ss=(0, 1), v=None, products=PRODUCTS):
    T = Tab(c, X, W, kind, sel)
    v = c.prob('v', sample=(.8, .99)) if v is None else v
    V = disc(v)
    b = c.nonneg('b', sample=(1, 50))
    life = model(c, T, v)
    s, x = c.choose('s', ss), X
    f = c.choose('product', products)
    ts_ = [t for t in ts if t != 0]
    if f == 'whole':
        c.eq(life.whole_life_insurance(x, s=s), T.A(V, x, s), 'whole life')
        c.eq(life.whole_life_insurance(x, s=s, b=b), T.A(V, x, s, b=lambda k: b), 'whole life of b')
    elif f == 'term':
        t = c.choose('t', ts)
        c.eq(life.term_insurance(x, s=s, t=t), T.A(V, x, s, t=term(t)), f'term {t}')
        c.eq(life.term_insurance(x, s=s, t=t, b=b), T.A(V, x, s, t=term(t), b=lambda k: b), f'term {t} of b')
        if t == 1:
            c.eq(life.term_insurance(x, s=s), v * T.q(x, s), 'one-year term by default')
    elif f == 'deferred':
        t, u = c.choose('t', ts_), c.choose('u', us)
        c.eq(life.deferred_insurance(x, s=s, t=t, u=u, b=b), T.A(V, x, s, t=term(t), u=u, b=lambda k: b), f'deferred {u} {t}')
        if t < 0:
            c.eq(life.deferred_insurance(x, s=s, u=u), T.A(V, x, s, u=u), f'deferred {u}, whole life by default')
    elif f == 'endow':
        t = c.choose('t', ts)
        e = c.nonneg('e', sample=(1, 50))
        c.eq(life.endowment_insurance(x, s=s, t=t, b=b, endowment=e), T.A(V, x, s, t=term(t), b=lambda k: b, e=e), f'endowment {t}')
        c.eq(life.endowment_insurance(x, s=s, t=t, b=b), T.A(V, x, s, t=term(t), b=lambda k: b, e=b), f'endowment {t}, same amount')
        c.eq(life.endowment_insurance(x, s=s, t=t, b=b, endowment=0), T.A(V, x, s, t=term(t), b=lambda k: b), f'endowment {t} of nothing')
    elif f == 'inc':
        t = c.choose('t', ts_)
        c.eq(life.increasing_insurance(x, s=s, t=t, b=b), T.A(V, x, s, t=term(t), b=lambda k: b * k), f'increasing {t}')
    elif f == 'dec':
        t = c.choose('t', [t for t in ts_ if t > 0])
        c.eq(life.decreasing_insurance(x, s=s, t=t, b=b), T.A(V, x, s, t=t, b=lambda k: b * (t + 1 - k)), f'decreasing {t}')
    elif f == 'pure':
        t = c.choose('t', ts)
        e = c.nonneg('e', sample=(1, 50))
        w = 0 if t < 0 else e * v ** t * T.p(x, s, t)
        c.eq(life.E_x(x, s=s, t=t, endowment=e), w, f'pure endowment {t}')
        c.eq(life.E_x(x, s=s, t=t), 0 if t < 0 else v ** t * T.p(x, s, t), f'pure endowment {t} of one')


def general(c, X, W, ts, us, kind='p', sel=0, ss=(0, 1)):
    """arbitrary benefits, one symbol per year, and an arbitrary discount function"""
    T = Tab(c, X, W, kind, sel)
    n = W - X
    d = {0: c.const(1)}
    for k in range(1, n + 1):
        d[k] = c.prob(f'v{k}', sample=(.3, .95))
    V = lambda t: d[t] if t in d else 0
    ben = {k: c.nonneg(f'b{k}', sample=(1, 9)) for k in range(1, n + 1)}
    life = Insurance().set_interest(v_t=V).set_survival(S=T.S, minage=0, maxage=W)
    s, t, u = c.choose('s', ss), c.choose('t', ts), c.choose('u', us)
    x = X
    seen = []

    def b(a, k):
        seen.append(a)
        return ben[k]
    e = c.nonneg('e', sample=(1, 9))
    c.eq(life.A_x(x, s=s, t=t, u=u, benefit=b), T.A(V, x, s, t=term(t), u=u, b=lambda k: ben[k]), f'benefits s={s} t={t} u={u}')
    c.true(all(a == x + s for a in seen), 'benefit is a function of the age and the year')
    if t >= 0 and x + s + t + u <= W:
        c.eq(life.A_x(x, s=s, t=t, u=u, benefit=b, endowment=e), T.A(V, x, s, t=t, u=u, b=lambda k: ben[k], e=e), f'with endowment s={s} t={t} u={u}')
    if t >= 0:
        c.eq(life.E_x(x, s=s, t=t, endowment=e), e * V(t) * T.p(x, s, t), f'pure endowment t={t}')
    c.eq(life.Z_x(x, s=s, t=u), V(u + 1) * T.q(x, s, u), 'EPV of the benefit of one year')


def identities(c, X, W, kind='p'):
    T = Tab(c, X, W, kind, c.choose('select', [0, 2]))
    v = c.prob('v', sample=(.8, .99))
    life = Annuity().set_interest(v=v).set_survival(S=T.S, minage=0, maxage=W)
    s, x = c.choose('s', [0, 1]), X
    n = W - X - s
    A = lambda s, **k: life.whole_life_insurance(x, s=s, **k)
    for t in (1, 2, n - 1):
        c.eq(A(s), life.term_insurance(x, s=s, t=t) + life.deferred_insurance(x, s=s, u=t), f'whole life split at {t}')
        c.eq(life.E_x(x, s=s, t=t), life.endowment_insurance(x, s=s, t=t) - life.term_insurance(x, s=s, t=t), f'endowment split at {t}')
        c.le(life.term_insurance(x, s=s, t=t), A(s), f'term below whole life {t}')
        c.le(A(s), life.endowment_insurance(x, s=s, t=t), f'endowment above whole life {t}')
    c.eq(A(s), v * (life.q_x(x, s=s) + life.p_x(x, s=s) * A(s + 1)), 'one-year recursion')
    c.lt(A(s), v + F(1, 10 ** 12), 'never more than a year of discount')
    c.eq(life.E_x(x, s=s, t=3), life.E_x(x, s=s, t=1) * life.E_x(x, s=s + 1, t=2), 'pure endowments multiply')


# ------------------------------------------------------------------ continuous
def cont_oracle(T, v, x, s, a, z, b0, b1):
    """integral over (a, z) of (b0 + b1 t) v^t f(t), deaths uniform over each year"""
    d = -math.log(v)
    out = 0
    for k in range(int(a), int(min(z, T.w - x - s))):
        q = T.q(x, s, k)
        vk = v ** k
        i0 = (1 - v) / d                                     # int_0^1 v^r
        i1 = (1 - v) / d ** 2 - v / d                        # int_0^1 r v^r
        out = out + q * vk * ((b0 + b1 * k) * i0 + b1 * i1)
    return out


def cont(c, X, W, kind, ts, us, ss):
    T = Tab(c, X, W, kind)
    v = c.prob('v', sample=(.8, .99))
    b = c.nonneg('b', sample=(1, 50))
    life = model(c, T, v, cont=True)
    s, x = c.choose('s', ss), X
    f = c.choose('product', ['whole', 'term', 'deferred', 'endow', 'inc', 'dec', 'A_x'])
    o = lambda a, z, b0=b, b1=0: cont_oracle(T, v, x, s, a, z, b0, b1)
    D = dict(discrete=False)
    if f == 'whole':
        c.eq(life.whole_life_insurance(x, s=s, b=b, **D), o(0, W), 'whole life')
    elif f == 'term':
        t = c.choose('t', ts)
        c.eq(life.term_insurance(x, s=s, t=t, b=b, **D), o(0, t), f'term {t}')
    elif f == 'deferred':
        t, u = c.choose('t', ts), c.choose('u', us)
        c.eq(life.deferred_insurance(x, s=s, t=t, u=u, b=b, **D), o(u, u + t), f'deferred {u} {t}')
    elif f == 'endow':
        t = c.choose('t', ts)
        e = c.nonneg('e', sample=(1, 50))
        c.eq(life.endowment_insurance(x, s=s, t=t, b=b, endowment=e, **D), o(0, t) + e * v ** t * T.p(x, s, t), f'endowment {t}')
    elif f == 'inc':
        t = c.choose('t', ts + [WHOLE])
        c.eq(life.increasing_insurance(x, s=s, t=t, b=b, **D), o(0, W if t < 0 else t, 0, b), f'increasing {t}')
    elif f == 'dec':
        t = c.choose('t', ts)
        c.eq(life.decreasing_insurance(x, s=s, t=t, b=b, **D), o(0, t, b * t, -b), f'decreasing {t}')
    elif f == 'A_x':
        t, u = c.choose('t', ts), c.choose('u', us)
        if x + s + u <= W:
            b1 = c.nonneg('b1', sample=(1, 9))
            c.eq(life.A_x(x, s=s, t=t, u=u, benefit=lambda x, t: b + b1 * t, **D), o(u, u + t, b, b1), f'benefits u={u} t={t}')


def force(c):
    """constant force of mortality, interest force symbolic"""
    mu, d = c.real('mu', F(1, 1000), 3, sample=(.02, .1)), c.real('delta', F(1, 1000), 3, sample=(.02, .1))
    b = c.nonneg('b', sample=(1, 50))
    how = c.choose('how', ['S', 'mu'])
    kw = dict(S=lambda x, s, t: math.exp(-mu * t)) if how == 'S' else dict(mu=lambda x, s: mu)
    M = 100
    life = Insurance().set_interest(delta=d).set_survival(**kw, minage=0, maxage=M)
    x, s = 30, c.choose('s', [0, 15])
    n = M - x - s
    I = lambda a, z: b * mu / (mu + d) * (math.exp(-(mu + d) * a) - math.exp(-(mu + d) * z))
    D = dict(discrete=False)
    t, u = c.choose('t', [1, 20]), c.choose('u', [1, 20])
    c.eq(life.whole_life_insurance(x, s=s, b=b, **D), I(0, n), 'whole life')
    c.eq(life.term_insurance(x, s=s, t=t, b=b, **D), I(0, t), f'term {t}')
    c.eq(life.deferred_insurance(x, s=s, t=t, u=u, b=b, **D), I(u, u + t), f'deferred {u} {t}')
    c.eq(life.endowment_insurance(x, s=s, t=t, b=b, **D), I(0, t) + b * math.exp(-(mu + d) * t), f'endowment {t}')
    c.eq(life.A_x(x, s=s, t=t, u=u, benefit=lambda x, t: b * math.exp(-d * t), **D),
         b * mu / (mu + 2 * d) * (math.exp(-(mu + 2 * d) * u) - math.exp(-(mu + 2 * d) * (u + t))), f'discounted benefits {u} {t}')
    c.eq(life.E_x(x, s=s, t=t), math.exp(-(mu + d) * t), f'pure endowment {t}')


def zero_cont(c, X, W):
    """no interest: the EPV is the probability of death"""
    T = Tab(c, X, W)
    b = c.nonneg('b', sample=(1, 50))
    life = Insurance().set_interest(i=0).set_survival(S=T.S_udd, f=T.f_udd, minage=0, maxage=W)
    s, t = c.choose('s', [0, 1]), c.choose('t', [1, 2])
    for D in (True, False):
        c.eq(life.whole_life_insurance(X, s=s, b=b, discrete=D), b, 'whole life')
        c.eq(life.term_insurance(X, s=s, t=t, b=b, discrete=D), b * (1 - T.p(X, s, t)), f'term {t}')
        c.eq(life.endowment_insurance(X, s=s, t=t, b=b, discrete=D), b, f'endowment {t}')


def rejects(c):
    v = c.prob('v')
    life = Insurance().set_interest(v=v).set_survival(S=lambda x, s, t: v ** t, minage=0, maxage=20)
    c.fails(lambda: life.decreasing_insurance(5, t=WHOLE), 'decreasing insurance needs a term')


def survivors(c, X, W):
    """a model that stops at an age some reach: terms up to that age, and longer terms cut to it"""
    T = Tab(c, X, W, 'p', c.choose('select', [0, 2]), alive=True)
    v = c.prob('v', sample=(.8, .99))
    V = disc(v)
    b, e = c.nonneg('b', sample=(1, 50)), c.nonneg('e', sample=(1, 50))
    disc_ = c.choose('discrete', [True, False])
    life = model(c, T, v, cont=not disc_)
    s, x = c.choose('s', [0, 1]), X
    n = W - X - s
    t = c.choose('t', list(range(n + 1)) + [n + 4, WHOLE])
    m = n if t < 0 else min(t, n)
    P = v ** m * T.p(x, s, m)
    D = dict(discrete=disc_)
    A = T.A(V, x, s, t=m, b=lambda k: b) if disc_ else cont_oracle(T, v, x, s, 0, m, b, 0)
    A2 = T.A(V, x, s, t=m, b=lambda k: b, m=2) if disc_ else cont_oracle(T, v * v, x, s, 0, m, b * b, 0)
    c.eq(life.term_insurance(x, s=s, t=t, b=b, **D), A, f'term {t}')
    c.eq(life.term_insurance(x, s=s, t=t, b=b, moment=2, **D), A2, f'second moment, term {t}')
    c.eq(life.A_x(x, s=s, t=t, benefit=lambda x, t: b, **D), A, f'insurance of {t} years from first principles')
    if t >= 0:
        c.eq(life.E_x(x, s=s, t=t, endowment=e), e * P, f'pure endowment {t}')
        c.eq(life.E_x(x, s=s, t=t, endowment=e, moment=2), e * e * v ** m * P, f'second moment, pure endowment {t}')
        c.eq(life.endowment_insurance(x, s=s, t=t, b=b, endowment=e, **D), A + e * P, f'endowment {t}')
        c.eq(life.endowment_insurance(x, s=s, t=t, b=b, endowment=e, moment=2, **D), A2 + e * e * v ** m * P, f'second moment, endowment {t}')
        u = c.choose('u', [0, 1, 2])
        if u + t <= n and t > 0:
            B = T.A(V, x, s, t=t, u=u, b=lambda k: b) if disc_ else cont_oracle(T, v, x, s, u, u + t, b, 0)
            c.eq(life.deferred_insurance(x, s=s, t=t, u=u, b=b, **D), B, f'deferred {u} {t}')
    else:
        c.eq(life.whole_life_insurance(x, s=s, b=b, **D), A, 'whole life')
        c.eq(life.deferred_insurance(x, s=s, t=c.choose('years', [WHOLE, 1, 2]), u=n + c.choose('after', [1, 2]), b=b, **D), 0, 'deferred past the last age')


def instances(tier):
    th = tier == 'thorough'
    W = 47 if th else 46
    ts, us = [WHOLE, 0, 1, 3, 5, 9], [0, 1, 2, 4, 8]
    out = []
    for f in PRODUCTS:
        P = [f]
        out += [Inst(f'deep-{f}', lambda c, P=P: epv(c, 40, W, ts, us, products=P), bounds=f'{W - 40} ages, all rates', max_paths=600),
                Inst(f'select-{f}', lambda c, P=P: epv(c, 40, W, ts, us, sel=2, ss=(0, 1, 3), products=P), bounds=f'{W - 40} ages, 2 select years', max_paths=600),
                Inst(f'wide-{f}', lambda c, P=P: epv(c, 20, 110, [WHOLE, 10, 40, 95], [0, 10, 30, 70], kind='l', ss=(0, 12), products=P),
                     bounds='90 ages, any lives', max_paths=600),
                Inst(f'zero-{f}', lambda c, P=P: epv(c, 40, 45, ts, us, v=c.const(1), products=P), bounds='no interest', max_paths=600)]
    out += [Inst('survivors', lambda c: survivors(c, 40, 44), max_paths=900, bounds='4 ages, survivors at the last'),
            Inst('newborn', lambda c: epv(c, 0, 60, [WHOLE, 1, 20], [0, 7], kind='l', ss=(0,)), bounds='60 ages'),
            Inst('general', lambda c: general(c, 40, W, [WHOLE, 0, 1, 3, 9], [0, 1, 3]), bounds='6 ages, arbitrary benefits and discount factors'),
            Inst('general-select', lambda c: general(c, 40, W, [WHOLE, 1, 3, 9], [0, 1, 3], sel=2)),
            Inst('general-wide', lambda c: general(c, 30, 70, [WHOLE, 1, 15, 60], [0, 9], kind='l', ss=(0, 5)), bounds='40 ages'),
            Inst('identities', lambda c: identities(c, 40, 45)),
            Inst('cont', lambda c: cont(c, 40, 44 if not th else 46, 'p', [1, 2, 3, 9], [0, 1, 2], (0, 1)), max_paths=600, bounds='uniform deaths, 4 ages'),
            Inst('cont-l', lambda c: cont(c, 40, 48, 'l', [1, 5, 7, 9], [0, 3], (0, 3)), max_paths=600, bounds='uniform deaths, 8 ages'),
            Inst('force', force, bounds='constant force'), Inst('zero-cont', lambda c: zero_cont(c, 40, 44)), Inst('rejects', rejects)]
    return out
