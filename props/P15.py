"""Expected present values of life annuities."""
from .common import *
from actuarialmath import Annuity, Premiums, PolicyValues, LifeTable

OUTSIDE = 'ages, terms and deferrals other than those listed; continuous mortality other than uniform deaths within each year and constant force'
PRODUCTS = ['whole', 'temp', 'deferred', 'immediate', 'certain', 'inc', 'dec']


def model(c, T, v, cont=False, table=False):
    if table:
        q = {x: 1 - T.p1(x, 0) for x in range(T.x0, T.w)}
        return LifeTable().set_interest(v=v).set_table(q=q, minage=T.x0, maxage=T.w, radix=1000)
    cls = c.choose('class', [Annuity, Premiums]) if T.kind == 'p' and T.sel == 0 else PolicyValues
    return cls().set_interest(v=v).set_survival(S=T.S_udd if cont else T.S, f=T.f_udd if cont else None, minage=0, maxage=T.w)


def ac(v, n):
    return sum((v ** k for k in range(n)), 0)


def epv(c, X, W, ts, us, kind='p', sel=0, ss=(0, 1), v=None, products=PRODUCTS, table=False):
    T = Tab(c, X, W, kind, sel, lo=F(1, 100) if table else 0)
    v = c.prob('v', sample=(.8, .99)) if v is None else v
    V = disc(v)
    b = c.nonneg('b', sample=(1, 50))
    life = model(c, T, v, table=table)
    s, x = c.choose('s', ss), X
    f = c.choose('product', products)
    B = lambda k: b
    if f == 'whole':
        c.eq(life.whole_life_annuity(x, s=s), T.a(V, x, s), 'whole life')
        c.eq(life.whole_life_annuity(x, s=s, b=b), T.a(V, x, s, b=B), 'whole life of b')
    elif f == 'temp':
        t = c.choose('t', ts)
        c.eq(life.temporary_annuity(x, s=s, t=t, b=b), T.a(V, x, s, t=term(t), b=B), f'temporary {t}')
        if t < 0:
            c.eq(life.temporary_annuity(x, s=s), T.a(V, x, s), 'whole life by default')
    elif f == 'deferred':
        t, u = c.choose('t', [t for t in ts if t]), c.choose('u', us)
        c.eq(life.deferred_annuity(x, s=s, t=t, u=u, b=b), T.a(V, x, s, t=term(t), u=u, b=B), f'deferred {u} {t}')
        if t < 0:
            c.eq(life.deferred_annuity(x, s=s, u=u), T.a(V, x, s, u=u), f'deferred {u}, whole life by default')
    elif f == 'immediate':
        t = c.choose('t', ts)
        c.eq(life.immediate_annuity(x, s=s, t=t, b=b), T.a(V, x, s, t=term(t), u=1, b=B) if t else 0, f'immediate {t}')
    elif f == 'certain':
        t, u = c.choose('t', [t for t in ts if t]), c.choose('u', [*us, WHOLE])
        g = u if u >= 0 else W - x - s       # payments guaranteed for life: to the last age
        c.eq(life.certain_life_annuity(x, s=s, u=u, t=t, b=b), b * ac(v, g) + T.a(V, x, s, t=term(t), u=g, b=B), f'certain {u} {t}')
    elif f == 'inc':
        t = c.choose('t', [t for t in ts if t])
        c.eq(life.increasing_annuity(x, s=s, t=t, b=b), T.a(V, x, s, t=term(t), b=lambda k: b * (k + 1)), f'increasing {t}')
    elif f == 'dec':
        t = c.choose('t', [t for t in ts if t > 0])
        c.eq(life.decreasing_annuity(x, s=s, t=t, b=b), T.a(V, x, s, t=t, b=lambda k: b * (t - k)), f'decreasing {t}')


def general(c, X, W, ts, us, kind='p', sel=0, ss=(0, 1)):
    """arbitrary payments, one symbol per year, and an arbitrary discount function"""
    T = Tab(c, X, W, kind, sel)
    n = W - X
    d = {0: c.const(1)}
    for k in range(1, n + 1):
        d[k] = c.prob(f'v{k}', sample=(.3, .95))
    V = lambda t: d[t] if t in d else 0
    ben = {k: c.nonneg(f'b{k}', sample=(1, 9)) for k in range(n)}
    life = Annuity().set_interest(v_t=V).set_survival(S=T.S, minage=0, maxage=W)
    s, t, u, x = c.choose('s', ss), c.choose('t', ts), c.choose('u', us), X
    seen = []

    def b(a, k):
        seen.append(a)
        return ben[k]
    c.eq(life.a_x(x, s=s, t=t, u=u, benefit=b), T.a(V, x, s, t=term(t), u=u, b=lambda k: ben[k]), f'payments s={s} t={t} u={u}')
    c.true(all(a == x + s for a in seen), 'payment is a function of the age and the year')
    c.eq(life.Y_x(x, s=s, t=u), V(u) * T.p(x, s, u), 'EPV of the payment of one year')


def identities(c, X, W, kind='p'):
    T = Tab(c, X, W, kind, c.choose('select', [0, 2]))
    v = c.prob('v', sample=(.8, .99))
    life = Annuity().set_interest(v=v).set_survival(S=T.S, minage=0, maxage=W)
    s, x = c.choose('s', [0, 1]), X
    n = W - X - s
    a = lambda s, **k: life.whole_life_annuity(x, s=s, **k)
    for t in (1, 2, n - 1):
        c.eq(a(s), life.temporary_annuity(x, s=s, t=t) + life.deferred_annuity(x, s=s, u=t), f'whole life split at {t}')
        c.le(life.temporary_annuity(x, s=s, t=t), a(s), f'temporary below whole life {t}')
        c.le(life.temporary_annuity(x, s=s, t=t), ac(v, t), f'life annuity below annuity certain {t}')
        c.le(ac(v, t), life.certain_life_annuity(x, s=s, u=t), f'guarantee {t}')
    c.eq(a(s), 1 + v * life.p_x(x, s=s) * a(s + 1), 'one-year recursion')
    c.eq(a(s), 1 + life.immediate_annuity(x, s=s), 'due and immediate')
    d = 1 - v
    c.eq(life.whole_life_insurance(x, s=s), 1 - d * a(s), 'insurance twin')
    c.eq(life.endowment_insurance(x, s=s, t=2), 1 - d * life.temporary_annuity(x, s=s, t=2), 'endowment twin')


def cont_oracle(T, v, x, s, a, z, b0, b1):
    """integral over (a, z) of (b0 + b1 t) v^t S(t), deaths uniform over each year"""
    d = -math.log(v)
    out = 0
    i0 = (1 - v) / d                                     # int_0^1 v^r
    i1 = (1 - v) / d ** 2 - v / d                        # int_0^1 r v^r
    i2 = 2 * i1 / d - v / d                              # int_0^1 r^2 v^r
    for k in range(int(a), int(min(z, T.w - x - s))):
        p, q, vk = T.p(x, s, k), T.q(x, s, k), v ** k
        c0 = b0 + b1 * k
        out = out + vk * (p * (c0 * i0 + b1 * i1) - q * (c0 * i1 + b1 * i2))
    return out


def cont(c, X, W, kind, ts, us, ss, products):
    T = Tab(c, X, W, kind)
    v = c.prob('v', sample=(.8, .99))
    b = c.nonneg('b', sample=(1, 50))
    life = model(c, T, v, cont=True)
    s, x = c.choose('s', ss), X
    f = c.choose('product', products)
    o = lambda a, z, b0=b, b1=0: cont_oracle(T, v, x, s, a, z, b0, b1)
    D = dict(discrete=False)
    if f == 'whole':
        c.eq(life.whole_life_annuity(x, s=s, b=b, **D), o(0, W), 'whole life')
    elif f == 'temp':
        t = c.choose('t', ts)
        c.eq(life.temporary_annuity(x, s=s, t=t, b=b, **D), o(0, t), f'temporary {t}')
    elif f == 'deferred':
        t, u = c.choose('t', ts), c.choose('u', us)
        c.eq(life.deferred_annuity(x, s=s, t=t, u=u, b=b, **D), o(u, u + t), f'deferred {u} {t}')
    elif f == 'certain':
        t, u = c.choose('t', ts), c.choose('u', us)
        c.eq(life.certain_life_annuity(x, s=s, t=t, u=u, b=b, **D), o(u, u + t) + b * (1 - v ** u) / -math.log(v), f'certain {u} {t}')
    elif f == 'inc':
        t = c.choose('t', ts + [WHOLE])
        c.eq(life.increasing_annuity(x, s=s, t=t, b=b, **D), o(0, W if t < 0 else t, 0, b), f'increasing {t}')
    elif f == 'dec':
        t = c.choose('t', ts)
        c.eq(life.decreasing_annuity(x, s=s, t=t, b=b, **D), o(0, t, b * t, -b), f'decreasing {t}')
    elif f == 'a_x':
        t, u = c.choose('t', ts), c.choose('u', us)
        if x + s + u <= W:
            b1 = c.nonneg('b1', sample=(1, 9))
            c.eq(life.a_x(x, s=s, t=t, u=u, benefit=lambda x, t: b + b1 * t, **D), o(u, u + t, b, b1), f'payments u={u} t={t}')


def force(c):
    """constant force of mortality and of interest"""
    mu, d = c.real('mu', F(1, 1000), 3, sample=(.02, .1)), c.real('delta', F(1, 1000), 3, sample=(.02, .1))
    b = c.nonneg('b', sample=(1, 50))
    how = c.choose('how', ['S', 'mu'])
    kw = dict(S=lambda x, s, t: math.exp(-mu * t)) if how == 'S' else dict(mu=lambda x, s: mu)
    M = 100
    life = Annuity().set_interest(delta=d).set_survival(**kw, minage=0, maxage=M)
    x, s = 30, c.choose('s', [0, 15])
    n = M - x - s
    I = lambda a, z: b / (mu + d) * (math.exp(-(mu + d) * a) - math.exp(-(mu + d) * z))
    D = dict(discrete=False)
    t, u = c.choose('t', [1, 20]), c.choose('u', [1, 20])
    c.eq(life.a_x(x, s=s, benefit=lambda x, t: b, **D), I(0, n), 'whole life')
    c.eq(life.temporary_annuity(x, s=s, t=t, b=b, **D), I(0, t), f'temporary {t}')
    c.eq(life.deferred_annuity(x, s=s, t=t, u=u, b=b, **D), I(u, u + t), f'deferred {t} {u}')
    c.eq(life.increasing_annuity(x, s=s, t=t, b=b, **D),
         b * ((1 - math.exp(-(mu + d) * t)) / (mu + d) ** 2 - t * math.exp(-(mu + d) * t) / (mu + d)), f'increasing {t}')


def zero_cont(c, X, W):
    """no interest: expected number of years alive"""
    T = Tab(c, X, W)
    b = c.nonneg('b', sample=(1, 50))
    life = Annuity().set_interest(i=0).set_survival(S=T.S_udd, f=T.f_udd, minage=0, maxage=W)
    s, t, u = c.choose('s', [0, 1]), c.choose('t', [1, 2, 6]), c.choose('u', [0, 1])
    e = lambda a, z: b * sum(((T.p(X, s, k) + T.p(X, s, k + 1)) * F(1, 2) for k in range(a, min(z, W - X - s))), 0)
    D = dict(discrete=False, b=b)
    c.eq(life.whole_life_annuity(X, s=s, **D), e(0, W), 'whole life')
    c.eq(life.temporary_annuity(X, s=s, t=t, **D), e(0, t), f'temporary {t}')
    c.eq(life.deferred_annuity(X, s=s, t=t, u=u, **D), e(u, u + t), f'deferred {u} {t}')
    c.eq(life.certain_life_annuity(X, s=s, t=t, u=u, **D), b * u + e(u, u + t), f'certain {u} {t}')


def survivors(c, X, W):
    """a model that stops at an age some reach: terms up to that age"""
    T = Tab(c, X, W, 'p', c.choose('select', [0, 2]), alive=True)
    v = c.prob('v', sample=(.8, .99))
    b = c.nonneg('b', sample=(1, 50))
    life = model(c, T, v)
    s, x = c.choose('s', [0, 1]), X
    n = W - X - s
    t, u = c.choose('t', list(range(n + 1))), c.choose('u', [0, 1, 2])
    a = lambda u, t: sum((b * v ** k * T.p(x, s, k) for k in range(u, u + t)), 0)
    c.eq(life.temporary_annuity(x, s=s, t=t, b=b), a(0, t), f'temporary {t}')
    c.eq(life.immediate_annuity(x, s=s, t=t, b=b), a(1, t), f'immediate {t}')
    c.eq(life.a_x(x, s=s, t=t, benefit=lambda x, t: b), a(0, t), f'{t} years from first principles')
    if u + t <= n:
        c.eq(life.deferred_annuity(x, s=s, u=u, t=t, b=b), a(u, t), f'deferred {u} {t}')
        c.eq(life.certain_life_annuity(x, s=s, u=u, t=t, b=b), sum((b * v ** k for k in range(u)), 0) + a(u, t), f'guaranteed {u}, then {t}')
    if t > 0:
        w = n + c.choose('after', [1, 2])
        c.eq(life.deferred_annuity(x, s=s, u=w, t=t, b=b), 0, 'deferred past the last age')
        c.eq(life.certain_life_annuity(x, s=s, u=w, t=t, b=b), sum((b * v ** k for k in range(w)), 0), 'guaranteed past the last age')
    if t > 0:
        c.eq(life.increasing_annuity(x, s=s, t=t, b=b), sum((b * (k + 1) * v ** k * T.p(x, s, k) for k in range(t)), 0), f'increasing {t}')
        c.eq(life.decreasing_annuity(x, s=s, t=t, b=b), sum((b * (t - k) * v ** k * T.p(x, s, k) for k in range(t)), 0), f'decreasing {t}')


def instances(tier):
    th = tier == 'thorough'
    W = 47 if th else 46
    ts, us = [WHOLE, 0, 1, 3, 5, 9], [0, 1, 2, 4, 8]
    out = []
    for f in PRODUCTS:
        P = [f]
        out += [Inst(f'deep-{f}', lambda c, P=P: epv(c, 40, W, ts, us, products=P), bounds=f'{W - 40} ages, all rates', max_paths=600),
                Inst(f'select-{f}', lambda c, P=P: epv(c, 40, W, ts, us, sel=2, ss=(0, 1, 3), products=P), bounds='2 select years', max_paths=600),
                Inst(f'wide-{f}', lambda c, P=P: epv(c, 20, 110, [WHOLE, 10, 40, 95], [0, 10, 30, 70], kind='l', ss=(0, 12), products=P),
                     bounds='90 ages, any lives', max_paths=600),
                Inst(f'zero-{f}', lambda c, P=P: epv(c, 40, 45, ts, us, v=c.const(1), products=P), bounds='no interest', max_paths=600),
                Inst(f'lifetable-{f}', lambda c, P=P: epv(c, 40, 45, ts, us, products=P, table=True), bounds='life table of 5 ages', max_paths=600)]
    for f in ['whole', 'temp', 'deferred', 'certain', 'inc', 'dec', 'a_x']:
        P = [f]
        out += [Inst(f'cont-{f}', lambda c, P=P: cont(c, 40, 44 if not th else 46, 'p', [1, 2, 3, 9], [0, 1, 2], (0, 1), P), max_paths=600, bounds='uniform deaths, 4 ages'),
                Inst(f'cont-l-{f}', lambda c, P=P: cont(c, 40, 48, 'l', [1, 5, 7, 9], [0, 3], (0, 3), P), max_paths=600, bounds='uniform deaths, 8 ages')]
    out += [Inst('survivors', lambda c: survivors(c, 40, 44), max_paths=900, bounds='4 ages, survivors at the last'),
            Inst('general', lambda c: general(c, 40, W, [WHOLE, 0, 1, 3, 9], [0, 1, 3]), bounds='6 ages, arbitrary payments and discount factors'),
            Inst('general-select', lambda c: general(c, 40, W, [WHOLE, 1, 3, 9], [0, 1, 3], sel=2)),
            Inst('general-wide', lambda c: general(c, 30, 70, [WHOLE, 1, 15, 60], [0, 9], kind='l', ss=(0, 5)), bounds='40 ages'),
            Inst('identities', lambda c: identities(c, 40, 45)),
            Inst('force', force, bounds='constant force'), Inst('zero-cont', lambda c: zero_cont(c, 40, 44))]
    return out
