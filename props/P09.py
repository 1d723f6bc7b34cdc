"""Fractional ages: uniform deaths or constant force within each year of age."""
from .common import *
from actuarialmath import Fractional, LifeTable, Annuity

OUTSIDE = ('force of mortality exactly at integer ages (the code then reports that of the underlying model); '
           'one-year survival probabilities below 1e-3 (the code floors those below 1e-5); durations over 4 years')


LO = F(1, 1000)      # the code floors one-year survival at 1e-5


def lives(T, X, s, udd):
    """number of lives at fractional duration, relative to duration s"""
    def L(r):
        k = math.floor(r)
        f = r - k
        a, b = T.p(X, s, k), T.p(X, s, k + 1)
        if udd:
            return a * (1 - f) + b * f
        if isinstance(b, int) and b == 0:
            return 0
        return a * (b / a) ** f
    return L


def dens(T, X, s, udd):
    """rate of decrease of the lives"""
    def D(r):
        k = math.floor(r)
        f = r - k
        a, b = T.p(X, s, k), T.p(X, s, k + 1)
        if udd:
            return a - b
        return a * (b / a) ** f * (math.log(a) - math.log(b))
    return D


def setup(c, X, W, kind, sel, udd):
    T = Tab(c, X, W, 'p', sel, alive=True, lo=LO)
    how = kind
    cls = c.choose('class', [Fractional, Annuity])
    kw = dict(S=T.S) if how == 'p' else dict(l=lambda x, s: c.pos('radix') * T.p(X, 0, x + s - X))
    life = cls(udd=udd).set_survival(**kw, minage=X - 2 if sel else X, maxage=W)
    return T, life


def open_(c, *ys):
    """stay off integer ages (covered by 'whole' and 'within')"""
    for y in ys:
        c.assume(y - math.floor(y) > 0)


def frac(c, udd, kind, sel, R, U, ss, f):
    X = 40
    T, life = setup(c, X, X + 12, kind, sel, udd)
    s = c.choose('s', ss)
    L, D = lives(T, X, s, udd), dens(T, X, s, udd)
    z = lambda n, o: c.choose(n + '0', o) + c.real(n, 0, 1)
    r = z('r', R)
    if f == 'p':
        t = z('t', R)
        open_(c, r + t)
        c.eq(life.p_r(X, s=s, r=r, t=t), L(r + t) / L(r), 'survival probability')
        c.eq(life.p_r(X, s=s, r=r, t=t) * life.p_r(X, s=s, r=r + t, t=1), life.p_r(X, s=s, r=r, t=t + 1), 'survival multiplies')
    elif f == 'q':
        t = z('t', U)
        u = c.choose('u0', U)
        if u > 0:
            u = u - 1 + c.real('u', 0, 1, lo_open=False)
        open_(c, r + u, r + u + t)
        c.eq(life.q_r(X, s=s, r=r, t=t, u=u), (L(r + u) - L(r + u + t)) / L(r), 'deferred mortality')
        c.eq(life.q_r(X, s=s, r=r, t=t), 1 - life.p_r(X, s=s, r=r, t=t), 'p + q = 1')
    elif f == 'mu':
        c.eq(life.mu_r(X, s=s, r=r), D(r) / L(r), 'force of mortality')
        if not sel:
            c.eq(life.l_r(X, s=s, r=r) / life.l_x(X, s=s), L(r), 'lives')
    elif f == 'f':
        t = z('t', R)
        open_(c, r + t)
        c.eq(life.f_r(X, s=s, r=r, t=t), D(r + t) / L(r), 'lifetime density')
    elif f == 'E':
        t = z('t', R)
        open_(c, r + t)
        v = c.prob('v', sample=(.8, .99))
        life.set_interest(v=v)
        c.eq(life.E_r(X, s=s, r=r, t=t), L(r + t) / L(r) * v ** t, 'pure endowment')


def whole(c, udd, kind, sel):
    """at whole years the fractional functions equal the table itself"""
    X = 40
    T, life = setup(c, X, X + 12, kind, sel, udd)
    s, r, t, u = c.choose('s', [0, 1]), c.choose('r', [0, 1, 3]), c.choose('t', [0, 1, 2]), c.choose('u', [0, 1, 4])
    c.eq(life.p_r(X, s=s, r=r, t=t), T.p(X, s + r, t) , 'p')
    c.eq(life.q_r(X, s=s, r=r, t=t, u=u), T.p(X, s + r, u) - T.p(X, s + r, u + t), 'q')
    if not sel:
        c.eq(life.l_r(X, s=s, r=r), life.l_x(X, s=s + r), 'l')
    v = c.prob('v', sample=(.8, .99))
    life.set_interest(v=v)
    c.eq(life.E_r(X, s=s, r=r, t=t), T.p(X, s + r, t) * v ** t, 'pure endowment')
    if not udd or r or t == 0:
        k = r + t
        D = T.p(X, s, k) - T.p(X, s, k + 1) if udd else -T.p(X, s, k) * math.log(T.p(X, s + k, 1))
        if t != 1:
            c.eq(life.f_r(X, s=s, r=r, t=t), D / T.p(X, s, r), 'density')


def within(c, udd, sel):
    """fractions adding up to exactly one year, or lying within it"""
    X = 40
    T, life = setup(c, X, X + 12, 'p', sel, udd)
    s, k = c.choose('s', [0, 1]), c.choose('k', [0, 2])
    L = lives(T, X, s + k, udd)
    r = c.real('r', 0, 1, lo_open=False)
    part = c.choose('part', ['exact', 'inner', 'deferred'])
    if part == 'exact':
        c.eq(life.p_r(X, s=s, r=k + r, t=1 - r), L(1) / L(r), 'to the end of the year')
        c.eq(life.q_r(X, s=s, r=k + r, t=1 - r), 1 - L(1) / L(r), 'deaths to the end of the year')
    elif part == 'inner':
        h = c.real('h', 0, 1, lo_open=False)
        c.assume(r + h < 1)
        c.eq(life.p_r(X, s=s, r=k + r, t=h), L(r + h) / L(r), 'within the year')
        c.eq(life.q_r(X, s=s, r=k + r, t=h), 1 - L(r + h) / L(r), 'deaths within the year')
    else:
        h, u = c.real('h', 0, 1, lo_open=False), c.real('u', 0, 1, lo_open=False)
        c.assume(r + h + u < 1)
        c.eq(life.q_r(X, s=s, r=k + r, t=h, u=u), (L(r + u) - L(r + u + h)) / L(r), 'deferred within the year')


def expect(c, udd, sel, n, X=40):
    """expected lifetime limited to any (fractional) number of years"""
    T, life = setup(c, X, X + 12, 'p', sel, udd)
    s, k = c.choose('s', [0, 1]), c.choose('k', list(range(n)))
    h = c.real('h', 0, 1, hi_open=False, lo_open=False)
    t = k + h
    out = 0
    for j in range(k + 1):
        a, b = T.p(X, s, j), T.p(X, s, j + 1)
        w = h if j == k else 1
        if udd:
            out = out + a * w - (a - b) * w * w / 2
        else:
            m = math.log(a) - math.log(b)
            out = out + a * (1 - (b / a) ** w) / m
    c.eq(life.e_r(X, s=s, t=t), out, f'expectation limited to {k}+h years')
    c.eq(life.e_r(X, s=s, t=0), 0, 'no time, no expectation')


def expect_whole(c, udd, W):
    X = 40
    T = Tab(c, X, W, 'p', alive=not udd, lo=LO)
    life = Fractional(udd=udd).set_survival(S=T.S, minage=X, maxage=W)
    s = c.choose('s', [0, 2])
    out = 0
    for j in range(W - X - s):
        a, b = T.p(X, s, j), T.p(X, s, j + 1)
        out = out + ((a + b) / 2 if udd else (a - b) / (math.log(a) - math.log(b)))
    c.eq(life.e_r(X, s=s), out, 'complete expectation')


def nodeaths(c):
    """a year in which nobody dies"""
    q = c.prob('q')
    for udd in (True, False):
        life = Fractional(udd=udd).set_survival(l=lambda x, s: 1 if x + s < 52 else 1 - q if x + s < 53 else (1 - q) ** 2, maxage=60)
        h = c.real('h', 0, 1, lo_open=False)
        c.eq(life.e_r(50, t=h), h, 'nobody dies')
        c.eq(life.e_r(50, t=1), 1, 'nobody dies, one year')
        c.eq(life.p_r(50, t=h), 1, 'certain survival')
        c.eq(life.q_r(50, r=h, t=1 - h), 0, 'no deaths')
        c.eq(life.f_r(50, t=h), 0, 'no density')


def tables(c, udd, sel_s):
    """life tables, including the survival function at fractional durations"""
    X, W = 60, 66
    T = Tab(c, X, W + 2, 'p', alive=True, lo=LO)
    life = LifeTable(udd=udd).set_table(l={a: 1000 * T.p(X, 0, a - X) for a in range(X, W + 2)}, maxage=W + 1)
    s, k, n = c.choose('s', [0, 1]), c.choose('k', [0, 1]), c.choose('n', [0, 1, 2])
    r, t = k + c.real('r', 0, 1, lo_open=False), n + c.real('t', 0, 1)
    L, D = lives(T, X, s, udd), dens(T, X, s, udd)
    open_(c, r + t)
    c.eq(life.p_r(X, s=s, r=r, t=t), L(r + t) / L(r), 'p')
    c.eq(life.q_r(X, s=s, r=r, t=t), 1 - L(r + t) / L(r), 'q')
    c.eq(life.S(X, s, t), L(t), 'survival function')
    c.eq(life.f(X, s, t), D(t), 'density function')
    c.eq(life.mu(X, s + t), D(t) / L(t), 'force function')
    c.eq(life.l(X, s + t), 1000 * L(t) * T.p(X, 0, s), 'lives function')


def approx(c):
    e = c.pos('e', sample=(1, 50))
    f = Fractional.e_approximate
    c.eq(f(e_complete=e), e - F(1, 2), 'curtate from complete')
    c.eq(f(e_curtate=e), e + F(1, 2), 'complete from curtate')
    c.eq(f(e_complete=e, variance=True), e - c.const(F(1, 12)), 'curtate variance')
    c.eq(f(e_curtate=e, variance=True), e + c.const(F(1, 12)), 'complete variance')
    c.fails(lambda: f(), 'nothing given')
    c.fails(lambda: f(e_complete=e, e_curtate=e), 'both given')


def rejects(c):
    T, life = setup(c, 40, 52, 'p', 0, True)
    life.set_interest(i=.05)
    e = c.pos('e', sample=(.1, 1))
    for n in ('l_r', 'p_r', 'q_r', 'mu_r', 'f_r', 'E_r'):
        g = getattr(life, n)
        c.fails(lambda: g(40, r=-e), n + ' negative fraction')
        c.fails(lambda: g(-1), n + ' negative age')
        c.fails(lambda: g(40, s=-1), n + ' negative duration')
    for n in ('p_r', 'q_r', 'f_r', 'E_r'):
        g = getattr(life, n)
        c.fails(lambda: g(40, t=-e), n + ' negative time')


def instances(tier):
    th = tier == 'thorough'
    out = []
    R, U = ([0, 1, 2], [0, 1]) if not th else ([0, 1, 2, 3], [0, 1, 2])
    for udd in (True, False):
        n = 'udd' if udd else 'cfm'
        for kind, sel in (('p', 0), ('p', 2), ('l', 0)):
            for f in ('p', 'q', 'mu', 'f', 'E'):
                out.append(Inst(f'{n}-{f}-{kind}{sel}', lambda c, udd=udd, kind=kind, sel=sel, f=f: frac(
                    c, udd, kind, sel, R, U, [0, 1] if f != 'q' else [1], f), max_paths=1500,
                    bounds='fractions symbolic in (0,1), whole years below 4'))
            out.append(Inst(f'{n}-whole-{kind}{sel}', lambda c, udd=udd, kind=kind, sel=sel: whole(c, udd, kind, sel), max_paths=600))
        for sel in (0, 2):
            out.append(Inst(f'{n}-within{sel}', lambda c, udd=udd, sel=sel: within(c, udd, sel)))
            out.append(Inst(f'{n}-expect{sel}', lambda c, udd=udd, sel=sel: expect(c, udd, sel, 4 if not th else 6)))
        out.append(Inst(f'{n}-expect-newborn', lambda c, udd=udd: expect(c, udd, 0, 2, 0)))
        out.append(Inst(f'{n}-expect-whole', lambda c, udd=udd: expect_whole(c, udd, 46)))
        out.append(Inst(f'{n}-tables', lambda c, udd=udd: tables(c, udd, 0)))
    return out + [Inst('nodeaths', nodeaths), Inst('approx', approx), Inst('rejects', rejects)]
