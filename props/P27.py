"""Closed forms of the mortality laws against first principles."""
from .common import *
from .P15 import ac
from actuarialmath import Beta, Uniform, Makeham, Gompertz

OUTSIDE = 'zero interest for continuous insurances under uniform deaths; convergence of numerical integration; oldest ages other than those listed'


class Law:
    def __init__(self, c, fam):
        self.c, self.fam = c, fam
        if fam in ('beta', 'uniform'):
            self.w = c.choose('omega', [60, 100])
            self.al = c.real('alpha', F(1, 20), 10, sample=(.3, 2)) if fam == 'beta' else 1
        else:
            self.B, self.k = c.real('B', F(1, 100000), F(5, 10000), sample=(.0001, .0005)), c.real('c', F(102, 100), F(112, 100), sample=(1.03, 1.1))
            self.A = c.real('A', 0, F(1, 10), sample=(.001, .05), lo_open=False) if fam == 'makeham' else 0
            if fam == 'makeham-neg':       # the law allows A >= -B
                self.A = -self.B * c.real('share', 0, 1, lo_open=False, sample=(.1, .9))

    def life(self, **kw):
        f = self.fam
        if f == 'uniform':
            return Uniform(omega=self.w, **kw)
        if f == 'beta':
            return Beta(omega=self.w, alpha=self.al, **kw)
        if f.startswith('makeham'):
            return Makeham(A=self.A, B=self.B, c=self.k, **kw)
        return Gompertz(B=self.B, c=self.k, **kw)

    def mu(self, a):
        if self.fam in ('beta', 'uniform'):
            return self.al / (self.w - a)
        return self.A + self.B * self.k ** a

    def S(self, a, t):
        if self.fam in ('beta', 'uniform'):
            return ((self.w - a - t) / (self.w - a)) ** self.al
        return math.exp(-self.A * t - self.B / math.log(self.k) * (self.k ** (a + t) - self.k ** a))


def functions(c, fam):
    """all survival functions, whole and fractional ages"""
    L = Law(c, fam)
    life = L.life()
    x, s = c.choose('x', [0, 20, 35]), c.choose('s', [0, 4])
    r, t, u = c.real('r', 0, 1, sample=(.1, .9), lo_open=False), c.real('t', 0, 10, sample=(.1, 9), lo_open=False), c.real('u', 0, 5, sample=(.1, 4), lo_open=False)
    a = x + s
    what = c.choose('what', ['whole', 'fraction', 'years'])
    if what == 'whole':
        c.eq(life.S(x, s, t), L.S(a, t), 'survival function')
        c.eq(life.p_x(x, s=s, t=t), L.S(a, t), 'p')
        c.eq(life.q_x(x, s=s, t=t, u=u), L.S(a, u) - L.S(a, t + u), 'q')
        c.eq(life.mu_x(x, s=s, t=t), L.mu(a + t), 'force')
        c.eq(life.f_x(x, s=s, t=t), L.mu(a + t) * L.S(a, t), 'density')
        c.eq(life.q_x(x, s=s), 1 - L.S(a, 1), 'one-year q')
        c.eq(life.l_x(x, s=s + 3), life.l_x(x, s=s) * L.S(a, 3), 'lives')
    elif what == 'fraction':
        c.eq(life.p_r(x, s=s, r=r, t=t), L.S(a + r, t), 'p')
        c.eq(life.q_r(x, s=s, r=r, t=t, u=u), L.S(a + r, u) - L.S(a + r, t + u), 'q')
        c.eq(life.q_r(x, s=s, r=r, t=t), 1 - L.S(a + r, t), 'q, not deferred')
        c.eq(life.mu_r(x, s=s, r=r), L.mu(a + r), 'force')
        c.eq(life.f_r(x, s=s, r=r, t=t), L.mu(a + r + t) * L.S(a + r, t), 'density')
        c.eq(life.l_r(x, s=s, r=r) / life.l_r(x, s=s, r=0), L.S(a, r), 'lives')
    else:
        n = c.choose('n', [0, 1, 2, 7])
        c.eq(life.p_x(x, s=s, t=n), L.S(a, n), 'p')
        c.eq(life.e_x(x, s=s, t=n, curtate=True), sum(L.S(a, k) for k in range(1, n + 1)), 'curtate expectation')
        c.eq(life.e_x(x, s=s, t=n, curtate=True, moment=2), sum((2 * k - 1) * L.S(a, k) for k in range(1, n + 1)), 'curtate second moment')


def beta_lifetime(c, fam):
    """complete expectation of life"""
    L = Law(c, fam)
    life = L.life()
    x, s = c.choose('x', [0, 20, 35]), c.choose('s', [0, 4])
    w, al = L.w - x - s, L.al
    t = c.real('t', 0, w, sample=(1, 20), lo_open=False)
    r = c.real('r', 0, 1, sample=(.1, .9), lo_open=False)
    what = c.choose('what', ['whole', 'limited', 'fraction', 'long', 'curtate'])
    if what == 'whole':
        c.eq(life.e_x(x, s=s, curtate=False), w / (al + 1), 'expectation')
        c.eq(life.e_r(x, s=s), w / (al + 1), 'expectation (e_r)')
        c.eq(life.e_x(x, s=s, curtate=False, moment=VARIANCE), al * w ** 2 / ((al + 1) ** 2 * (al + 2)), 'variance')
        if fam == 'uniform':
            c.eq(life.e_x(x, s=s, curtate=False, moment=2), w * w / 3, 'second moment')
    elif what == 'limited':
        want = w / (al + 1) * (1 - ((w - t) / w) ** (al + 1))
        c.eq(life.e_x(x, s=s, t=t, curtate=False), want, 'limited')
        c.eq(life.e_r(x, s=s, t=t), want, 'limited (e_r)')
        if fam == 'uniform':
            c.eq(life.e_x(x, s=s, t=t, curtate=False, moment=2), t * t - t ** 3 * 2 / 3 / w, 'second moment')
            c.eq(life.e_x(x, s=s, t=t, curtate=False, moment=VARIANCE), t * t - t ** 3 * 2 / 3 / w - (t - t * t / 2 / w) ** 2, 'variance')
    elif what == 'fraction':
        w = w - r
        c.assume(t < w)
        c.eq(life.e_r(x, s=s, r=r), w / (al + 1), 'at a fractional age')
        c.eq(life.e_r(x, s=s, r=r, t=t), w / (al + 1) * (1 - ((w - t) / w) ** (al + 1)), 'limited, at a fractional age')
    elif what == 'long':
        c.eq(life.e_x(x, s=s, t=w + 5, curtate=False), w / (al + 1), 'limit beyond the last age')
        c.eq(life.e_x(x, s=s, t=w, curtate=False), w / (al + 1), 'limit at the last age')
        c.eq(life.e_x(x, s=s, t=0, curtate=False), 0, 'no time')
        c.eq(life.e_r(x, s=s, t=0), 0, 'no time (e_r)')
        c.eq(life.e_r(x, s=s, r=r, t=0), 0, 'no time, at a fractional age')
        more = c.real('more', 0, 3, sample=(.1, 2), lo_open=False)
        c.eq(life.e_r(x, s=s, r=r, t=w - r + more), (w - r) / (al + 1), 'limit beyond the last age, at a fractional age')
        c.eq(life.e_x(x, s=s, t=w + more, curtate=False), w / (al + 1), 'limit beyond the last age, at a fraction of a year')
    else:
        n = int(w)
        if fam == 'uniform':
            c.eq(life.e_x(x, s=s, curtate=True), sum(L.S(x + s, k) for k in range(1, n)), 'curtate')


def gompertz_lifetime(c, fam):
    """limited expectation at a fractional age is the integral of survival: by differences of the upper limit"""
    L = Law(c, fam)
    life = L.life()
    n = c.choose('n', [1, 4])
    c.eq(life.e_r(30, s=2, r=F(1, 2), t=n), life.integral(lambda t: L.S(F(65, 2), t), 0, n), 'e_r', rtol=1e-5)
    c.eq(life.e_r(30, s=n, r=F(1, 4)), life.integral(lambda t: L.S(30 + n + F(1, 4), t), 0, life._MAXAGE - 30 - n - F(1, 4)), 'e_r, not limited', rtol=1e-5)
    c.eq(life.e_x(30, s=n, t=n, curtate=False), life.integral(lambda t: L.S(30 + n, t), 0, n), 'e_x, complete', rtol=1e-5)
    c.eq(life.e_r(30, s=n, t=0), 0, 'no time')


def refused(c):
    """parameters outside the law"""
    e = c.real('e', 0, 1, lo_open=False, hi_open=False, sample=(.1, .9))
    B, k = c.real('B', F(1, 1000), F(1, 10), sample=(.001, .01)), c.real('k', F(11, 10), 2, sample=(1.1, 1.5))
    z = c.real('below', 0, 1, sample=(.01, .5))
    for bad in (e, -e):
        c.fails(lambda: Makeham(A=0, B=B, c=bad), 'Makeham growth of one or less')
        c.fails(lambda: Gompertz(B=B, c=bad), 'Gompertz growth of one or less')
    c.fails(lambda: Makeham(A=0, B=-e, c=k), 'Makeham ageing not positive')
    c.fails(lambda: Gompertz(B=-e, c=k), 'Gompertz ageing not positive')
    c.fails(lambda: Makeham(A=-B - z, B=B, c=k), 'Makeham force below zero')
    for cls, kw in ((Uniform, dict(omega=100)), (Beta, dict(omega=100, alpha=2)), (Makeham, dict(A=.01, B=.001, c=1.1)), (Gompertz, dict(B=.001, c=1.1))):
        c.fails(lambda: cls(udd=True, **kw), 'fractional ages follow the law itself')


def uniform_values(c, old=False):
    """insurances, annuities and pure endowments under uniform deaths"""
    w = c.choose('omega', [60, 62] if not old else [150])
    dl = c.real('delta', F(1, 1000), 3, sample=(.02, .1))
    v = math.exp(-dl)
    life = Uniform(omega=w).set_interest(delta=dl)
    x, s = c.choose('x', [50, 53] if not old else [0, 20]), c.choose('s', [0, 2])
    n = w - x - s
    b = c.nonneg('b', 100000, sample=(1, 50))
    m = c.choose('moment', [1, 2, VARIANCE])
    abar = lambda t, m: (1 - v ** (m * t)) / (m * dl)
    dec = lambda u, t: t / n                    # dies in years u to u + t
    f = c.choose('product', ['E', 'whole', 'term', 'endow', 'defer', 'annuity', 'temporary', 'deferred annuity'])
    disc_ = c.choose('discrete', [False, True])
    kw = {} if m == 1 and c.choose('default', [0, 1]) else dict(moment=m)

    def V2(g):
        if m != VARIANCE:
            return g(m)
        z = g(2) - g(1) ** 2
        c.assume(z > 0)          # a variance: the code floors it at zero
        return z
    t = c.choose('t', [1, 3, n])
    c.assume(not old or not disc_ and t == 3)
    D = dict(discrete=disc_)
    if disc_:
        ins = lambda u, t: lambda m: sum(((b * v ** (k + 1)) ** m * dec(k, 1) for k in range(u, u + t)), 0)
        ann = lambda u, t: sum((v ** k * (n - k) / n for k in range(u, u + t)), 0)
    else:
        ins = lambda u, t: lambda m: b ** m * v ** (m * u) * abar(t, m) / n
        F_ = lambda z: -v ** z * ((n - z) / dl - 1 / dl ** 2) / n
        ann = lambda u, t: F_(u + t) - F_(u)
    if f == 'E':
        g = lambda m: (b * v ** t) ** m * (n - t) / n
        c.eq(life.E_x(x, s=s, t=t, endowment=b, **kw), V2(g), 'pure endowment')
        if m == 1:
            c.eq(b * life.E_x(x, s=s, t=t), g(1), 'pure endowment of 1')
        c.eq(life.E_x(x, s=s, t=n + 3, **kw), 0, 'beyond the last age')
        c.eq(life.E_x(x, s=s, t=WHOLE, **kw), 0, 'never')
        c.eq(life.E_x(x, s=s, **kw), 0, 'no term: never')
        c.eq(life.E_x(x, s=s, t=0, endowment=b, **kw), 0 if m == VARIANCE else b ** m, 'paid now')
    elif f == 'whole':
        c.eq(life.whole_life_insurance(x, s=s, b=b, **kw, **D), V2(ins(0, n)), 'whole life')
    elif f == 'term':
        c.eq(life.term_insurance(x, s=s, t=t, b=b, **kw, **D), V2(ins(0, t)), 'term')
        c.eq(life.term_insurance(x, s=s, t=n + 4, b=b, **kw, **D), V2(ins(0, n)), 'term beyond the last age')
    elif f == 'endow':
        g = lambda m: ins(0, t)(m) + (b * v ** t) ** m * (n - t) / n
        c.eq(life.endowment_insurance(x, s=s, t=t, b=b, **kw, **D), V2(g), 'endowment')
    elif f == 'defer':
        c.eq(life.deferred_insurance(x, s=s, u=2, t=min(t, n - 2), b=b, **kw, **D), V2(ins(2, min(t, n - 2))), 'deferred')
    elif m == 1:
        if f == 'annuity':
            c.eq(life.whole_life_annuity(x, s=s, b=b, **D), b * ann(0, n), 'annuity')
        elif f == 'temporary':
            c.eq(life.temporary_annuity(x, s=s, t=t, b=b, **D), b * ann(0, t), 'temporary')
        else:
            c.eq(life.deferred_annuity(x, s=s, u=2, t=min(t, n - 2), b=b, **D), b * ann(2, min(t, n - 2)), 'deferred')


def values(c, fam):
    """yearly insurances and annuities from the law"""
    L = Law(c, fam)
    v = c.prob('v', sample=(.8, .97))
    life = L.life().set_interest(v=v)
    x, s, t = c.choose('x', [30, 35]), c.choose('s', [0, 2]), c.choose('t', [1, 3])
    b = c.nonneg('b', 100000, sample=(1, 50))
    a = x + s
    q = lambda k: L.S(a, k) - L.S(a, k + 1)
    if fam in ('beta', 'uniform'):
        c.eq(life.temporary_annuity(x, s=s, t=t, b=b), b * sum(v ** k * L.S(a, k) for k in range(t)), 'annuity', rtol=1e-5)
    c.eq(life.E_x(x, s=s, t=t, endowment=b), b * v ** t * L.S(a, t), 'pure endowment')
    c.eq(life.E_x(x, s=s, t=t, endowment=b, moment=2), (b * v ** t) ** 2 * L.S(a, t), 'pure endowment, second moment')
    c.eq(life.E_x(x, s=s, t=t, endowment=b, moment=VARIANCE), (b * v ** t) ** 2 * L.S(a, t) * (1 - L.S(a, t)), 'pure endowment, variance')
    c.eq(life.A_x(x, s=s, t=t, benefit=lambda x, t: b), b * sum(v ** (k + 1) * q(k) for k in range(t)), 'insurance')
    c.eq(life.a_x(x, s=s, t=t, benefit=lambda x, t: b), b * sum(v ** k * L.S(a, k) for k in range(t)), 'annuity payments')


def law_continuous(c, fam):
    """insurances and annuities paid continuously, as integrals over the time of death"""
    L = Law(c, fam)
    dl = c.real('delta', F(1, 1000), 1, sample=(.02, .1))
    life = L.life().set_interest(delta=dl)
    x, s = c.choose('x', [30, 60]), c.choose('s', [0, 3])
    a, b = x + s, c.nonneg('b', 100000, sample=(1, 50))
    n = life._MAXAGE - a
    t, u = c.choose('t', [1, 5]), c.choose('u', [2, 10])
    ins = lambda lo, hi, m=1: b ** m * life.integral(lambda k: math.exp(-m * dl * k) * L.S(a, k) * L.mu(a + k), lo, hi)
    ann = lambda lo, hi: b * life.integral(lambda k: math.exp(-dl * k) * L.S(a, k), lo, hi)
    m = c.choose('moment', [1, 2])
    D = dict(discrete=False, b=b)
    R = dict(rtol=1e-5)
    f = c.choose('product', ['whole', 'term', 'temporary', 'lifetime'])
    if f == 'whole':
        c.eq(life.whole_life_insurance(x, s=s, moment=m, **D), ins(0, n, m), 'whole life', **R)
    elif f == 'term':
        c.eq(life.A_x(x, s=s, t=t, benefit=lambda x, t: b, moment=m, discrete=False), ins(0, t, m), 'term', **R)
        c.eq(life.A_x(x, s=s, t=t, u=u, benefit=lambda x, t: b, moment=m, discrete=False), ins(u, u + t, m), 'deferred', **R)
    elif f == 'temporary':
        c.eq(life.a_x(x, s=s, t=t, benefit=lambda x, t: b, discrete=False), ann(0, t), 'annuity payments', **R)
        c.eq(life.a_x(x, s=s, t=t, u=u, benefit=lambda x, t: b, discrete=False), ann(u, u + t), 'deferred annuity payments', **R)
    else:
        r = c.choose('r', [0, F(1, 3)])
        c.eq(life.e_r(x, s=s, r=r, t=t), life.integral(lambda k: L.S(a + r, k), 0, t), 'limited lifetime', **R)


def instances(tier):
    out = []
    for f in ('beta', 'uniform', 'makeham', 'gompertz', 'makeham-neg'):
        out += [Inst(f'functions-{f}', lambda c, f=f: functions(c, f)), Inst(f'values-{f}', lambda c, f=f: values(c, f), bounds='terms of 1 to 3 years')]
    out += [Inst(f'lifetime-{f}', lambda c, f=f: beta_lifetime(c, f)) for f in ('beta', 'uniform')]
    out += [Inst(f'lifetime-{f}', lambda c, f=f: gompertz_lifetime(c, f), bounds='limits of 1 and 4 years, and the oldest age of the model') for f in ('makeham', 'gompertz')]
    out += [Inst(f'continuous-{f}', lambda c, f=f: law_continuous(c, f), bounds='to the oldest age of the model') for f in ('makeham', 'gompertz')]
    out += [Inst('refused', refused), Inst('uniform-values', uniform_values, max_paths=3000, bounds='up to 12 years'),
            Inst('uniform-values-old', lambda c: uniform_values(c, True), max_paths=3000, bounds='up to 150 years, continuous')]
    return out
