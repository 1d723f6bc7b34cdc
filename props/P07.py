"""All forms of the survival model describe the same lifetime."""
from .common import *
from actuarialmath import Survival, Annuity

OUTSIDE = 'survival models outside the listed parametric families and finite tables; numerical differentiation error'
D = dict(rtol=2e-5, atol=2e-6)      # numerical differentiation is only used on replay


class Law:
    """force A + B x + C s (select), exponential, power of a linear function, Gompertz"""

    def __init__(self, c, fam):
        self.fam = fam
        R = lambda n, lo, hi: c.real(n, F(lo), F(hi))
        if fam == 'hazard':
            self.A, self.B, self.C = R('A', '.001', '.2'), R('B', '.0001', '.005'), R('C', '.0001', '.005')
        elif fam == 'ultimate':
            self.A, self.B = R('A', '.001', '.2'), R('B', '.0001', '.005')
            self.C = self.B
        elif fam == 'constant':
            self.A, self.B, self.C = R('A', '.001', '.3'), 0, 0
        elif fam in ('lin', 'cube', 'root'):
            self.w = 120 + R('w', 5, 60)
            self.al = {'lin': 1, 'cube': 3, 'root': c.const(F(1, 2))}[fam]
        elif fam == 'gompertz':
            self.B, self.k = R('B', '.00001', '.0005'), R('k', '.02', '.1')

    def mu(self, x, s):
        if self.fam in ('lin', 'cube', 'root'):
            return self.al / (self.w - x - s)
        if self.fam == 'gompertz':
            return self.B * math.exp(self.k * (x + s))
        return self.A + self.B * x + self.C * s

    def S(self, x, s, t):
        if self.fam in ('lin', 'cube', 'root'):
            return ((self.w - x - s - t) / (self.w - x - s)) ** self.al
        if self.fam == 'gompertz':
            return math.exp(-self.B / self.k * (math.exp(self.k * (x + s + t)) - math.exp(self.k * (x + s))))
        return math.exp(-((self.A + self.B * x + self.C * s) * t + self.C * t * t / 2))

    def f(self, x, s, t):
        return self.S(x, s, t) * self.mu(x, s + t)

    def l(self, x, s):
        if self.fam in ('lin', 'cube', 'root'):
            return 7 * (self.w - x - s) ** self.al
        if self.fam == 'gompertz':
            return 7 * math.exp(-self.B / self.k * math.exp(self.k * (x + s)))
        if self.fam in ('ultimate', 'constant'):
            a = x + s
            return 7 * math.exp(-(self.A * a + self.B * a * a / 2))
        return 7 * math.exp(-((self.A + self.B * x) * s + self.C * s * s / 2))


def agree(c, life, L, x, s, t, T, what, ultimate):
    for tt, nm in ((t, f't={t}'), (T, 'any t')):
        c.eq(life.S(x, s, tt), L.S(x, s, tt), f'{what}: survival function, {nm}')
        c.eq(life.mu(x, s + tt), L.mu(x, s + tt), f'{what}: force of mortality, {nm}', **D)
        c.eq(life.f(x, s, tt), L.f(x, s, tt), f'{what}: lifetime density, {nm}', **D)
        c.eq(life.p_x(x, s=s, t=tt), L.S(x, s, tt), f'{what}: p_x, {nm}')
        c.eq(life.mu_x(x, s=s, t=tt), L.mu(x, s + tt), f'{what}: mu_x, {nm}', **D)
        c.eq(life.f_x(x, s=s, t=tt), L.f(x, s, tt), f'{what}: f_x, {nm}', **D)
    for u in (0, 1, 4):
        c.eq(life.q_x(x, s=s, t=t, u=u), L.S(x, s, u) - L.S(x, s, u + t), f'{what}: q_x t={t} u={u}')
    c.eq(life.q_x(x, s=s), 1 - L.S(x, s, 1), f'{what}: one-year q')
    c.eq(life.p_x(x, s=s), L.S(x, s, 1), f'{what}: one-year p')
    if ultimate:
        k = 5
        c.eq(life.l_x(x, s=s + k) / life.l_x(x, s=s), L.S(x, s, k), f'{what}: ratio of lives')
        c.eq(life.d_x(x, s=s) / life.l_x(x, s=s), 1 - L.S(x, s, 1), f'{what}: deaths over lives')
        c.eq(life.l_x(x, s=s), life.l_x(x + s, s=0), f'{what}: lives at the attained age')


def given(c, fam, form, xs, ss, ts):
    L = Law(c, fam)
    x, s, t = c.choose('x', xs), c.choose('s', ss), c.choose('t', ts)
    T = c.real('T', 0, 10, sample=(.3, 9), lo_open=False)
    cls = c.choose('class', [Survival, Annuity])
    life = cls().set_survival(**{form: getattr(L, form)}, minage=0, maxage=120)
    ult = fam not in ('hazard',) and not (form == 'f' and fam == 'hazard')
    agree(c, life, L, x, s, t, T, f'given {form}', ult)
    if form == 'l':
        c.eq(life.l_x(x, s=s), L.l(x, s), 'the lives given')
        c.eq(life.d_x(x, s=s), L.l(x, s) - L.l(x, s + 1), 'the deaths given')
    c.eq(life._MAXAGE, 120, 'oldest age')
    c.eq(life._MINAGE, 0, 'youngest age')


def given_min(c, form):
    """lives relative to a youngest age that is not zero"""
    L = Law(c, 'ultimate')
    life = Survival().set_survival(**{form: getattr(L, form)}, minage=20, maxage=110)
    x, s = c.choose('x', [20, 45]), c.choose('s', [0, 3])
    c.eq(life.l_x(x, s=s) / life.l_x(20), L.S(20, 0, x + s - 20) if form != 'l' else L.l(x, s) / L.l(20, 0), 'lives from the youngest age')


def table(c, X, W, kind, sel, ss, ts, us):
    """p, q, d and l at integer ages from an arbitrary table"""
    T = Tab(c, X, W, kind, sel)
    life = Annuity().set_survival(S=T.S, minage=X, maxage=W)
    s, t, u = c.choose('s', ss), c.choose('t', ts), c.choose('u', us)
    c.eq(life.p_x(X, s=s, t=t), T.p(X, s, t), f'p s={s} t={t}')
    c.eq(life.q_x(X, s=s, t=t, u=u), T.q(X, s, u, t), f'q s={s} t={t} u={u}')
    c.eq(life.q_x(X, s=s, t=t), 1 - life.p_x(X, s=s, t=t), 'p + q = 1')
    c.eq(life.q_x(X, s=s, t=t, u=u), life.p_x(X, s=s, t=u) * life.q_x(X, s=s + u, t=t) if X + s + u < W else 0,
         'deferred q = survive, then die')
    c.eq(life.p_x(X, s=s, t=t + u), life.p_x(X, s=s, t=u) * life.p_x(X, s=s + u, t=t) if X + s + u < W else 0,
         'survival multiplies')
    if not sel:
        c.eq(life.l_x(X, s=s + t), life.l_x(X, s=s) * T.p(X, s, t), 'lives')
        c.eq(life.d_x(X, s=s), life.l_x(X, s=s) * T.q(X, s), 'deaths')


def lives(c, X, W, ss, ts):
    """lives given directly"""
    T = Tab(c, X, W, 'l', 0)
    life = Annuity().set_survival(l=lambda x, s: T.L(x, s), minage=X, maxage=W)
    s, t, u = c.choose('s', ss), c.choose('t', ts), c.choose('u', [0, 2])
    L = lambda k: T.L(X, k) if X + k < W else 0
    c.eq(life.l_x(X, s=s), L(s), 'l')
    c.eq(life.d_x(X, s=s), L(s) - L(s + 1), 'd')
    c.eq(life.p_x(X, s=s, t=t), L(s + t) / L(s), 'p')
    c.eq(life.q_x(X, s=s, t=t, u=u), (L(s + u) - L(s + u + t)) / L(s), 'q')


def extinct(c):
    """nobody left: survival is zero, not an error"""
    T = Tab(c, 60, 65, 'l', 0)
    life = Survival().set_survival(l=lambda x, s: T.L(x, s), minage=60, maxage=65)
    s = c.choose('s', [5, 6, 9])
    c.eq(life.p_x(60, s=s, t=c.choose('t', [1, 4])), 0, 'nobody is left')


def rejects(c):
    k = c.pos('k')
    c.fails(lambda: Survival().set_survival(), 'no model given')
    life = Survival().set_survival(mu=lambda x, t: k, maxage=100)
    for f in (life.l_x, life.d_x, life.p_x, life.q_x, life.f_x, life.mu_x):
        c.fails(lambda: f(-1), 'negative age')
        c.fails(lambda: f(5, s=-1), 'negative duration')
    for form in 'Slf':
        c.fails(lambda: Survival().set_survival(**{form: 0.5}), 'not callable')


def instances(tier):
    out = []
    fams = {'mu': ['hazard', 'ultimate', 'constant', 'gompertz', 'lin', 'cube', 'root'],
            'S': ['hazard', 'ultimate', 'constant', 'gompertz', 'lin', 'cube', 'root'],
            'l': ['ultimate', 'constant', 'gompertz', 'lin', 'cube', 'root', 'hazard'],
            'f': ['constant', 'lin', 'cube']}
    th = tier == 'thorough'
    for form, fs in fams.items():
        for fam in fs:
            out.append(Inst(f'{form}-{fam}', lambda c, form=form, fam=fam: given(
                c, fam, form, [0, 30, 65] if th else [0, 30], [0, 3], [1, 7] if not th else [1, 2, 7, 25]),
                bounds=f'model given by {form}, {fam}'))
    for form in ('S', 'mu', 'l'):
        out.append(Inst(f'minage-{form}', lambda c, form=form: given_min(c, form)))
    out += [Inst('table', lambda c: table(c, 50, 58, 'p', 0, [0, 1, 3], [1, 2, 4, 9], [0, 1, 3]), bounds='8 ages'),
            Inst('table-select', lambda c: table(c, 50, 58, 'p', 2, [0, 1, 3], [1, 2, 4, 9], [0, 1, 3]), bounds='8 ages'),
            Inst('table-wide', lambda c: table(c, 0, 120, 'l', 0, [0, 25, 60, 99], [1, 10, 50], [0, 15, 40]), bounds='120 ages'),
            Inst('lives', lambda c: lives(c, 50, 58, [0, 1, 4], [1, 2, 5])),
            Inst('lives-wide', lambda c: lives(c, 0, 130, [0, 40, 90], [1, 20, 60])),
            Inst('extinct', extinct), Inst('rejects', rejects)]
    return out
