"""Extra mortality risks."""
from .common import *
from actuarialmath import ExtraRisk, LifeTable, SelectLife, Survival, ConstantForce, Makeham, Gompertz, SULT, Premiums

OUTSIDE = 'tables and ages other than those listed; age ratings of tables that are not whole years'


def table(c, n=4, x0=50):
    q = {x0 + k: c.real(f'q{k}', F(1, 100), F(9, 10), sample=(.02, .6)) for k in range(n)}
    q[x0 + n] = c.const(1)
    return q, lambda: LifeTable().set_interest(v=F(9, 10)).set_table(q=dict(q), minage=x0, maxage=x0 + n + 1, radix=1000)


def rated(c, risk, q0, e, more=None):
    """one-year mortality with the extra risk, from first principles"""
    if risk == 'ADD_FORCE':
        return 1 - (1 - q0) * math.exp(-e)
    if risk == 'MULTIPLY_FORCE':
        return 1 - (1 - q0) ** e
    if risk == 'MULTIPLY_RATE':
        return e * q0 if e * q0 <= 1 else 1
    return q0


RISKS = ['ADD_FORCE', 'MULTIPLY_FORCE', 'MULTIPLY_RATE', '']


def single(c, kind):
    """one-year rates at single ages"""
    risk = c.choose('risk', RISKS)
    e = c.real('extra', 0, 50, sample=(.1, 4), lo_open=False)
    x, s = c.choose('x', [50, 52]), c.choose('s', [0, 1])
    if kind == 'table':
        q, mk = table(c)
        life = mk()
        q0 = q[x + s]
    elif kind == 'survival':
        m = c.real('mu', F(1, 100), 1, sample=(.02, .5))
        d = c.real('d', 0, F(1, 10), sample=(.01, .1))
        life = Survival().set_survival(S=lambda x, s, t: math.exp(-m * t) / (1 + d * (x + s + t)) * (1 + d * (x + s)), minage=0, maxage=120)
        q0 = 1 - math.exp(-m) * (1 + d * (x + s)) / (1 + d * (x + s + 1))
    else:
        q, qs = ({y: [c.real(f'q{y}{k}', F(1, 100), F(9, 10), sample=(.02, .6)) for k in range(2)] for y in range(50, 53)},
                 {y: c.real(f'u{y}', F(1, 100), F(9, 10), sample=(.02, .6)) for y in range(52, 55)})
        life = SelectLife(periods=2).set_interest(v=F(9, 10)).set_table(q={y: q[y] + [qs[y + 2]] for y in q})
        x = c.choose('at', [50, 51, 52])
        q0 = q[x][s]
    ex = ExtraRisk(life=life, risk=risk, extra=e)
    w = rated(c, risk, q0, e)
    kw = dict(s=s) if s or c.choose('kw', [0, 1]) else {}
    c.eq(ex.q_x(x, **kw), w, f'q, {risk}')
    c.eq(ex.p_x(x, **kw), 1 - w, f'p, {risk}')
    if kind != 'survival':
        c.le(ex.q_x(x, **kw), 1, f'q is a probability, {risk}')
        c.le(0, ex.q_x(x, **kw), f'q is a probability, {risk}')
    c.eq(life.q_x(x, s=s), q0, 'the life keeps its mortality')


def older(c, kind):
    """age rating: the mortality of a life so many years older"""
    k = c.choose('years', [0, 1, 2]) if kind != 'law' or c.choose('whole years', [0, 1]) else c.real('part years', 0, 5, sample=(.1, 4))
    x, s = c.choose('x', [50, 51]), c.choose('s', [0, 1])
    if kind == 'table':
        q, mk = table(c)
        life = mk()
        Q = lambda a: q.get(a, 1)
    elif kind == 'select':
        R = {(y, j): c.real(f'q{y},{j}', F(1, 100), F(9, 10), sample=(.02, .6)) for y in range(50, 55) for j in range(3)}
        sel = SelectLife(periods=2).set_interest(v=F(9, 10)).set_table(q={y: [R[y, 0], R[y, 1], R[y, 2]] for y in range(50, 55)})
        s = c.choose('duration', [0, 1, 2])
        ex = ExtraRisk(life=sel, risk='ADD_AGE', extra=k)
        c.eq(ex.q_x(x, s=s), R[x + k, s], 'q, older when selected')
        c.eq(ex.p_x(x, s=s), 1 - R[x + k, s], 'p, older when selected')
        return
    else:
        B, g = c.real('B', F(1, 10000), F(1, 1000), sample=(.0001, .001)), c.real('c', F(102, 100), F(11, 10), sample=(1.03, 1.1))
        life = Gompertz(B=B, c=g)
        Q = lambda a: 1 - math.exp(-B * g ** a * (g - 1) / math.log(g))
    ex = ExtraRisk(life=life, risk='ADD_AGE', extra=k)
    c.eq(ex.q_x(x, s=s), Q(x + s + k), 'q, older')
    c.eq(ex.p_x(x, s=s), 1 - Q(x + s + k), 'p, older')
    if kind == 'table':
        for y, v in ex['q'].items():
            c.eq(v, Q(y + k), f'table of q, older, {y}')
        for y, v in ex['p'].items():
            c.eq(v, 1 - Q(y + k), f'table of p, older, {y}')


def law(c):
    """rated mortality of a law is that of the law with the rated force"""
    B, g = c.real('B', F(1, 10000), F(1, 1000), sample=(.0001, .001)), c.real('c', F(102, 100), F(11, 10), sample=(1.03, 1.1))
    m = c.real('mu', F(1, 100), 1, sample=(.02, .5))
    e = c.real('extra', 0, 50, sample=(.01, 2), lo_open=False)
    x, s = c.choose('x', [20, 50]), c.choose('s', [0, 2])
    what = c.choose('what', ['makeham', 'gompertz', 'constant', 'constant x'])
    if what == 'makeham':
        ex, other = ExtraRisk(life=Gompertz(B=B, c=g), risk='ADD_FORCE', extra=e), Makeham(A=e, B=B, c=g)
    elif what == 'gompertz':
        c.assume(e > 0)
        ex, other = ExtraRisk(life=Gompertz(B=B, c=g), risk='MULTIPLY_FORCE', extra=e), Gompertz(B=B * e, c=g)
    elif what == 'constant':
        ex, other = ExtraRisk(life=ConstantForce(mu=m), risk='ADD_FORCE', extra=e), ConstantForce(mu=m + e)
    else:
        ex, other = ExtraRisk(life=ConstantForce(mu=m), risk='MULTIPLY_FORCE', extra=e), ConstantForce(mu=m * e)
    c.eq(ex.p_x(x, s=s), other.p_x(x, s=s), what)
    c.eq(ex.q_x(x, s=s), other.q_x(x, s=s), what)


def tables(c):
    """whole tables of rated mortality, used as the first year of a select table"""
    q, mk = table(c)
    life = mk()
    risk = c.choose('risk', RISKS)
    e = c.real('extra', 0, 50, sample=(.1, 1), lo_open=False)
    ex = ExtraRisk(life=life, risk=risk, extra=e)
    w = {y: rated(c, risk, q.get(y, 1), e) for y in range(50, 54)}
    T, P = ex['q'], ex['p']
    c.same([set(range(50, 56)) <= set(t) for t in (T, P)], [True, True], 'every age, first to last')
    for y in w:
        c.eq(T[y], w[y], f'q at {y}, {risk}')
        c.eq(P[y], 1 - w[y], f'p at {y}, {risk}')
    if c.choose('select', [0, 1]):
        sel = SelectLife(periods=1).set_interest(v=F(9, 10)).set_select(s=0, age_selected=True, q=T).set_select(s=1, age_selected=False, q=life['q']).fill_table()
        c.eq(sel.q_x(50, s=0), w[50], 'first year of a select life')
        c.eq(sel.q_x(50, s=1), q[51], 'second year of a select life')
        c.eq(sel.p_x(51, s=0, t=2), (1 - w[51]) * (1 - q[52]), 'two years of a select life')


def rejected(c):
    life = Gompertz(B=F(1, 1000), c=F(11, 10))
    e = c.real('extra', -1, 0, sample=(-.5, -.1))
    c.assume(e < 0)
    c.fails(lambda: ExtraRisk(life=life, risk='ADD_FORCE', extra=e), 'negative extra risk')
    c.fails(lambda: ExtraRisk(life=life, risk='ADD', extra=1), 'unknown risk')


def instances(tier):
    return [Inst('single-table', lambda c: single(c, 'table')), Inst('single-survival', lambda c: single(c, 'survival')),
            Inst('single-select', lambda c: single(c, 'select')), Inst('older-table', lambda c: older(c, 'table')),
            Inst('older-law', lambda c: older(c, 'law')), Inst('older-select', lambda c: older(c, 'select')), Inst('law', law), Inst('tables', tables), Inst('rejected', rejected)]
