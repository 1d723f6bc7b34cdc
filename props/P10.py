"""Filling in a life table from whatever entries are given."""
from .common import *
from actuarialmath import LifeTable

OUTSIDE = 'tables longer than those listed; given entries that contradict each other; rounding to 7 decimals'


class Truth:
    """the complete consistent table the given entries are taken from"""

    def __init__(self, c, X, n, last=False):
        self.X, self.n = X, n
        self.l0 = c.real('l0', 1, 10000, sample=(100, 1000))
        self.p = [c.real(f'p{k}', F(1, 50), 1, sample=(.5, .95)) for k in range(n)]
        if last:
            self.p[-1] = 0
        self.l = [self.l0]
        for p in self.p:
            self.l.append(self.l[-1] * p)

    def get(self, col, k):
        if col == 'l':
            return self.l[k]
        if col == 'p':
            return self.p[k]
        if col == 'q':
            return 1 - self.p[k]
        return self.l[k] - self.l[k + 1]

    def cols(self, spec):
        """'l0 l3 q1 d2' -> dict of given columns"""
        out = {}
        for w in spec.split():
            out.setdefault(w[0], {})[self.X + int(w[1:])] = self.get(w[0], int(w[1:]))
        return out


def scaled(c, life, T, k0, what, ratio, have=None):
    """every filled cell is right (lives and deaths up to the given scale)"""
    n = 0
    for col in 'lqpd':
        for a, v in life[col].items():
            k = a - T.X
            if k < 0 or k > T.n or (col != 'l' and k >= T.n):
                continue
            n += 1
            c.eq(v, T.get(col, k) * (ratio if col in 'ld' else 1), f'{what}: {col} at {k}', atol=2e-7 if col in 'qp' else 1e-3)
    return n


FULL = {   # given entries that determine the whole table of n=4 years
    'q': 'q0 q1 q2 q3 l0', 'p': 'p0 p1 p2 p3 l0', 'l': 'l0 l1 l2 l3 l4', 'd-l0': 'd0 d1 d2 d3 l0 q0',
    'd-q': 'd0 q0 q1 q2 q3', 'd-last': 'd3 q3 q2 q1 q0', 'l-back': 'l4 q0 q1 q2 q3', 'l-back-p': 'l4 p0 p1 p2 p3',
    'l-mid': 'l2 q0 p1 q2 p3', 'mixed': 'l0 l2 q0 p2 d3 q3', 'mixed2': 'l1 q0 q1 l3 p3 d1', 'mixed3': 'l0 p0 d1 q1 l3 d3 p3',
    'd-and-l': 'l0 l1 d1 q1 l3 q3', 'd-mid': 'd1 q1 q0 q2 p3',
}
PARTIAL = {   # (given, cells that can be inferred, cells that cannot)
    'gap': ('l0 l3 q3', 'l4 p3 d3', 'q0 q1 q2 l1 l2 d0 d1 d2 p1'),
    'doc': ('l0 l2 d3 p2 q1', 'l1 l3 q2 p1 d1 d2 q3 p3 l4', ''),
    'no-l': ('q1 d2', 'p1', 'q0 q2 q3'),
    'split': ('l0 l1 q3 l4', 'q0 p0 d0 l3 d3', 'q1 q2 l2'),
}


def order(c, given, perms):
    """reverse / rotate the order in which the entries are listed"""
    if perms == 1:
        return {k: dict(reversed(list(v.items()))) for k, v in reversed(list(given.items()))}
    return given


def full(c, spec, X, extra):
    T = Truth(c, X, 4, last=c.choose('last', [False, True]) and 'l4' not in spec)
    given = order(c, T.cols(spec), c.choose('order', [0, 1]))
    kw = c.choose('ages', [{}, dict(minage=X, maxage=X + 4)])
    how = c.choose('how', ['once', 'steps', 'late'] if extra else ['once'])
    if how == 'once':
        life = LifeTable(udd=c.choose('udd', [True, False])).set_table(**given, **kw)
    elif how == 'steps':
        life = LifeTable()
        kw = dict(minage=X, maxage=X + 4)
        for k, v in given.items():
            life.set_table(**{k: v}, **kw, fill=False)
        life.fill_table(radix=100000)
    else:
        life = LifeTable().set_table(**given, fill=False, minage=X, maxage=X + 4)
        for col, v in given.items():
            c.same(sorted(life[col]), sorted(v), 'nothing filled in when not asked to')
        life.fill_table(radix=77)
    for col, n in (('l', 5), ('q', 4), ('p', 4), ('d', 4)):
        for k in range(n):
            c.true(X + k in life[col], f'{col} at {k} is filled')
    scaled(c, life, T, 0, spec, 1)
    for col, v in given.items():
        for a, y in v.items():
            c.eq(life[col][a], y, f'given {col} at {a} kept')
    snap = {col: dict(life[col]) for col in 'lqpd'}
    life.fill_table(radix=123)
    for col in 'lqpd':
        c.same(sorted(life[col]), sorted(snap[col]), f'filling again adds no {col}')
        for a, y in snap[col].items():
            c.eq(life[col][a], y, 'filling again changes nothing')


def radix(c, spec, X):
    """without any number of lives the table starts from the radix"""
    T = Truth(c, X, 4)
    R = c.choose('radix', [None, 1, 1000])
    r = c.real('R', 1, None) if R is None else R
    life = LifeTable().set_table(**T.cols(spec), radix=r)
    c.eq(life['l'][X], r, 'starts from the radix')
    n = scaled(c, life, T, 0, spec, r / T.l0)
    c.true(n >= 5 + 4 + 4 + 4, 'complete')
    d = LifeTable().set_table(**T.cols(spec))
    c.eq(d['l'][X], 100000, 'default radix')


def deaths(c, X):
    """deaths alone, of the given number of lives"""
    n = 4
    d = [c.real(f'd{k}', 1, 20, sample=(2, 15)) for k in range(n)]
    R = c.real('radix', 100, 1000, sample=(150, 500))
    life = LifeTable().set_table(d={X + k: y for k, y in enumerate(d)}, radix=R)
    l = R
    for k, y in enumerate(d):
        c.eq(life['l'][X + k], l, f'l at {k}', atol=1e-3)
        c.eq(life['q'][X + k], y / l, f'q at {k}', atol=1e-5)
        c.eq(life['p'][X + k], 1 - y / l, f'p at {k}', atol=1e-5)
        c.eq(life['d'][X + k], y, f'd at {k} kept')
        l = l - y
    c.eq(life['l'][X + n], l, 'l at the end', atol=1e-3)


def partial(c, spec, can, cannot, X):
    T = Truth(c, X, 4)
    life = LifeTable().set_table(**T.cols(spec), minage=X, maxage=X + 4)
    for w in can.split() + spec.split():
        col, k = w[0], int(w[1:])
        c.true(X + k in life[col], f'{w} can be inferred')
        if 'l' in [y[0] for y in spec.split()] or col in 'qp':
            c.eq(life[col][X + k], T.get(col, k), f'value of {w}', atol=2e-7 if col in 'qp' else 1e-3)
    for w in cannot.split():
        c.true(X + int(w[1:]) not in life[w[0]], f'{w} is not invented')


def update(c, X):
    """new entries replace and extend what is there"""
    T = Truth(c, X, 3)
    life = LifeTable().set_table(q={X: 1 - T.p[0], X + 1: 1 - T.p[1]}, l={X: T.l0})
    c.eq(life['l'][X + 2], T.l[2], 'first part')
    life.set_table(q={X + 2: 1 - T.p[2]}, maxage=X + 3)
    c.eq(life['l'][X + 3], T.l[3], 'extended')
    c.eq(life.p_x(X, t=3), T.p[0] * T.p[1] * T.p[2], 'extended survival')
    c.eq(life._MAXAGE, X + 3, 'oldest age')
    c.eq(life._MINAGE, X, 'youngest age')


def parts(c, X):
    """a table given in two parts is the table given at once"""
    T = Truth(c, X, 4)
    col = c.choose('col', ['q', 'p', 'd', 'l'])
    n = 5 if col == 'l' else 4
    k = c.choose('split', [1, 2, 3])
    cells = {X + j: T.get(col, j) for j in range(n)}
    one = {a: y for a, y in cells.items() if a < X + k}
    two = {a: y for a, y in cells.items() if a >= X + k}
    if c.choose('later first', [False, True]):
        one, two = two, one
    lives = {X: T.l0} if col == 'd' else None
    v = c.real('v', F(1, 20), F(99, 100), sample=(.8, .97))
    life = LifeTable().set_interest(i=1 / v - 1)
    if col == 'd':
        life.set_table(l=lives, fill=False)
    life.set_table(**{col: one}, radix=T.l0, fill=col in 'qp' and min(one) == X).set_table(**{col: two}, radix=T.l0)
    c.eq(life._MINAGE, X, 'youngest age')
    c.eq(life._MAXAGE, X + n, 'oldest age')
    for j in range(4):
        c.eq(life.q_x(X + j), 1 - T.p[j], f'rate {j}', atol=1e-6)
    c.eq(life.e_x(X, curtate=True), sum(T.l[1:]) / T.l0, 'expected lifetime', rtol=1e-6)
    A = sum((T.l[j] - (T.l + [0])[j + 1]) / T.l0 * v ** (j + 1) for j in range(n))
    c.eq(life.whole_life_insurance(X), A, 'insurance', rtol=1e-6)


def ages(c, X):
    """the range of ages follows from the entries"""
    T = Truth(c, X, 3)
    col = c.choose('col', ['q', 'p', 'l', 'd'])
    ks = [0, 1, 2]
    life = LifeTable().set_table(**{col: {X + k: T.get(col, k) for k in ks}})
    c.eq(life._MINAGE, X, 'youngest')
    c.eq(life._MAXAGE, X + 3, 'nobody survives beyond the year of the last entry')
    life = LifeTable().set_table(**{col: {X + k: T.get(col, k) for k in ks}}, minage=X - 1, maxage=X + 7)
    c.eq(life._MINAGE, X - 1, 'youngest, given')
    c.eq(life._MAXAGE, X + 7, 'oldest, given')


def long(c, X, n, col):
    """long tables"""
    ps = [c.real(f'p{k}', F(1, 2), 1, sample=(.9, .99)) if k % 6 == 0 else 1 - c.const(F(k % 50 + 1, 400)) for k in range(n)]
    l = [1000]
    for p in ps:
        l.append(l[-1] * p)
    given = {'q': {X + k: 1 - ps[k] for k in range(n)}, 'p': {X + k: ps[k] for k in range(n)},
             'l': {X + k: l[k] for k in range(n + 1)}}[col]
    life = LifeTable().set_table(**{col: given}, radix=1000, maxage=X + n)
    for k in list(range(0, n, 7)) + [n - 1]:
        c.eq(life['l'][X + k], l[k], f'l at {k}', rtol=1e-5)
        c.eq(life['q'][X + k], 1 - ps[k], f'q at {k}')
        c.eq(life['p'][X + k], ps[k], f'p at {k}')
        c.eq(life['d'][X + k], l[k] - l[k + 1], f'd at {k}', rtol=1e-5)


def instances(tier):
    out = []
    X = 60
    for n, spec in FULL.items():
        out.append(Inst(f'full-{n}', lambda c, spec=spec, n=n: full(c, spec, X, n in ('mixed', 'l-mid', 'q', 'l') or tier == 'thorough'),
                        bounds='4 years, all consistent rates'))
    for n, spec in (('q', 'q0 q1 q2 q3'), ('p', 'p0 p1 p2 p3'), ('qp', 'q0 p1 q2 p3')):
        out.append(Inst(f'radix-{n}', lambda c, spec=spec: radix(c, spec, 0 if n == 'p' else X)))
    for n, (s, a, b) in PARTIAL.items():
        out.append(Inst(f'partial-{n}', lambda c, s=s, a=a, b=b: partial(c, s, a, b, X)))
    out += [Inst('radix-d', lambda c: deaths(c, X))]
    out += [Inst('parts', lambda c: parts(c, X)), Inst('update', lambda c: update(c, X)), Inst('ages', lambda c: ages(c, X)), Inst('ages0', lambda c: ages(c, 1))]
    for col in 'qpl':
        out.append(Inst(f'long-{col}', lambda c, col=col: long(c, 20, 90 if tier == 'thorough' else 50, col), bounds='50 ages'))
    return out
