"""Select and ultimate tables."""
from .common import *
from actuarialmath import SelectLife

OUTSIDE = 'tables longer than those listed; given entries that contradict each other; ages for which the table determines nothing'


class Sel:
    """rows X..X+n-1 of select rates over k years, then ultimate rates up to age X+n-1+k"""

    def __init__(self, c, X, n, k, complete=False, v=None, lo=F(1, 50)):
        self.c, self.X, self.n, self.k, self.complete, self.lo = c, X, n, k, complete, lo
        self._p, self._m = {}, {}
        self.last = X + n - 1 + k            # last age with a known ultimate rate
        self.v = v
        self.l0 = None
        self.tail = {}

    def p1(self, x, s):
        if s >= self.k:
            key = ('u', x + s)
            if self.complete and x + s >= self.last:
                return self.c.const(0)
        else:
            key = (x, s)
        if key not in self._p:
            self._p[key] = self.c.real('p[' + '+'.join(map(str, key)) + ']', self.lo, 1, sample=(.5, .95))
        return self._p[key]

    def p(self, x, s, t):
        k = (x, s, t)
        if k not in self._m:
            self._m[k] = self.c.const(1) if t == 0 else self.p(x, s, t - 1) * self.p1(x, s + t - 1)
        return self._m[k]

    def l(self, x, s):
        """lives; the first selected life at the lowest age is the radix"""
        if self.l0 is None:
            self.l0 = self.c.real('l0', 1, 10000, sample=(100, 1000))
        base = self.l0 * self.p(self.X, 0, self.k)         # ultimate lives aged X+k
        if s >= self.k:
            return base * self.p(self.X, self.k, x + s - self.X - self.k)
        return self.l(x, self.k) / self.p(x, s, self.k - s)

    def val(self, col, x, s):
        """whole life values; the table's tail (beyond the last ultimate rate) is one unknown value"""
        if s > self.k:
            x, s = x + s - self.k, self.k
        key = (col, x, s)
        if key in self._m:
            return self._m[key]
        if x + s > self.last:
            if self.complete:
                r = self.c.const(0)      # nobody left
            else:
                r = self.tail.setdefault(col, None)
                if r is None:
                    r = self.tail[col] = self.c.real(f'tail{col}', 0, 1 if col == 'A' else 20, sample=(.2, .9) if col == 'A' else (2, 9))
        else:
            p, nx = self.p1(x, s), self.val(col, x, s + 1)
            r = {'A': lambda: self.v * (1 - p + p * nx), 'a': lambda: 1 + self.v * p * nx, 'e': lambda: p * (1 + nx)}[col]()
        self._m[key] = r
        return r

    def get(self, col, x, s):
        if col in 'Aae':
            return self.val(col, x, s)
        if col == 'l':
            return self.l(x, s)
        if col == 'q':
            return 1 - self.p1(x, s)
        return self.l(x, s) * (1 - self.p1(x, s))

    def rows(self):
        return range(self.X, self.X + self.n)

    def full(self, col):
        return {x: [self.get(col, x, s) for s in range(self.k + 1)] for x in self.rows()}

    def some(self, col, cells):
        out = {}
        for x, s in cells:
            out.setdefault(x, [None] * (self.k + 1))[s] = self.get(col, x, s)
        return out


def cells(c, life, T, what, must='', scale=1):
    """every filled cell is right; columns in `must` are complete"""
    for col in 'lqdAae':
        for x, row in life[col].items():
            for s, y in row.items():
                if y is None:
                    continue
                if x - T.X >= T.n:
                    continue
                c.eq(y, T.get(col, x, s) * (scale if col in 'ld' else 1), f'{what}: {col}[{x}]+{s}')
    for col in must:
        for x in T.rows():
            for s in range(T.k + 1):
                if col == 'd' and x == T.X + T.n - 1 and s == T.k:
                    continue     # needs the lives after the last age
                c.true(life[col].get(x, {}).get(s) is not None, f'{what}: {col}[{x}]+{s} is filled')


def fill(c, n, k, given, must, extra=''):
    X = 50
    v = c.prob('v', sample=(.8, .99)) if any(z in given + must for z in 'Aa') else None
    T = Sel(c, X, n, k, v=v)
    kw = {}
    for w in given.split():
        col = w[0]
        if w[1:] == '*':
            kw[col] = T.full(col)
        else:
            cs = []
            for pos in w[1:].split(','):
                r, s = pos.split('+')
                cs.append((X + (n - 1 if r == 'z' else int(r)), k if s == 'z' else int(s)))
            kw[col] = T.some(col, cs)
    life = SelectLife(periods=k)
    if v is not None:
        life.set_interest(v=v)
    sc = 1
    if 'l' not in kw and 'd' not in kw:
        life.set_table(**kw, radix=T.l(X, 0))
    else:
        life.set_table(**kw)
    cells(c, life, T, given, must, sc)


def setsel(c, n, k, comp):
    """the same table entered by duration, by age selected or by attained age"""
    X = 50
    v = c.prob('v', sample=(.8, .99))
    T = Sel(c, X, n, k, v=v, complete=comp)
    col = c.choose('column', ['q', 'l', 'd', 'A', 'a', 'e'])
    aged = c.choose('by', [True, False])
    life = SelectLife(periods=k).set_interest(v=v)
    order = c.choose('order', ['up', 'down'])
    ss = list(range(k + 1))
    for s in ss if order == 'up' else reversed(ss):
        life.set_select(s=s, age_selected=aged, **{col: {(x if aged else x + s): T.get(col, x, s) for x in T.rows()}})
    for x in T.rows():
        for s in ss:
            c.eq(life[col][x][s], T.get(col, x, s), f'{col}[{x}]+{s} by {"age selected" if aged else "age"}')
    if col in 'ql':
        life.fill_table(**({'radix': T.l(X, 0)} if col == 'q' else {}))
        cells(c, life, T, 'filled', 'q' if col == 'q' else '')


def edges(c, k):
    """cells that hold zero are known; one age at a time; nothing filled in when not asked for"""
    X = 50
    z = c.const(0)
    q = [c.prob(f'q{i}', sample=(.1, .4)) for i in range(2 * k + 2)]
    v = c.prob('v', sample=(.8, .99))
    row = [z] + q[:k]                       # nobody dies in the year of selection
    row2 = q[k + 1:2 * k + 1] + [z]           # nor in the last year
    how = c.choose('how', ['table', 'select', 'bare'])
    life = SelectLife(periods=k).set_interest(v=v)
    if how == 'select':
        for s in range(k + 1):
            life.set_select(s=s, age_selected=True, q={X: row[s]})
            life.set_select(s=s, age_selected=False, q={X + 1 + s: row2[s]}, **({'fill': True, 'radix': 700} if s == k else {}))
    else:
        life.set_table(q={X: row, X + 1: row2}, radix=700, **({'fill': False} if how == 'bare' else {}))
    for x, r in ((X, row), (X + 1, row2)):
        for s in range(k + 1):
            c.eq(life['q'][x][s], r[s], f'q[{x}]+{s}')
            c.eq(life.p_x(x, s=s, t=1), 1 - r[s], f'p[{x}]+{s}')
            c.eq(life.q_x(x, s=s, t=1), r[s], f'death within the year, [{x}]+{s}')
            if how == 'bare':
                c.true(life['l'].get(x, {}).get(s) is None, 'nothing filled in')
    c.eq(life.p_x(X, s=0, t=k + 2), math.prod(1 - y for y in row + [row2[-1]]), 'survival through the select years')
    c.eq(life.e_x(X + 1, s=k), 1, 'a certain year')
    if how != 'bare':
        c.eq(life['l'][X][0], 700, 'radix')
        for s in range(1, k + 1):
            c.eq(life['l'][X][s], 700 * math.prod(1 - y for y in row[:s]), f'lives {s}')


def build(c, X, n, k, comp, how):
    T = Sel(c, X, n, k, complete=comp)
    life = SelectLife(periods=k)
    if how == 'q':
        life.set_table(q=T.full('q'), radix=T.l(X, 0))
    else:
        life.set_table(l=T.full('l'), **({'q': T.some('q', [(X + n - 1, k)])} if how == 'lq' else {}))
    return T, life


def queries(c, n, k, how, comp=False):
    X = 50
    T, life = build(c, X, n, k, comp, how)
    x = c.choose('x', [X, X + 1, X + n - 1])
    s = c.choose('s', [0, 1, k, k + 1] if k > 1 else [0, 1, 2])
    end = T.last + 1 if how != 'l' else T.last
    for t in (0, 1, 2, k, k + 1):
        if x + s + t > end:
            continue
        c.eq(life.p_x(x, s=s, t=t), T.p(x, s, t), f'p t={t}')
        if t:
            c.eq(life.q_x(x, s=s, t=t), 1 - T.p(x, s, t), f'q t={t}')
            if x + s <= T.last:
                c.eq(life.d_x(x, s=s, t=t), T.l(x, s) * (1 - T.p(x, s, t)), f'd t={t}')
        for u in (1, k):
            if t and x + s + t + u <= end:
                c.eq(life.q_x(x, s=s, t=t, u=u), T.p(x, s, u) - T.p(x, s, u + t), f'q t={t} u={u}')
    if x + s <= T.last:
        c.eq(life.l_x(x, s=s), T.l(x, s), 'l')
    for t in (0, 1, 2, 3):
        if x + s + t <= end:
            c.eq(life.e_x(x, s=s, t=t), sum((T.p(x, s, j + 1) for j in range(t)), 0), f'limited expectation t={t}')
    if how != 'l' and x + s <= T.last:
        c.eq(life.e_x(x, s=s, t=end + 4 - x - s), sum((T.p(x, s, j + 1) for j in range(end - x - s)), 0), 'limit beyond the table')
    if comp and x + s <= T.last:
        c.eq(life.e_x(x, s=s), T.get('e', x, s), 'expectation')


def values(c, n, k, comp, given=''):
    """insurances and annuities on a select life"""
    X = 50
    v = c.prob('v', sample=(.8, .99))
    T = Sel(c, X, n, k, complete=comp, v=v)
    kw = {g: T.some(g, [(X + n - 1, k)]) for g in given}
    life = SelectLife(periods=k).set_interest(v=v).set_table(q=T.full('q'), **kw)
    b = c.nonneg('b', sample=(2, 50))
    x, s = c.choose('x', [X, X + 2]), c.choose('s', [0, 1, k])
    end = T.last + 1 - x - s
    if end <= 0:
        return
    A = lambda t, s=s: sum((v ** (j + 1) * (T.p(x, s, j) - T.p(x, s, j + 1)) for j in range(t)), 0)
    a = lambda t, s=s: sum((v ** j * T.p(x, s, j) for j in range(t)), 0)
    e = lambda t: sum((T.p(x, s, j + 1) for j in range(t)), 0)
    if comp or 'e' in given:
        c.eq(life.e_x(x, s=s), T.get('e', x, s), 'expectation')
    if comp or 'A' in given:
        c.eq(life.whole_life_insurance(x, s=s), T.get('A', x, s), 'whole life insurance')
        c.eq(life.whole_life_insurance(x, s=s, b=b), b * T.get('A', x, s), 'whole life insurance of b')
        c.eq(life.A_x(x, s=s), T.get('A', x, s), 'insurance EPV')
        c.eq(life.whole_life_annuity(x, s=s, b=b) * (1 - v), b * (1 - T.get('A', x, s)), 'whole life annuity')
    if comp or 'a' in given:
        c.eq(life.a_x(x, s=s), T.get('a', x, s), 'annuity EPV')
    if comp:
        g = c.nonneg('amount', sample=(2, 50))
        c.eq(life.a_x(x, s=s, benefit=lambda x, t: g * (t + 1)), g * sum((v ** j * (j + 1) * T.p(x, s, j) for j in range(end)), 0),
             'annuity for life with benefits')
        c.eq(life.A_x(x, s=s, benefit=lambda x, t: g * t), g * sum((v ** (j + 1) * (j + 1) * (T.p(x, s, j) - T.p(x, s, j + 1)) for j in range(end)), 0),
             'insurance for life with benefits')
    c.eq(life.e_x(x, s=s, t=0), 0, 'expectation of no time')
    c.eq(life.term_insurance(x, s=s, t=0, b=b), 0, 'term insurance of no time')
    c.eq(life.temporary_annuity(x, s=s, t=0, b=b), 0, 'annuity of no time')
    g = c.pos('g', sample=(2, 50))
    for t in (1, 2, 3):
        if t > end:
            continue
        c.eq(life.e_x(x, s=s, t=t), e(t), f'limited expectation t={t}')
        c.eq(life.endowment_insurance(x, s=s, t=t, b=b, endowment=g), b * A(t) + g * v ** t * T.p(x, s, t), f'endowment of another amount t={t}')
        c.eq(life.E_x(x, s=s, t=t), v ** t * T.p(x, s, t), f'pure endowment t={t}')
        c.eq(life.E_x(x, s=s, t=t, moment=2), v ** (2 * t) * T.p(x, s, t), f'pure endowment, second moment t={t}')
        c.eq(life.E_x(x, s=s, t=t, moment=VARIANCE), v ** (2 * t) * T.p(x, s, t) * (1 - T.p(x, s, t)), f'pure endowment, variance t={t}')
        c.eq(life.term_insurance(x, s=s, t=t, b=b), b * A(t), f'term insurance t={t}')
        c.eq(life.endowment_insurance(x, s=s, t=t, b=b), b * (A(t) + v ** t * T.p(x, s, t)), f'endowment insurance t={t}')
        c.eq(life.temporary_annuity(x, s=s, t=t, b=b), b * a(t), f'temporary annuity t={t}')
        c.eq(life.A_x(x, s=s, t=t, benefit=lambda x, t: b * t), b * sum((v ** (j + 1) * (j + 1) * (T.p(x, s, j) - T.p(x, s, j + 1)) for j in range(t)), 0),
             f'insurance EPV with benefits, t={t}')
        c.eq(life.a_x(x, s=s, t=t, benefit=lambda x, t: b * (t + 1)), b * sum((v ** j * (j + 1) * T.p(x, s, j) for j in range(t)), 0),
             f'annuity EPV with benefits, t={t}')
        if 1 + t <= end:
            c.eq(life.deferred_insurance(x, s=s, u=1, t=t, b=b), b * (A(1 + t) - A(1)), f'deferred insurance t={t}')
            c.eq(life.deferred_annuity(x, s=s, u=1, t=t, b=b), b * (a(1 + t) - a(1)), f'deferred annuity t={t}')


def fractional(c, n, k, udd):
    """fractional durations on a select table"""
    X = 50
    T = Sel(c, X, n, k)
    life = SelectLife(periods=k, udd=udd).set_table(q=T.full('q'), radix=T.l(X, 0))
    x, s = X + 1, c.choose('s', [0, 1, k])
    r = c.real('r', 0, F(1, 2))
    t = c.choose('t', [0, 1]) + c.real('t', 0, F(1, 2))
    u = t - math.floor(t) if c.mode != 'symbolic' else t

    def L(y):
        j = math.floor(y)
        f = y - j
        p = T.p(x, s, j)
        p1 = T.p1(x, s + j)
        return p * (1 - f * (1 - p1)) if udd else p * p1 ** f
    c.assume(r > 0)
    c.eq(life.p_r(x, s=s, r=r, t=t), L(r + t) / L(r), 'survival')
    c.eq(life.q_r(x, s=s, r=r, t=t), 1 - L(r + t) / L(r), 'death')
    c.eq(life.S(x, s, t), L(t), 'survival function')


def noradix(c):
    """given lives are never mixed with an arbitrary radix"""
    X = 50
    l = [c.real(f'l{i}', 1, 10000, sample=(500, 900)) for i in range(4)]
    life = SelectLife(periods=1).set_select(s=1, age_selected=False, l={X + 1 + i: y for i, y in enumerate(l)}, fill=True)
    for i, y in enumerate(l):
        c.eq(life['l'][X + i][1], y, f'l{i}')
        c.true(life['l'][X + i].get(0) is None, 'lives at selection are unknown')
        c.true(life['q'][X + i].get(0) is None, 'select mortality is unknown')
        if i < 3:
            c.eq(life['q'][X + i][1], 1 - l[i + 1] / y, f'q{i}')


FILL = {'A0+1,1+1,2+0 q0+1': '', 'a0+1,1+1,2+0 q2+0': '', 'e0+z,1+0,2+1 q1+0': '',
        
    'q*': 'qld', 'l*': 'l', 'l* qz+z': 'qld', 'q* e0+z': 'qe', 'q* ez+z': 'qe', 'q* e1+0': 'qe', 'e*': 'e', 'q* Az+z': 'qA', 'q* A0+z': 'qA', 'q* A1+0': 'qA',
    'q* az+z': 'qa', 'q* a0+z': 'qa', 'q* a1+0': 'qa', 'q* Az+z a0+z': 'qAa', 'q* l0+0': 'qld', 'q* l1+1': 'qld', 'q* lz+z': 'qld', 'q* d1+0': 'qld', 'd* q0+z': '', 'l0+0 d* qz+z': '',
    'l* e0+z': 'le', 'l* ez+z qz+z': 'qlde',
}


def instances(tier):
    th = tier == 'thorough'
    out = []
    for g, must in FILL.items():
        for n, k in [(3, 1), (3, 2)] + ([(5, 2), (4, 3)] if th else []):
            out.append(Inst(f'fill-{g.replace(" ", "_")}-{n}x{k}', lambda c, g=g, must=must, n=n, k=k: fill(c, n, k, g, must),
                            bounds=f'{n} ages, {k} select years, given {g}'))
    for comp in (False, True):
        z = '-complete' if comp else ''
        out.append(Inst(f'entry{z}', lambda c, comp=comp: setsel(c, 3, 2, comp), bounds='3 ages, 2 select years'))
        for how in ('q', 'l', 'lq'):
            if comp and how != 'q':
                continue
            for n, k in [(4, 1), (4, 2), (3, 3)]:
                out.append(Inst(f'query-{how}-{n}x{k}{z}', lambda c, n=n, k=k, how=how, comp=comp: queries(c, n, k, how, comp),
                                bounds=f'{n} ages, {k} select years'))
        for k in (1, 2):
            out.append(Inst(f'values-{k}{z}', lambda c, k=k, comp=comp: values(c, 4, k, comp), bounds=f'4 ages, {k} select years'))
    out += [Inst('values-A', lambda c: values(c, 4, 2, False, 'A')), Inst('values-a', lambda c: values(c, 4, 2, False, 'a')),
            Inst('values-Aa', lambda c: values(c, 4, 1, False, 'Aa')), Inst('values-a-complete', lambda c: values(c, 4, 1, True, 'a')), Inst('values-A-complete', lambda c: values(c, 4, 1, True, 'A')),
            Inst('values-e', lambda c: values(c, 4, 2, False, 'e')),
            Inst('fraction-udd', lambda c: fractional(c, 4, 2, True)), Inst('fraction-cfm', lambda c: fractional(c, 4, 2, False)),
            Inst('noradix', noradix), Inst('edges-1', lambda c: edges(c, 1)), Inst('edges-2', lambda c: edges(c, 2))]
    return out
