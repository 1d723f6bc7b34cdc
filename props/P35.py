"""What plots draw."""
from .common import *
from .P15 import ac
from actuarialmath import Annuity, PolicyValues, Reserves, Contract

OUTSIDE = 'how plots look (colours, widths, titles, wording); drawing (what is handed to the figure is recorded instead); continuous plots between the points checked'


class Axis:
    """stands in for the figure: keeps the curves and points drawn, with their labels"""

    def __init__(self):
        self.curves, self.marks, self.twin = [], [], None

    def draw(self, *a, label=None, **k):
        a = list(a)
        x = a.pop(0) if a else k['x']
        y = a.pop(0) if a and not isinstance(a[0], str) else next((k[n] for n in ('y', 'height', 'y1', 'heads') if n in k), None)
        if y is None:
            x, y = range(len(x)), x
        if not hasattr(x, '__len__') or getattr(x, 'shape', None) == ():
            x, y = [x], [y]
        xs, ys = list(x), list(y)
        assert len(xs) == len(ys)
        if len(xs) == 1:
            self.marks.append((xs[0], ys[0], label))
        else:
            self.curves.append(list(zip(xs, ys)))
        return [label]

    bar = plot = step = scatter = stem = fill_between = draw

    def twinx(self):
        assert self.twin is None
        self.twin = Axis()
        return self.twin

    def get_xlim(self):
        return 0., 1.

    get_ylim = get_xlim

    def __getattr__(self, k):
        return lambda *a, **k: None


def show(c, X, W, sel=0):
    """discrete plots"""
    T = Tab(c, X, W, 'p', sel)
    v = c.real('v', F(1, 20), F(99, 100), sample=(.8, .97))
    b0, b1 = c.real('b0', 1, 50, sample=(1, 20)), c.real('b1', 0, 5, sample=(0, 2))
    P, e0, s0 = c.real('P', 0, 10, lo_open=False), c.real('e0', 0, 10, lo_open=False), c.real('s0', 0, 10, lo_open=False)
    life = PolicyValues().set_interest(v=v).set_survival(S=T.S_udd, f=T.f_udd, minage=0, maxage=W)
    f = c.choose('plot', ['Z', 'Y', 'L'])
    x, s = X, c.choose('s', [0, 1])
    stop = c.choose('stop', [0, 2])
    t = c.choose('T', [None, 0, 1, F(3, 2)])
    t = float(t) if isinstance(t, F) else t
    dual = c.choose('dual', [False, True])
    ax = Axis()
    C = Contract(premium=P, benefit=b0, initial_policy=e0, settlement_policy=s0)
    benefit = lambda a, k: b0 + b1 * k + a       # of age and time
    d = 1 - v
    Y = lambda t: (1 - v ** (math.floor(t) + 1)) / d
    val = {'Z': lambda t: benefit(x, s + t) * v ** (math.floor(t) + 1), 'Y': lambda t: benefit(x, s + t) * Y(t),
           'L': lambda t: (b0 + s0) * v ** (math.floor(t) + 1) + e0 - P * Y(t)}[f]
    kw = dict(s=s, stop=stop, T=t, ax=ax, dual=dual)
    got = (life.Z_plot(x, benefit=benefit, **kw) if f == 'Z' else life.Y_plot(x, benefit=benefit, **kw) if f == 'Y' else life.L_plot(x, contract=C, **kw))
    n = stop or W - x - s
    check(c, ax, [(k, val(k)) for k in range(n + 1)], None if t is None else (t, val(t)), f)
    if t is None:
        c.same(got, None, 'nothing annotated')
    else:
        c.eq(got, val(t), 'annotated value')
    c.same(ax.twin is not None, dual, 'second axis')
    if dual:
        check(c, ax.twin, [(k, T.p(x, s, k)) for k in range(n + 1)], None if t is None else (t, T.S_udd(x, s, t)), 'survival')


def near(a, b):
    return len(a) == len(b) and all(abs(float(x) - y) < 1e-9 for x, y in zip(a, b))


def check(c, ax, curve, mark, what):
    c.true(len(ax.curves) > 0, f'{what}: drawn')
    for pts in ax.curves:
        c.true(near([a for a, _ in pts], [a for a, _ in curve]), f'{what}: times')
        for (k, y), (_, z) in zip(pts, curve):
            c.eq(y, z, f'{what} at {k}')
    c.true(bool(ax.marks) == (mark is not None), f'{what}: annotation')
    for m in ax.marks if mark is not None else []:
        c.true(near(m[:1], mark[:1]), f'{what}: time annotated')
        c.eq(m[1], mark[1], f'{what}: value annotated')


def smooth(c):
    """continuous plots: a thousand steps of an eighth of a year"""
    v = c.real('v', F(1, 20), F(99, 100), sample=(.9, .97))
    p = c.real('p', F(1, 2), F(99, 100), sample=(.9, .97))
    b = c.real('b', 1, 50)
    P = c.real('P', 0, 10, lo_open=False)
    life = PolicyValues().set_interest(v=v).set_survival(S=lambda x, s, t: p ** t, f=lambda x, s, t: -math.log(p) * p ** t, minage=0, maxage=165)
    f = c.choose('plot', ['Z', 'Y', 'L'])
    s = c.choose('s', [0, 1])
    ax = Axis()
    D = dict(discrete=False)
    dl = -math.log(v)
    val = {'Z': lambda t: b * v ** t, 'Y': lambda t: b * (1 - v ** t) / dl, 'L': lambda t: b * v ** t - P * (1 - v ** t) / dl}[f]
    kw = dict(s=s, stop=125, T=1.5, ax=ax, dual=True)
    got = (life.Z_plot(40, benefit=lambda x, t: b, **D, **kw) if f == 'Z' else life.Y_plot(40, benefit=lambda x, t: b, **D, **kw) if f == 'Y'
           else life.L_plot(40, contract=Contract(premium=P, benefit=b, discrete=False), **kw))
    c.eq(got, val(1.5), 'annotated value')
    c.true(near([a for a, _ in ax.curves[0]][:1001], [k / 8 for k in range(1001)]), 'times')
    for k in [0, 1, 7, 8, 500, 1000] if f != 'Z' else range(0, 1001, 50):
        c.eq(ax.curves[0][k][1], val(k / 8), f'{f} at {k}')
        c.eq(ax.twin.curves[0][k][1], p ** (k / 8), f'survival at {k}')
    c.eq(ax.marks[0][1], val(1.5), 'value annotated')
    c.eq(ax.twin.marks[0][1], p ** 1.5, 'survival annotated')


def label(c, text, T, value, what):
    """a label of the form  ..(T)=value"""
    if text:
        m = re.fullmatch(r'(.+?)(?:\(|>)(.+?)(?:\)|\])=(.+)', text)
        c.true(m is not None, f'{what}: form of the label')
        if m:
            shown(c, m.group(2), T, 2, f'{what}: time on the label')
            shown(c, m.group(3), value, 4, f'{what}: value on the label')


def bars(c, fig, n, want, what, step=1):
    """a curve through each time from 0 to n"""
    c.true(len(fig.curves) > 0, f'{what}: drawn')
    for pts in fig.curves:
        c.true(len(pts) >= n / step + 1, f'{what}: to the end')
        for k in range(n + 1):
            j = round(k / step)
            if step == 1 or k in (0, 1, 2, n):
                c.eq(pts[j][0], k, f'{what}: time {k}')
                c.eq(pts[j][1], want(k), f'{what}: height at time {k}')


def point(c, fig, T, value, what):
    c.true(bool(fig.marks) == (T is not None), f'{what}: a point only when asked for')
    for px, py, lab in fig.marks if T is not None else []:
        c.eq(px, T, f'{what}: time of the point')
        c.eq(py, value, f'{what}: height of the point')
        label(c, lab, T, value, what)


def values(c, kind, sel):
    X, W = 40, 45
    T_ = Tab(c, X, W, 'p', sel)
    zero = c.choose('zero', [False, True]) if kind == 'Y' else False
    v = c.const(1) if zero else c.real('v', F(1, 20), F(99, 100), sample=(.8, .98))
    life = c.choose('class', [Annuity, PolicyValues])().set_interest(i=1 / v - 1).set_survival(S=T_.S_udd, f=T_.f_udd, minage=0, maxage=W)
    x, s = X, c.choose('s', [0, 1])
    n = W - x - s
    stop = c.choose('stop', [0, 2])
    dual = c.choose('dual', [False, True])
    disc_ = c.choose('discrete', [True, False])
    b = c.pos('b', sample=(1, 50))
    benefit = c.choose('benefit', [None, 'varying'])
    kw = {} if benefit is None else dict(benefit=lambda x, t: b * (x + 3 * t))
    B = (lambda t: 1) if benefit is None else (lambda t: b * (x + 3 * (s + t)))
    dl = -math.log(v)
    if kind == 'Z':
        val = lambda t: B(t) * (v ** (math.floor(t) + 1) if disc_ else v ** t)
    else:
        val = lambda t: B(t) * (ac(v, math.floor(t) + 1) if disc_ else t if zero else (1 - v ** t) / dl)
    at = c.choose('at', [None, 0, 1])
    T = None if at is None else at + c.real('r', 0, 1, sample=(.1, .9))
    fig = Axis()
    f = life.Z_plot if kind == 'Z' else life.Y_plot
    got = f(x, s=s, stop=stop, ax=fig, dual=dual, discrete=disc_, T=T, **kw)
    m = stop or n
    step = 1 if disc_ else m / 1000
    bars(c, fig, m, val, kind, step)
    if T is None:
        c.true(got is None, 'nothing to report')
    else:
        c.eq(got, val(T), 'value at the time asked for')
    point(c, fig, T, val(T) if T is not None else None, kind)
    c.true((fig.twin is not None) == dual, 'second axis only when asked for')
    if dual:
        bars(c, fig.twin, m, lambda k: T_.p(x, s, k), 'survival', step)
        point(c, fig.twin, T, T_.S_udd(x, s, T) if T is not None else None, 'survival')


def losses(c, disc_):
    X, W = 40, 45
    T_ = Tab(c, X, W, 'p')
    v = c.real('v', F(1, 20), F(99, 100), sample=(.8, .98))
    life = PolicyValues().set_interest(v=v).set_survival(S=T_.S_udd, f=T_.f_udd, minage=0, maxage=W)
    x, s = X, c.choose('s', [0, 1])
    P, b = c.pos('premium', sample=(1, 20)), c.pos('b', sample=(10, 50))
    ip, rp = c.real('ip', 0, 1, sample=(.1, .3), lo_open=False), c.real('rp', 0, 1, sample=(.01, .1), lo_open=False)
    iy, ry, sy = c.pos('iy', sample=(1, 5)), c.pos('ry', sample=(1, 2)), c.pos('sy', sample=(1, 2))
    con = Contract(premium=P, benefit=b, initial_premium=ip, renewal_premium=rp, initial_policy=iy, renewal_policy=ry, settlement_policy=sy, discrete=disc_)
    dl = -math.log(v)

    def val(t):
        k = math.floor(t) if disc_ else t
        Z, Y = (v ** (k + 1), ac(v, k + 1)) if disc_ else (v ** t, (1 - v ** t) / dl)
        return (b + sy) * Z + iy - ry + P * (ip - rp) - (P * (1 - rp) - ry) * Y
    stop, dual = c.choose('stop', [0, 2]), c.choose('dual', [False, True])
    at = c.choose('at', [None, 0, 1])
    T = None if at is None else at + c.real('r', 0, 1, sample=(.1, .9))
    fig = Axis()
    got = life.L_plot(x, s=s, stop=stop, ax=fig, dual=dual, T=T, contract=con)
    m = stop or W - x - s
    step = 1 if disc_ else m / 1000
    bars(c, fig, m, val, 'L', step)
    if T is None:
        c.true(got is None, 'nothing to report')
    else:
        c.eq(got, val(T), 'loss at the time asked for')
    point(c, fig, T, val(T) if T is not None else None, 'L')
    c.true((fig.twin is not None) == dual, 'second axis only when asked for')
    if dual:
        bars(c, fig.twin, m, lambda k: T_.p(x, s, k), 'survival', step)
        point(c, fig.twin, T, T_.S_udd(x, s, T) if T is not None else None, 'survival')


def reserves(c):
    n = c.choose('n', [1, 3, 5])
    have = [t for t in range(1, n) if c.choose(f'have{t}', [True, False])]
    V = {t: c.real(f'V{t}', -1000, 1000, sample=(10, 90)) for t in have}
    e = c.real('endowment', 0, 1000, sample=(10, 90), lo_open=False)
    life = Reserves().set_reserves(T=n, endowment=e, V=V)
    fig = Axis()
    life.V_plot(ax=fig, title='x')
    got = {}
    for t, y in [(t, y) for pts in fig.curves for t, y in pts] + [m[:2] for m in fig.marks]:
        if y is not None and not math.isnan(y):
            got[int(t)] = y
    c.same(sorted(got), sorted({0, n, *V}), 'times')
    for t, y in {0: 0, **V, n: e}.items():
        if t in got:
            c.eq(got[t], y, f'reserve {t}')


def figures():
    out = []
    for k in 'ZY':
        for sel in (0, 2):
            out.append(Inst(f'value-{k}-{sel}', lambda c, k=k, sel=sel: values(c, k, sel), bounds='5 ages', max_paths=2000))
    out += [Inst('loss-disc', lambda c: losses(c, True), bounds='5 ages', max_paths=2000), Inst('loss-cont', lambda c: losses(c, False), bounds='5 ages', max_paths=2000),
            Inst('reserves', reserves, bounds='up to 5 years')]
    return out


def instances(tier):
    deep = tier == 'thorough'
    return [Inst('show-3', lambda c: show(c, 50, 53 if not deep else 55), bounds='3 ages', max_paths=3000),
            Inst('show-3-sel', lambda c: show(c, 50, 53, 2), bounds='3 ages', max_paths=3000),
            Inst('smooth', smooth, bounds='125 years of eighths')] + figures()
