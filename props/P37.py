"""Root finding, integration, differentiation and arithmetic of terms."""
from .common import *
from engine import patches
from actuarialmath import Actuarial, Contract, Life, Premiums
import numpy as np
import scipy.optimize

OUTSIDE = 'convergence and accuracy of the numerical routines (exact in the analysis, compared within tolerance in the replay); functions other than those listed'


class Start:
    """notes where root finding starts"""

    def __enter__(self):
        self.orig, self.x0, self.f = scipy.optimize.fsolve, [], []

        def g(f, x0, *a, **k):
            self.x0.append(x0)
            return self.orig(f, x0, *a, **k)
        scipy.optimize.fsolve = g
        patches.ALL_GUESSES.append(self)
        return self

    def __exit__(self, *a):
        scipy.optimize.fsolve = self.orig
        patches.ALL_GUESSES.clear()


def first(x):
    while hasattr(x, '__len__') and not isinstance(x, (str, bytes)):
        x = x[0]
    return x


FUNS = {'line': lambda k, a: lambda x: k * x - a, 'falling': lambda k, a: lambda x: a - k * x, 'decay': lambda k, a: lambda x: k * math.exp(-x / 4) + a,
        'square': lambda k, a: lambda x: k * x * x + a * x, 'power': lambda k, a: lambda x: k * x ** 3 + a}


def solve(c, name):
    k, a = c.real('k', F(1, 2), 4, sample=(1, 2)), c.real('a', F(1, 10), 3, sample=(.5, 2))
    g = FUNS[name](k, a)
    sol = c.real('solution', 1, 9, sample=(2, 6))
    target = g(sol)
    calls = []

    def fun(x):
        calls.append(x)
        return g(x)
    grid = c.choose('grid', [[1, 9], (1, 9), [9, 1], [2, 8, 4], 5])
    with Start() as st:
        r = c.choose('through', [Actuarial, Life, Premiums()]).solve(fun, target=target, grid=grid)
    c.eq(g(r), target, 'value at the solution', rtol=1e-5, atol=1e-5)
    if c.mode == 'concrete' or name not in ('square', 'power', 'decay'):
        c.eq(r, sol, 'solution', rtol=1e-4, atol=1e-4)
    c.true(len(calls) > 0, 'the function is called')
    if c.mode == 'symbolic':
        c.eq(calls[-1], r, 'the last call is at the solution')
    else:
        c.true(np.ndim(calls[-1]) == 0 and math.isclose(calls[-1], r, rel_tol=1e-9), 'the last call is at the solution')
    if st.x0:
        x0 = first(st.x0[0])
        if grid == 5:
            c.eq(x0, 5, 'start at the guess')
        else:
            c.le(min(grid), x0, 'start in the range')
            c.le(x0, max(grid), 'start in the range')
            for end in grid if len(grid) == 2 else (2, 8):
                c.le(abs(g(x0) - target), abs(g(end) - target), 'no worse a start than either end')


def least(c):
    """nearest to the target, by absolute difference"""
    k, a = c.real('k', F(1, 2), 4, sample=(1, 2)), c.real('a', F(1, 10), 3, sample=(.5, 2))
    sol = c.real('solution', 2, 8, sample=(2, 6))
    g = lambda x: k * x + a
    r = Actuarial.solve(g, target=g(sol), grid=[1, 9], mad=True)
    c.eq(r, sol, 'solution', rtol=1e-4, atol=1e-4)


def state(c):
    """a model that the function changes is left at the solution"""
    sol = c.real('solution', F(1, 100), F(1, 5), sample=(.02, .1))
    con = Contract(premium=1)

    def fun(P):
        con.set_contract(premium=P, benefit=2 * P)
        return 3 * con.premium
    with Start():
        r = Life().solve(fun, target=3 * sol, grid=c.choose('grid', [[.01, .2], .05]))
    c.eq(r, sol, 'solution', rtol=1e-5)
    c.eq(con.premium, r, 'the contract at the solution', rtol=1e-9)
    c.eq(con.benefit, 2 * r, 'its other terms too', rtol=1e-9)


def terms(c):
    """terms add up, whole life absorbing; terms end at the last age"""
    life = Actuarial()
    W = c.choose('last', [100, 64])
    life._MAXAGE = W
    t, n = c.real('t', 0, 200, sample=(1, 60), lo_open=False), c.real('n', 0, 200, sample=(1, 60), lo_open=False)
    c.eq(life.add_term(t, n), t + n, 'sum of terms')
    for y in (t, 0, WHOLE):
        c.same(life.add_term(y, WHOLE), WHOLE, 'anything and the whole of life')
        c.same(life.add_term(WHOLE, y), WHOLE, 'the whole of life and anything')
    x, u = c.real('x', 0, 100, sample=(20, 40), lo_open=False), c.real('u', 0, 50, sample=(1, 10), lo_open=False)
    c.assume(x + u <= W)
    left = W - x - u
    c.eq(life.max_term(x, WHOLE, u), left, 'whole of life')
    got = life.max_term(x, t, u)
    c.eq(got, t if t <= left else left, 'term after deferral')
    c.assume(x <= W)
    got = life.max_term(x, t)
    c.eq(got, t if t <= W - x else W - x, 'term')
    c.eq(life.max_term(x, WHOLE), W - x, 'whole of life, not deferred')


def calculus(c):
    k, a, p = c.real('k', F(1, 2), 4, sample=(1, 2)), c.real('a', F(1, 10), 3, sample=(.5, 2)), c.real('p', F(1, 20), F(1, 2), sample=(.1, .4))
    lo, w = c.real('lo', 0, 4, sample=(1, 3)), c.real('width', F(1, 10), 6, sample=(1, 5))
    hi = lo + w
    I = Actuarial.integral
    c.eq(I(lambda t: k * t + a, lo, hi), k * (hi * hi - lo * lo) / 2 + a * w, 'integral of a line', rtol=1e-6)
    c.eq(I(lambda t: k * math.exp(-p * t), lo, hi), k * (math.exp(-p * lo) - math.exp(-p * hi)) / p, 'integral of an exponential', rtol=1e-6)
    c.eq(I(lambda t: k * t * t, upper=hi, lower=lo), k * (hi ** 3 - lo ** 3) / 3, 'integral of a square', rtol=1e-6)
    c.eq(I(lambda t: k, lo, lo), 0, 'nothing to integrate', atol=1e-9)
    D = Actuarial.derivative
    c.eq(D(lambda t: k * t + a, lo), k, 'slope of a line', rtol=1e-5)
    c.eq(D(lambda t: k * t * t - a * t, x=hi), 2 * k * hi - a, 'slope of a square', rtol=1e-5, atol=1e-5)
    c.eq(D(lambda t: a if t < -100 else k * t, hi), k, 'slope of a function of numbers only', rtol=1e-5)


def near(c):
    """closeness to zero or another value"""
    y = c.real('target', -5, 5, sample=(1, 3))
    e = c.real('away', F(1, 1000), 5, sample=(.01, 2))
    for s in (1, -1):
        c.true(not Actuarial.isclose(s * e), 'away from zero')
        c.true(not Actuarial.isclose(y + s * e, y), 'away from the target')
        c.true(not Actuarial.isclose(y, target=y + s * e), 'away from the target')
    tol = c.real('tolerance', F(1, 1000), F(1, 10), sample=(.01, .1))
    c.true(Actuarial.isclose(y + tol * F(99, 100), y, abs_tol=tol), 'within the tolerance given')
    c.true(not Actuarial.isclose(y + tol * F(101, 100), y, abs_tol=tol), 'beyond the tolerance given')
    c.true(Actuarial.isclose(y, y), 'at the target')
    c.true(Actuarial.isclose(y - y), 'at zero')


def instances(tier):
    return [Inst(f'solve-{n}', lambda c, n=n: solve(c, n), bounds='five guesses, three callers', max_paths=2000) for n in FUNS] + [
        Inst('least', least), Inst('state', state), Inst('terms', terms), Inst('calculus', calculus), Inst('near', near)]
