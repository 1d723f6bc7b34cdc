"""Recursion: whatever it derives from given facts is what follows from them."""
from itertools import combinations
from engine.alg import EngineUnsupported
from .common import *
from actuarialmath import Recursion

OUTSIDE = 'sets of more than three given facts other than those listed; display of the steps; ages, terms and depths other than those listed'
X = 40


class Model:
    """any mortality over N years and any values at the age then reached; all else follows year by year"""

    def __init__(self, c, N=4):
        self.c, self.N = c, N
        self.v = c.real('v', F(1, 20), F(99, 100), sample=(.8, .97))
        self.p = [c.real(f'p{k}', F(1, 10), F(99, 100), sample=(.6, .95)) for k in range(N)]
        self.memo = {}

    def tail(self, name):
        if name not in self.memo:
            c = self.c
            if name in ('A1', 'A2', 'Z1', 'Z2'):
                self.memo[name] = c.real(name, F(1, 100), F(9, 10), sample=(.3, .6))
            else:
                self.memo[name] = c.real(name, 1, 50, sample=(3, 12))
        return self.memo[name]

    def h(self, k):     # expected part of year k lived
        return self.c.real(f'h{k}', F(1, 10), 1, sample=(.9, .99))

    def z(self, k, m):  # present value of 1 on death in year k, continuous
        return self.c.real(f'z{k},{m}', F(1, 1000), 1, sample=(.05, .2))

    def tp(self, k, t):
        out = 1
        for j in range(k, k + t):
            out = out * self.p[j]
        return out

    # each takes the age offset k and term t (negative: whole life)
    def P(self, k, t=1):
        return self.tp(k, t)

    def Q(self, k, t=1, u=0):
        return self.tp(k, u) - (0 if t < 0 else self.tp(k, u + t))

    def e(self, k, t=WHOLE, curtate=False, moment=1):
        if moment != 1:
            return self.tail(f'e{k},{t},{curtate},{moment}')    # only given and asked for
        n = self.N - k if t < 0 else t
        out = 0
        for j in range(k, k + n):
            out = out + self.tp(k, j - k) * (self.p[j] if curtate else self.h(j))
        if t < 0:
            out = out + self.tp(k, n) * self.tail('e' + 'c' * curtate)
        return out

    def E(self, k, t=1, endowment=1, moment=1):
        q = (endowment * self.v ** t)
        if moment == VARIANCE:
            return q ** 2 * self.tp(k, t) * (1 - self.tp(k, t))
        return q ** moment * self.tp(k, t)

    def A(self, k, t=WHOLE, u=0, b=1, moment=1, endowment=0, discrete=True):
        if moment == VARIANCE:
            f = lambda m: self.A(k, t, u, b, m, endowment, discrete)
            return f(2) - f(1) ** 2
        if u:
            return self.E(k, u, moment=moment) * self.A(k + u, t, 0, b, moment, endowment, discrete)
        if endowment < 0:
            endowment = b
        w = self.v ** moment
        n = self.N - k if t < 0 else t
        out = 0
        for j in range(n):
            one = w * (1 - self.p[k + j]) if discrete else self.z(k + j, moment)
            out = out + w ** j * self.tp(k, j) * one * b ** moment
        if t < 0:
            out = out + w ** n * self.tp(k, n) * self.tail(('A' if discrete else 'Z') + str(moment)) * b ** moment
        else:
            out = out + (endowment * self.v ** n) ** moment * self.tp(k, n)
        return out

    def a(self, k, t=WHOLE, u=0, b=1, discrete=True, variance=False):
        d = 1 - self.v if discrete else -math.log(self.v)
        A = lambda k, t, m=1: self.A(k, t, moment=m, endowment=0 if t < 0 else 1, discrete=discrete)
        if variance:
            return b * b * (A(k, t, 2) - A(k, t) ** 2) / d ** 2
        if u:
            return b * self.E(k, u) * self.a(k + u, t, discrete=discrete)
        return b * (1 - A(k, t)) / d

    def y(self, k):     # present value of the part of year k lived, on death in it, continuous
        return self.c.real(f'y{k}', F(1, 1000), F(1, 2), sample=(.02, .1))

    def IA(self, k, t=WHOLE, b=1, dec=False, discrete=True):
        n = self.N - k if t < 0 else t
        out = 0
        if not discrete:
            for j in range(n):
                one = (n - j) * self.z(k + j, 1) - self.y(k + j) if dec else j * self.z(k + j, 1) + self.y(k + j)
                out = out + b * self.v ** j * self.tp(k, j) * one
            return out + b * self.v ** n * self.tp(k, n) * (self.tail('IZ') + n * self.tail('Z1')) if t < 0 else out
        for j in range(n):
            out = out + (n - j if dec else j + 1) * b * self.v ** (j + 1) * self.tp(k, j) * (1 - self.p[k + j])
        if t < 0:
            out = out + b * self.v ** n * self.tp(k, n) * (self.tail('IA') + n * self.tail('A1'))
        return out

    def DA(self, k, t, b=1, discrete=True):
        return self.IA(k, t, b, dec=True, discrete=discrete)


SET = dict(P='set_p', Q='set_q', e='set_e', E='set_E', A='set_A', a='set_a', IA='set_IA', DA='set_DA')


def query(life, M, name, k, s, kw):
    """(answer or None, truth)"""
    kw = dict(kw)
    x = X + k - s
    if name in ('P', 'Q', 'e', 'E'):
        return getattr(life, dict(P='p_x', Q='q_x', e='e_x', E='E_x')[name])(x, s=s, **kw)
    if name == 'IA':
        return life.increasing_insurance(x, s=s, **kw)
    if name == 'DA':
        return life.decreasing_insurance(x, s=s, **kw)
    if name == 'A':
        if kw.get('u'):
            return life.deferred_insurance(x, s=s, **kw)
        if 'endowment' in kw:
            return life.endowment_insurance(x, s=s, **kw)
        return life.term_insurance(x, s=s, **kw) if 't' in kw else life.whole_life_insurance(x, s=s, **kw)
    if kw.get('u'):
        return life.deferred_annuity(x, s=s, **kw)
    return life.temporary_annuity(x, s=s, **kw) if 't' in kw else life.whole_life_annuity(x, s=s, **kw)


def given(life, M, facts, s0=0):
    for i, (name, k, kw) in enumerate(facts):
        s = (i + s0) % 2
        getattr(life, SET[name])(getattr(M, name)(k, **kw), X + k - s, s=s, **kw)


def ask(c, facts, q, depth, must, N=4):
    M = Model(c, N)
    life = Recursion(depth=depth, verbose=False).set_interest(v=M.v)
    given(life, M, facts)
    name, k, kw = q
    s = c.choose('s', [0, 2]) if must else 0
    if name == 'A' and kw.get('moment') == VARIANCE:    # of consistent moments
        c.assume(M.A(k, **dict(kw, b=1)) > 0)
    if must:
        got = query(life, M, name, k, s, kw)
        c.true(got is not None, f'{q} follows from {facts}')
    else:
        try:
            got = query(life, M, name, k, s, kw)
        except EngineUnsupported:
            raise
        except Exception:       # cannot be derived
            got = None
    if got is not None:
        c.eq(got, getattr(M, name)(k, **kw), f'{q} from {facts}')


def D(**kw):
    return kw


# facts from which the answer is known to follow
MUST = [
    # survival and mortality
    ([('P', 0, D(t=1))], ('Q', 0, D(t=1))), ([('Q', 0, D(t=1))], ('P', 0, D(t=1))),
    ([('P', 0, D()), ('P', 1, D())], ('P', 0, D(t=2))), ([('Q', 0, D()), ('Q', 1, D())], ('P', 0, D(t=2))),
    ([('P', 0, D()), ('P', 1, D()), ('P', 2, D())], ('P', 0, D(t=3))), ([('P', 0, D(t=2)), ('P', 2, D())], ('P', 0, D(t=3))),
    ([('P', 0, D(t=3)), ('P', 0, D())], ('P', 1, D(t=2))), ([('P', 0, D(t=3)), ('P', 2, D())], ('P', 0, D(t=2))),
    ([('P', 0, D(t=2)), ('P', 0, D())], ('P', 1, D())), ([('P', 0, D(t=2)), ('P', 1, D())], ('P', 0, D())),
    ([('P', 0, D()), ('Q', 1, D())], ('Q', 0, D(t=1, u=1))), ([('P', 0, D(t=2)), ('Q', 2, D(t=2))], ('Q', 0, D(t=2, u=2))),
    ([('Q', 0, D(t=1)), ('Q', 0, D(t=3))], ('Q', 0, D(t=2, u=1))), ([('P', 0, D(t=1)), ('P', 0, D(t=3))], ('Q', 0, D(t=2, u=1))),
    ([('P', 0, D(t=3))], ('Q', 0, D(t=3))), ([('P', 0, D())], ('Q', 0, D(t=WHOLE))), ([('P', 0, D(t=2))], ('Q', 0, D(t=WHOLE, u=2))),
    # from values
    ([('E', 0, D())], ('P', 0, D())), ([('a', 0, D()), ('a', 1, D())], ('P', 0, D())), ([('A', 0, D()), ('A', 1, D())], ('P', 0, D())),
    ([('a', 0, D(t=3)), ('a', 1, D(t=2))], ('P', 0, D())), ([('a', 0, D(t=2))], ('P', 0, D())), ([('A', 0, D(t=3)), ('A', 1, D(t=2))], ('P', 0, D())),
    ([('A', 0, D(t=3, endowment=1)), ('A', 1, D(t=2, endowment=1))], ('P', 0, D())), ([('A', 0, D(t=3, endowment=1)), ('A', 0, D(t=3))], ('E', 0, D(t=3))),
    # pure endowments
    ([('P', 0, D(t=2))], ('E', 0, D(t=2))), ([('P', 0, D(t=2))], ('E', 0, D(t=2, endowment=50))), ([('P', 0, D(t=2))], ('E', 0, D(t=2, endowment=50, moment=2))),
    ([('P', 0, D(t=2))], ('E', 0, D(t=2, endowment=50, moment=VARIANCE))), ([('E', 0, D(t=2))], ('E', 0, D(t=2, moment=2))), ([('E', 0, D(t=2))], ('E', 0, D(t=2, moment=2, endowment=50))),
    ([('E', 0, D(t=2, endowment=50))], ('E', 0, D(t=2))), ([('E', 0, D(t=2, endowment=50, moment=2))], ('E', 0, D(t=2, endowment=5, moment=2))),
    ([('E', 0, D()), ('E', 1, D(t=2))], ('E', 0, D(t=3))), ([('E', 0, D()), ('E', 1, D())], ('E', 0, D(t=2, endowment=50))), ([('E', 0, D(t=2))], ('E', 0, D(t=0, endowment=50))),
    # expected lifetimes
    ([('e', 0, D(curtate=True))], ('e', 0, D(curtate=True))), ([('P', 0, D())], ('e', 0, D(t=1, curtate=True))),
    ([('e', 1, D(curtate=True)), ('P', 0, D())], ('e', 0, D(curtate=True))), ([('e', 0, D(curtate=True)), ('P', 0, D())], ('e', 1, D(curtate=True))),
    ([('e', 0, D()), ('e', 2, D()), ('P', 0, D(t=2))], ('e', 0, D(t=2))), ([('e', 0, D(t=2)), ('e', 2, D()), ('P', 0, D(t=2))], ('e', 0, D())),
    ([('e', 0, D(t=1)), ('e', 1, D(t=2)), ('P', 0, D())], ('e', 0, D(t=3))), ([('e', 0, D(t=3)), ('e', 0, D(t=1)), ('P', 0, D())], ('e', 1, D(t=2))),
    # insurances
    ([('A', 1, D()), ('P', 0, D())], ('A', 0, D())), ([('A', 1, D()), ('P', 0, D())], ('A', 0, D(b=50))), ([('A', 0, D()), ('Q', 0, D())], ('A', 1, D())), ([('A', 0, D(b=50)), ('Q', 0, D())], ('A', 1, D(b=5))),
    ([('A', 1, D(moment=2)), ('P', 0, D())], ('A', 0, D(moment=2, b=50))), ([('A', 0, D(moment=2)), ('P', 0, D())], ('A', 1, D(moment=2, b=50))), ([('A', 0, D(moment=2, b=50))], ('A', 0, D(moment=2))),
    ([('a', 0, D())], ('A', 0, D())), ([('a', 0, D())], ('A', 0, D(b=50))), ([('a', 0, D(discrete=False))], ('A', 0, D(b=50, discrete=False))), ([('a', 0, D(t=3))], ('A', 0, D(t=3, endowment=1))),
    ([('a', 0, D(t=3))], ('A', 0, D(t=3, endowment=50, b=50))), ([('Q', 0, D())], ('A', 0, D(t=1, b=50))), ([('Q', 0, D())], ('A', 0, D(t=1, b=50, moment=2))), ([('Q', 0, D())], ('A', 0, D(t=1, b=50, endowment=20))),
    ([('Q', 0, D()), ('Q', 1, D())], ('A', 0, D(t=2, b=50))), ([('Q', 0, D()), ('Q', 1, D())], ('A', 0, D(t=2, b=50, endowment=20))), ([('Q', 0, D()), ('Q', 1, D())], ('A', 0, D(t=2, b=50, endowment=50))),
    ([('Q', 0, D()), ('Q', 1, D())], ('A', 0, D(t=2, b=50, moment=2, endowment=20))), ([('Q', 0, D()), ('Q', 1, D())], ('A', 0, D(t=2, b=50, moment=VARIANCE))), ([('Q', 0, D())], ('A', 0, D(t=1, moment=VARIANCE))),
    ([('A', 0, D(t=3, endowment=1)), ('P', 0, D(t=3))], ('A', 0, D(t=3))), ([('A', 0, D(t=3)), ('P', 0, D(t=3))], ('A', 0, D(t=3, endowment=1))), ([('A', 0, D(t=3)), ('E', 0, D(t=3))], ('A', 0, D(t=3, b=50, endowment=50))),
    ([('A', 0, D()), ('A', 2, D()), ('P', 0, D(t=2))], ('A', 0, D(t=2))), ([('A', 0, D()), ('A', 2, D()), ('P', 0, D(t=2))], ('A', 0, D(t=2, b=50))), ([('A', 0, D()), ('A', 0, D(moment=2))], ('A', 0, D(moment=VARIANCE, b=50))),
    ([('A', 0, D(t=2)), ('A', 0, D(t=2, moment=2))], ('A', 0, D(t=2, moment=VARIANCE, b=50))), ([('A', 2, D()), ('P', 0, D(t=2))], ('A', 0, D(u=2, b=50))), ([('A', 0, D(u=2))], ('A', 0, D(u=2, b=50))),
    ([('A', 1, D(t=2)), ('P', 0, D())], ('A', 0, D(t=2, u=1))), ([('A', 0, D(t=2, endowment=50, b=100))], ('A', 0, D(t=2, endowment=5, b=10))),
    # annuities
    ([('a', 1, D()), ('P', 0, D())], ('a', 0, D())), ([('a', 1, D()), ('P', 0, D())], ('a', 0, D(b=50))), ([('a', 0, D()), ('P', 0, D())], ('a', 1, D(b=50))), ([('A', 0, D())], ('a', 0, D())), ([('A', 0, D())], ('a', 0, D(b=50))),
    ([('A', 0, D(discrete=False))], ('a', 0, D(b=50, discrete=False))), ([('A', 0, D(t=3, endowment=1))], ('a', 0, D(t=3, b=50))), ([('a', 0, D(b=50))], ('a', 0, D(b=5))), ([('P', 0, D()), ('P', 1, D())], ('a', 0, D(t=3, b=50))),
    ([('a', 0, D(t=3)), ('P', 0, D())], ('a', 1, D(t=2, b=50))), ([('a', 2, D()), ('E', 0, D(t=2))], ('a', 0, D(u=2, b=50))), ([('a', 0, D()), ('a', 0, D(t=2))], ('a', 0, D(u=2, b=50))), ([('a', 1, D(u=1)), ('P', 0, D())], ('a', 0, D(u=2))),
    ([('a', 0, D(u=2)), ('P', 0, D())], ('a', 1, D(u=1, b=50))), ([('a', 2, D(t=2)), ('P', 0, D()), ('P', 1, D())], ('a', 0, D(t=2, u=2))), ([('a', 0, D(u=1, t=2, b=50))], ('a', 0, D(u=1, t=2))),
    ([('a', 0, D(variance=True))], ('a', 0, D(variance=True, b=50))), ([('a', 0, D(variance=True, b=50))], ('a', 0, D(variance=True))), ([('P', 0, D())], ('a', 0, D(t=1, variance=True, b=50))),
    # increasing and decreasing
    ([('IA', 0, D(t=3, b=50))], ('IA', 0, D(t=3))), ([('DA', 0, D(t=3)), ('A', 0, D(t=3))], ('IA', 0, D(t=3, b=50))), ([('IA', 0, D(t=3)), ('A', 0, D(t=3))], ('DA', 0, D(t=3, b=50))), ([('DA', 0, D(t=3))], ('DA', 0, D(t=3, b=50))),
    ([('IA', 1, D(t=2)), ('A', 0, D(t=3)), ('P', 0, D())], ('IA', 0, D(t=3, b=50))), ([('IA', 1, D()), ('A', 0, D()), ('P', 0, D())], ('IA', 0, D(b=50))), ([('DA', 1, D(t=2)), ('P', 0, D())], ('DA', 0, D(t=3, b=50))),
    ([('IA', 0, D(t=3, b=50, discrete=False))], ('IA', 0, D(t=3, discrete=False))), ([('DA', 0, D(t=3, discrete=False)), ('A', 0, D(t=3, discrete=False))], ('IA', 0, D(t=3, b=50, discrete=False))),
    ([('IA', 0, D(t=3, discrete=False)), ('A', 0, D(t=3, discrete=False))], ('DA', 0, D(t=3, b=50, discrete=False))), ([('DA', 0, D(t=3, b=50, discrete=False))], ('DA', 0, D(t=3, b=5, discrete=False))),
    ([('IA', 0, D(discrete=False))], ('IA', 0, D(b=5, discrete=False))),
    # continuous, moments and variances
    ([('A', 0, D(t=2, discrete=False)), ('E', 0, D(t=2))], ('A', 0, D(t=2, b=50, endowment=50, discrete=False))), ([('A', 0, D(t=2, discrete=False)), ('P', 0, D(t=2))], ('A', 0, D(t=2, b=50, endowment=5, discrete=False))),
    ([('A', 0, D(t=2, endowment=1, discrete=False)), ('P', 0, D(t=2))], ('A', 0, D(t=2, b=50, discrete=False))), ([('A', 2, D(discrete=False)), ('P', 0, D(t=2))], ('A', 0, D(u=2, b=50, discrete=False))),
    ([('A', 2, D(t=1, discrete=False)), ('P', 0, D(t=2))], ('A', 0, D(u=2, t=1, b=50, discrete=False))), ([('A', 0, D(u=2, b=50, discrete=False))], ('A', 0, D(u=2, b=5, discrete=False))),
    ([('A', 0, D(moment=2, discrete=False))], ('A', 0, D(moment=2, b=50, discrete=False))), ([('A', 0, D(discrete=False)), ('A', 0, D(moment=2, discrete=False))], ('A', 0, D(moment=VARIANCE, b=50, discrete=False))),
    ([('A', 0, D(t=2, moment=2, discrete=False)), ('E', 0, D(t=2))], ('A', 0, D(t=2, moment=2, b=50, endowment=5, discrete=False))), ([('A', 2, D(moment=2)), ('P', 0, D(t=2))], ('A', 0, D(u=2, moment=2, b=50))),
    ([('A', 2, D()), ('A', 2, D(moment=2)), ('P', 0, D(t=2))], ('A', 0, D(u=2, moment=VARIANCE, b=50))), ([('A', 0, D(t=2, moment=VARIANCE))], ('A', 0, D(t=2, moment=VARIANCE, b=50))), ([('A', 0, D(t=2, b=50, endowment=20, moment=VARIANCE))], ('A', 0, D(t=2, b=5, endowment=2, moment=VARIANCE))),
    ([('A', 0, D(u=2, t=1, moment=2, b=50))], ('A', 0, D(u=2, t=1, moment=2))), ([('E', 0, D(t=2, moment=VARIANCE, endowment=50))], ('E', 0, D(t=2, moment=VARIANCE, endowment=5))),
    ([('a', 2, D(discrete=False)), ('E', 0, D(t=2))], ('a', 0, D(u=2, b=50, discrete=False))), ([('a', 0, D(discrete=False)), ('a', 0, D(t=2, discrete=False))], ('a', 0, D(u=2, b=50, discrete=False))),
    ([('a', 0, D(t=2, discrete=False))], ('A', 0, D(t=2, b=50, endowment=50, discrete=False))), ([('A', 0, D(t=2, b=50, endowment=50, discrete=False))], ('a', 0, D(t=2, b=5, discrete=False))),
    ([('a', 0, D(variance=True, discrete=False, b=50))], ('a', 0, D(variance=True, discrete=False))), ([('a', 0, D(t=3, variance=True, b=50))], ('a', 0, D(t=3, variance=True))),
    ([('a', 1, D(u=1, discrete=False)), ('P', 0, D())], ('a', 0, D(u=2, b=50, discrete=False))), ([('a', 0, D(u=2, discrete=False)), ('P', 0, D())], ('a', 1, D(u=1, discrete=False))),
    ([('e', 0, D(moment=2))], ('e', 0, D(moment=2))), ([('e', 0, D(t=2, moment=2, curtate=True))], ('e', 0, D(t=2, moment=2, curtate=True))), ([('e', 0, D(t=2, moment=VARIANCE))], ('e', 0, D(t=2, moment=VARIANCE))),
    ([('A', 0, D(t=2, b=4, endowment=4)), ('A', 0, D(t=2, b=4))], ('E', 0, D(t=2, endowment=50))),
    ([('E', 0, D(t=2))], ('A', 0, D(t=2, b=0, endowment=50))), ([('P', 0, D(t=2))], ('A', 0, D(t=2, b=0, endowment=50))), ([('E', 0, D(t=2, moment=2))], ('A', 0, D(t=2, b=0, endowment=50, moment=2))),
    ([('A', 0, D(t=2, b=0, endowment=5))], ('E', 0, D(t=2))), ([('A', 0, D(t=3, b=50, endowment=-1)), ('P', 0, D(t=3))], ('A', 0, D(t=3))), ([('A', 0, D(t=3, b=50, endowment=50))], ('A', 0, D(t=3, b=5, endowment=-1))),
    ([('A', 0, D(t=3, b=50, endowment=50, moment=2))], ('A', 0, D(t=3, b=5, endowment=-1, moment=2))), ([('A', 0, D(t=3))], ('A', 0, D(t=3, b=50))), ([('A', 0, D(u=1, t=2))], ('A', 0, D(u=1, t=2, b=50))),
    ([('A', 1, D(t=2)), ('P', 0, D())], ('A', 0, D(u=1, t=2, b=50))),
    ([('P', 0, D()), ('P', 1, D())], ('IA', 0, D(t=2, b=50))), ([('P', 0, D()), ('P', 1, D())], ('DA', 0, D(t=2, b=50))),
]

POOL = [('P', 0, D()), ('P', 1, D()), ('P', 0, D(t=2)), ('Q', 1, D()), ('Q', 0, D(t=2)), ('Q', 0, D(u=1)), ('E', 0, D()), ('E', 0, D(t=2)), ('E', 1, D(moment=2)),
        ('A', 0, D()), ('A', 1, D()), ('A', 0, D(moment=2)), ('A', 0, D(t=2)), ('A', 1, D(t=1)), ('A', 0, D(t=2, endowment=1)), ('A', 0, D(t=2, endowment=.5)), ('A', 0, D(u=1)), ('A', 0, D(discrete=False)), ('A', 0, D(t=2, endowment=1, discrete=False)),
        ('a', 0, D()), ('a', 1, D()), ('a', 0, D(t=2)), ('a', 1, D(t=2)), ('a', 0, D(t=3)), ('a', 0, D(u=1)), ('a', 0, D(u=1, t=2)), ('a', 0, D(discrete=False)),
        ('IA', 0, D(t=2)), ('IA', 1, D()), ('DA', 0, D(t=2)), ('DA', 1, D(t=2)), ('e', 0, D()), ('e', 1, D()), ('e', 0, D(t=2)), ('e', 1, D(t=1)), ('e', 0, D(curtate=True)), ('e', 1, D(curtate=True, t=2))]
ASK = [('P', 0, D()), ('P', 1, D()), ('P', 0, D(t=2)), ('P', 1, D(t=2)), ('Q', 0, D(t=1, u=1)), ('E', 0, D(t=2, endowment=50)), ('E', 0, D(t=2, moment=2)), ('E', 0, D(t=2, moment=VARIANCE)),
       ('A', 0, D()), ('A', 1, D(b=50)), ('A', 0, D(moment=2)), ('A', 0, D(moment=VARIANCE, b=50)), ('A', 0, D(t=2)), ('A', 0, D(t=2, b=50, moment=2)), ('A', 0, D(t=3)), ('A', 0, D(t=2, endowment=50, b=50)), ('A', 0, D(t=2, endowment=25, b=50)), ('A', 0, D(t=1)), ('A', 0, D(u=1)), ('A', 0, D(u=1, t=1)),
       ('A', 0, D(discrete=False)), ('A', 0, D(t=2, discrete=False)), ('a', 0, D()), ('a', 1, D(b=50)), ('a', 0, D(t=2)), ('a', 0, D(t=3, b=50)), ('a', 1, D(t=2)), ('a', 0, D(u=1, b=50)), ('a', 0, D(u=1, t=2)), ('a', 0, D(discrete=False)), ('a', 0, D(t=2, discrete=False)),
       ('IA', 0, D(t=2)), ('IA', 0, D(b=50)), ('IA', 0, D(t=3)), ('DA', 0, D(t=2, b=50)), ('DA', 0, D(t=3))]
ASKE = [('e', 0, D()), ('e', 1, D()), ('e', 0, D(t=2)), ('e', 1, D(t=1)), ('e', 0, D(t=3)), ('e', 0, D(curtate=True)), ('e', 0, D(t=2, curtate=True)), ('e', 1, D(curtate=True))]


# paid continuously, second moments and variances
POOLC = [('P', 0, D()), ('P', 0, D(t=2)), ('P', 1, D()), ('E', 0, D()), ('E', 0, D(t=2, moment=2)), ('E', 0, D(t=2, moment=VARIANCE)), ('A', 0, D(discrete=False)), ('A', 1, D(discrete=False)), ('A', 2, D(discrete=False)), ('A', 0, D(discrete=False, moment=2)),
         ('A', 0, D(t=2, discrete=False)), ('A', 0, D(t=2, discrete=False, moment=2)), ('A', 0, D(t=2, endowment=1, discrete=False)), ('A', 0, D(t=2, endowment=1, discrete=False, moment=2)), ('A', 0, D(u=1, discrete=False)), ('A', 1, D(u=1, t=2, discrete=False)),
         ('a', 0, D(discrete=False)), ('a', 1, D(discrete=False)), ('a', 0, D(t=2, discrete=False)), ('a', 0, D(u=1, discrete=False)), ('a', 1, D(u=1, t=1, discrete=False)), ('A', 1, D(moment=2)), ('A', 0, D(t=2, moment=2)), ('A', 0, D(t=2, moment=VARIANCE)), ('A', 0, D(t=2, endowment=2, b=4, moment=2)), ('A', 0, D(moment=VARIANCE)), ('a', 0, D(t=2, variance=True))]
ASKC = [('E', 0, D(t=2, endowment=50, moment=2)), ('E', 0, D(t=2, moment=VARIANCE, endowment=50)), ('A', 0, D(b=50, discrete=False)), ('A', 1, D(discrete=False)), ('A', 0, D(b=50, moment=2, discrete=False)), ('A', 0, D(b=50, moment=VARIANCE, discrete=False)),
        ('A', 0, D(t=2, b=50, discrete=False)), ('A', 0, D(t=2, b=50, moment=2, discrete=False)), ('A', 0, D(t=2, b=50, endowment=50, discrete=False)), ('A', 0, D(t=2, b=50, endowment=25, discrete=False)), ('A', 0, D(t=2, b=50, endowment=50, moment=2, discrete=False)),
        ('A', 0, D(u=1, b=50, discrete=False)), ('A', 0, D(u=2, discrete=False)), ('A', 0, D(u=2, t=2, discrete=False)), ('A', 0, D(u=1, moment=2, b=50)), ('A', 0, D(u=1, moment=2, b=50, discrete=False)), ('A', 0, D(u=1, t=1, moment=2)), ('A', 0, D(t=2, b=50, moment=2)), ('A', 0, D(t=2, b=50, moment=VARIANCE)), ('A', 0, D(t=2, b=50, endowment=25, moment=2)),
        ('a', 0, D(b=50, discrete=False)), ('a', 1, D(discrete=False)), ('a', 0, D(t=2, b=50, discrete=False)), ('a', 0, D(u=1, b=50, discrete=False)), ('a', 0, D(u=2, t=1, discrete=False)), ('a', 0, D(variance=True, b=50)), ('a', 0, D(t=2, variance=True, b=50)), ('a', 0, D(discrete=False, variance=True, b=50))]

POOLE = [('P', 0, D()), ('P', 1, D()), ('P', 0, D(t=2)), ('e', 0, D()), ('e', 1, D()), ('e', 2, D()), ('e', 0, D(t=1)), ('e', 1, D(t=1)), ('e', 0, D(t=2)), ('e', 0, D(t=3)), ('e', 1, D(t=2))]
CUR = lambda f: (f[0], f[1], dict(f[2], curtate=True)) if f[0] == 'e' else f


def must(c, part):
    i = c.choose('case', range(len(part)))
    facts, q = part[i]
    ask(c, facts, q, 2 if q[0] == 'e' else 3, True)


def pairs(c, pairs, asks, depth):
    facts = c.choose('facts', pairs)
    q = c.choose('ask', asks)
    ask(c, facts, q, depth, False)


def instances(tier):
    th = tier == 'thorough'
    out = [Inst(f'follows-{j}', lambda c, j=j: must(c, MUST[j::4]), bounds='4 years of any mortality, any values after', max_paths=2000, witnesses=8) for j in range(4)]
    two = list(combinations(POOL, 2))
    n = 12
    for j in range(n):
        out.append(Inst(f'pairs-{j}', lambda c, j=j: pairs(c, two[j::n], ASK, 3 if th else 2), bounds=f'pairs of given facts, depth {3 if th else 2}', max_paths=5000, budget=800 if th else 100))
    two_c = list(combinations(POOLC, 2))
    for j in range(6):
        out.append(Inst(f'continuous-{j}', lambda c, j=j: pairs(c, two_c[j::6], ASKC, 3 if th else 2), bounds=f'pairs of given facts, depth {3 if th else 2}', max_paths=5000, budget=800 if th else 100))
    three = list(combinations(POOLE, 3))
    for j in range(3):
        out.append(Inst(f'lifetimes-{j}', lambda c, j=j: pairs(c, [f if j % 2 else tuple(map(CUR, f)) for f in three][j::3], ASKE, 2 if th else 1), bounds=f'three given facts, depth {2 if th else 1}', max_paths=9000, budget=600 if th else 100))
    return out
