"""Models with symbolic parameters shared by the harnesses.

The same code runs symbolically (c.mode == 'symbolic') and on floats (replay)."""
import math
import re
from fractions import Fraction
from engine.run import Inst

F = Fraction
WHOLE = -999
VARIANCE = -2


class Tab:
    """Arbitrary mortality at integer ages x0 .. w-1; nobody survives to age w.

    kind 'p': one symbolic survival probability per year (all of (0,1));
    kind 'l': one symbolic number of lives per age (all positive; ratios may be anything).
    sel > 0: rates during the first `sel` years depend on the age of selection as well."""

    def __init__(self, c, x0, w, kind='p', sel=0, name='p', alive=False, lo=0):
        self.c, self.x0, self.w, self.kind, self.sel, self.nm = c, x0, w, kind, sel, name
        self.alive, self.lo = alive, lo
        self._p, self._l = {}, {}
        self._memo = {}

    def p1(self, x, s):
        """one-year survival probability of [x]+s"""
        a = x + s
        if a >= self.w - 1 and not self.alive:
            return 0
        k = (x, s) if s < self.sel else (a,)
        if k not in self._p:
            self._p[k] = self.c.real(f'{self.nm}[{"+".join(map(str, k))}]', self.lo, 1, sample=(.6, .98))
        return self._p[k]

    def L(self, x, s):
        a = x + s
        if a >= self.w and not self.alive:
            return 0
        k = (x, s) if s < self.sel else (a,)
        if k not in self._l:
            f = 2 - 1.9 * (a - self.x0) / (self.w - self.x0)
            self._l[k] = self.c.pos(f'l[{"+".join(map(str, k))}]', sample=(.985 * f, f))
        return self._l[k]

    def p(self, x, s, t):
        t = int(t)
        if t <= 0:
            return self.c.const(1)
        if x + s + t >= self.w and not self.alive:
            return self.c.const(0)
        k = (x, s, t)
        if k not in self._memo:
            if self.kind == 'l':
                v = self.L(x, s + t) / self.L(x, s)
            else:
                v = self.p(x, s, t - 1) * self.p1(x, s + t - 1)
            self._memo[k] = v
        return self._memo[k]

    def q(self, x, s, u=0, t=1):
        return self.p(x, s, u) - self.p(x, s, u + t)

    def S(self, x, s, t):
        return self.p(x, s, t)

    # -- piecewise versions for continuous time
    def S_udd(self, x, s, t):
        k = math.floor(t)
        r = t - k
        a, b = self.p(x, s, k), self.p(x, s, k + 1)
        return a - (a - b) * r

    def f_udd(self, x, s, t):
        k = math.floor(t)
        return self.p(x, s, k) - self.p(x, s, k + 1)

    def mu_udd(self, x, t):
        return self.f_udd(x, 0, t) / self.S_udd(x, 0, t)

    # ---------------------------------------------------------- first principles
    def A(self, v, x, s=0, t=None, u=0, b=lambda k: 1, e=0, m=1):
        """E[Z^m]: benefit b(k) at the end of year k of death in (u, u+t], e on survival"""
        n = self.w - (x + s + u)
        T = n if t is None else min(t, n)
        out = 0
        for k in range(u, u + T):
            out = out + (b(k + 1) * v(k + 1)) ** m * self.q(x, s, k)
        if not (isinstance(e, int) and e == 0) and t is not None and x + s + u + t <= self.w:
            out = out + (e * v(u + t)) ** m * self.p(x, s, u + t)
        return out

    def a(self, v, x, s=0, t=None, u=0, b=lambda k: 1):
        """EPV of annuity-due payments b(k) at times u .. u+t-1"""
        n = self.w - (x + s + u)
        T = n if t is None else min(t, n)
        out = 0
        for k in range(u, u + T):
            out = out + b(k) * v(k) * self.p(x, s, k)
        return out

    def E(self, v, x, s, t, e=1, m=1):
        return (e * v(t)) ** m * self.p(x, s, t)


def disc(v):
    return lambda t: v ** t


def term(t):
    return None if t < 0 else t


NUMBER = r'\u27ea\d+\u27eb|-?\d+(?:\.\d+)?(?:e[-+]?\d+)?|-?inf|nan'


def written(c, text, digits):
    """the number written in this text to so many digits (None if it is not a number so written)"""
    text = str(text).strip()
    if c.mode == 'symbolic' and text.startswith('\u27ea'):
        from engine import sym
        v, spec = sym.SHOWN[int(text[1:-1])]
        return v if spec == f'.{digits}f' else None
    if not re.fullmatch(NUMBER, text) or len(text.partition('.')[2]) != digits:
        return None
    return Fraction(text) if c.mode == 'symbolic' else float(text)


def shown(c, text, want, digits, what):
    """text shows this value to so many digits"""
    v = written(c, text, digits)
    c.true(v is not None, what + ': digits')
    if v is not None:
        if c.mode != 'symbolic' and abs(v - want) <= .5 * 10 ** -digits + 1e-9 * abs(want):
            v = want                      # the value itself, but for rounding
        c.eq(v, want, what)
