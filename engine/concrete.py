"""The same harness interface over ordinary floats: replays a counterexample (or a
path witness) on the unmodified code with the real numerical libraries."""
import math
from fractions import Fraction


class Skip(BaseException):
    """the point does not satisfy the harness preconditions"""


class ConcreteCtx:
    mode = 'concrete'

    def __init__(self, env, choices):
        self.env, self.ch = env, choices
        self.log = []

    def real(self, name, lo=None, hi=None, lo_open=True, hi_open=True, sample=None):
        if name in self.env:
            return float(self.env[name])
        lo_, hi_ = (lo if lo is not None else (hi - 1 if hi is not None else .5)), hi
        return float(lo_ + (hi_ - lo_) / 2 if hi_ is not None else lo_ + .5)

    def nonneg(self, name, hi=None, sample=None):
        return self.real(name, 0, hi)

    def pos(self, name, hi=None, sample=None):
        return self.real(name, 0, hi)

    def prob(self, name, sample=None):
        return self.real(name, 0, 1)

    def choose(self, name, options):
        options = list(options)
        return options[self.ch.get(name, 0)]

    def const(self, v):
        if isinstance(v, Fraction):
            return int(v) if v.denominator == 1 else float(v)
        return v

    def assume(self, c):
        if not c:
            raise Skip()

    def eq(self, lhs, rhs, what='', rtol=2e-6, atol=2e-7):
        try:
            l, r = float(lhs), float(rhs)
            ok = l == r or not math.isinf(l) and not math.isinf(r) and abs(l - r) <= 5 * (atol + rtol * max(abs(l), abs(r)))
            self.log.append((what, l, r, bool(ok)))
        except (TypeError, ValueError):
            try:
                ok = bool(lhs == rhs)
            except Exception:
                ok = False
            self.log.append((what, repr(lhs)[:80], repr(rhs)[:80], ok))

    def le(self, lhs, rhs, what='', tol=1e-7):
        l, r = float(lhs), float(rhs)
        self.log.append((what, l, r, bool(l <= r or not math.isinf(l) and l <= r + 5 * (tol + tol * max(abs(l), abs(r))))))

    def lt(self, lhs, rhs, what='', tol=1e-9):
        l, r = float(lhs), float(rhs)
        self.log.append((what, l, r, bool(l < r or abs(l - r) < 1e-12 * max(abs(l), abs(r)))))

    def true(self, c, what=''):
        self.log.append((what, None, None, bool(c)))

    def same(self, a, b, what=''):
        self.log.append((what, repr(a)[:80], repr(b)[:80], bool(a == b)))

    def fails(self, fn, what=''):
        try:
            fn()
        except Exception:
            self.log.append((what, None, None, True))
            return
        self.log.append((what, 'no exception', 'exception', False))


def run(fn, env, choices):
    """-> dict(status, log, error)"""
    c = ConcreteCtx(env, choices)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            fn(c)
            return dict(status='ok', log=c.log, error=None)
        except Skip:
            return dict(status='skip', log=c.log, error=None)
        except Exception as e:
            return dict(status='raised', log=c.log, error=f'{type(e).__name__}: {str(e)[:160]}')
