"""Stand-ins for the C-level numerical routines, active only while the code under
analysis is executed symbolically.  Every wrapper falls through to the original
for ordinary numbers."""
import builtins, math, sys, types
import numpy as np
import scipy.integrate, scipy.optimize, scipy.special, scipy.stats, scipy.differentiate
from . import alg
from . import sym as S
from .sym import Sym, Cond, lift
from . import integ

STUBS = [
    "math.exp/log/sqrt/pow (and numpy twins): exact, exp and log mutually inverse, no rounding",
    "math.isclose on symbolic values: equality (the band around it is excluded) for tolerances up to 1e-6, exact for larger ones",
    "scipy.integrate.quad: the exact integral (integrand split at integer/linear break points)",
    "scipy.differentiate.derivative: the exact (right) derivative",
    "scipy.optimize.fsolve / root_scalar: an arbitrary root of the equation it is given (existence assumed)",
    "scipy.special.ndtri and scipy.stats.norm.cdf: uninterpreted, mutually inverse",
    "round(x, n>=6): identity; floats are read as the exact rationals they denote",
]


def has_sym(a):
    for x in a:
        if isinstance(x, (Sym, Cond)):
            return True
        if isinstance(x, np.ndarray) and x.dtype == object:
            return True
    return False


_real = {}


def _wrap1(orig, f):
    def g(x, *a, **k):
        if isinstance(x, Cond):
            x = int(bool(x))
        if isinstance(x, Sym):
            return f(x, *a, **k)
        return orig(x, *a, **k)
    g.__name__ = getattr(orig, '__name__', 'f')
    g.__wrapped_original__ = orig
    return g


def s_isclose(a, b, **k):
    if has_sym((a, b)):
        d = lift(a) - lift(b)
        if lift(a).r.is_const() and lift(b).r.is_const():
            return math_isclose(float(a), float(b), **k)
        at, rt = k.get('abs_tol', 0), k.get('rel_tol', 0)
        if has_sym((at, rt)) or at > 1.01e-6 or rt > 1.01e-6:   # a band that matters
            if bool(d == 0) or bool(abs(d) <= at):
                return True
            return bool(rt > 1.01e-6) and bool(abs(d) <= rt * max(abs(lift(a)), abs(lift(b))))
        return d.r.const() == 0 if d.r.is_const() else bool(d == 0)
    return math_isclose(a, b, **k)


math_isclose = math.isclose


def s_pow(a, b):
    if has_sym((a, b)):
        return lift(a) ** b
    return math_pow(a, b)


math_pow = math.pow


def s_fsum(it):
    it = list(it)
    if has_sym(it):
        return builtins.sum(it)
    return math_fsum(it)


math_fsum = math.fsum


def s_log(x, base=None):
    if has_sym((x, base)):
        r = S.sym_log(x)
        return r if base is None else r / S.sym_log(base)
    return math_log(x) if base is None else math_log(x, base)


math_log = math.log


class symfloat_meta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.float, Sym))

    def __or__(cls, o):
        return builtins.float | o


class symfloat(builtins.float, metaclass=symfloat_meta):
    def __new__(cls, x=0.0):
        if isinstance(x, Cond):
            return builtins.float(bool(x))
        if isinstance(x, Sym):
            return x
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return symfloat(x.item())
        return builtins.float(x)


def quad(func, a, b, args=(), full_output=0, **kw):
    if not isinstance(args, tuple):
        args = (args,)
    v = integ.integrate(lambda t: func(t, *args), a, b)
    return (v, 0.0, {}) if full_output else (v, 0.0)


def fsolve(func, x0, args=(), full_output=False, **kw):
    if not isinstance(args, tuple):
        args = (args,)
    c = S.CTX
    r = c.fresh_root(None, None)
    v = func(r, *args)
    if isinstance(v, (list, tuple, np.ndarray)):
        v = v[0]
    c.assume(lift(v) == 0)
    if ALL_GUESSES:             # the point tried last need not be the solution
        func(r + 1, *args)
    out = np.empty(1, dtype=object)
    out[0] = r
    return (out, {}, 1, '') if full_output else out


ALL_GUESSES = []        # a harness that looks at the guesses puts something here


def linspace(a, b, num=50, *r, **k):
    # only used to pick a starting guess: one guess stands for all of them
    if S.CTX is not None and not ALL_GUESSES and _called_from_solve():
        out = np.empty(1, dtype=object)
        out[0] = a
        return out
    if has_sym((a, b)):
        out = np.empty(num, dtype=object)
        for i in range(num):
            out[i] = a + (b - a) * lift(i) / (num - 1)
        return out
    return np_linspace(a, b, num, *r, **k)


np_linspace = np.linspace


def _called_from_solve():
    f = sys._getframe(2)
    for _ in range(4):
        if f is None:
            return False
        if f.f_code.co_name == 'solve':
            return True
        f = f.f_back
    return False


class _MinRes:
    def __init__(self, x):
        self.x = x


def minimize_scalar(fun, bracket=None, **kw):
    c = S.CTX
    r = c.fresh_root(None, None)
    c.assume(lift(fun(r)) == 0)
    return _MinRes(r)


def ufn(name, fn, arg, lo=None, hi=None):
    a = alg.W.new_atom((name, arg.r.key()), name=f'{name}({alg.rstr(arg.r)})', kind='ufn', pos=(lo == 0),
                       arg=(arg.r,), fn=fn, lo=lo, hi=hi)
    return a


def ndtri(p):
    if not isinstance(p, Sym):
        return real_ndtri(p)
    if p.r.is_const():
        c = p.r.const()
        if c * 2 == 1:
            return lift(0)
        return ufn_val('ndtri', real_ndtri, p)
    for (m, c), in [tuple(p.r.num.items())] if len(p.r.num) == 1 and not p.r.den else []:
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            at = alg.W.atoms[m[0][0]]
            if at.kind == 'ufn' and at.name.startswith('Phi('):
                return Sym(at.arg[0])
    return ufn_val('ndtri', real_ndtri, p)


def ufn_val(name, fn, p):
    return Sym(alg.ratom(ufn(name, fn, p)))


def Phi(z):
    if z.r.is_const() and z.r.const() == 0:
        return lift(alg.Fraction(1, 2))
    if len(z.r.num) == 1 and not z.r.den:
        (m, c), = z.r.num.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            at = alg.W.atoms[m[0][0]]
            if at.kind == 'ufn' and at.name.startswith('ndtri('):
                return Sym(at.arg[0])
    return Sym(alg.ratom(ufn('Phi', real_norm.cdf, z, 0, 1)))


real_ndtri = scipy.special.ndtri
real_norm = scipy.stats.norm


class SymNorm:
    def cdf(self, value, loc=0, scale=1):
        if has_sym((value, loc, scale)):
            return Phi((lift(value) - loc) / scale)
        return real_norm.cdf(value, loc=loc, scale=scale)

    def sf(self, value, loc=0, scale=1):
        return 1 - self.cdf(value, loc, scale)

    def ppf(self, q, loc=0, scale=1):
        if has_sym((q, loc, scale)):
            return ndtri(lift(q)) * scale + loc
        return real_norm.ppf(q, loc=loc, scale=scale)

    def isf(self, q, loc=0, scale=1):
        return self.ppf(1 - q, loc, scale)

    def __getattr__(self, n):
        return getattr(real_norm, n)


class SymVectorize(np.vectorize):
    def __call__(self, *args, **kw):
        if S.CTX is None:
            return super().__call__(*args, **kw)
        if not any(isinstance(a, (np.ndarray, list, tuple)) for a in args):
            return self.pyfunc(*args, **kw)
        r = np.frompyfunc(lambda *a: self.pyfunc(*a, **kw), len(args), 1)(*args)
        return r


def _creator(orig, fill=None):
    """float arrays made by the code under analysis can hold symbolic values"""
    def g(*a, **k):
        if S.CTX is None or not _from_package():
            return orig(*a, **k)
        dt = k.get('dtype')
        if fill is not None:               # zeros, ones, empty, full (and their _like forms)
            r = orig(*a, **k) if not (orig in (np_full, np_full_like) and has_sym(list(a) + list(k.values()))) else None
            if r is None:
                v = k.get('fill_value', a[1] if len(a) > 1 else None)
                r = np_empty(np.shape(a[0]) if orig is np_full_like else a[0], dtype=object)
                r[...] = v
                return r
            if r.dtype.kind != 'f':
                return r
            out = np_empty(r.shape, dtype=object)
            for i in np.ndindex(r.shape):
                out[i] = lift(0 if orig in (np_empty, np_empty_like) else float(r[i]))
            return out
        if orig is np_fromiter:
            x = list(a[0])
            return np_array(x, dtype=object) if has_sym(x) else orig(x, *a[1:], **k)
        x = a[0]
        if len(a) > 1 and dt is None:
            dt = a[1]
        try:
            o = np_array(x, dtype=object)
        except Exception:
            return orig(*a, **k)
        if dt is not None and np.dtype(dt).kind == 'f' and has_sym(o.ravel()):
            return o
        return orig(*a, **k)
    g.__wrapped_original__ = orig
    return g


def _from_package():
    n = sys._getframe(2).f_globals.get('__name__', '')
    return n.startswith(('actuarialmath', 'props.'))


np_zeros, np_ones, np_empty, np_full, np_array, np_asarray, np_fromiter = (
    np.zeros, np.ones, np.empty, np.full, np.array, np.asarray, np.fromiter)
np_zeros_like, np_ones_like, np_empty_like, np_full_like = np.zeros_like, np.ones_like, np.empty_like, np.full_like


def s_interp(x, xp, fp, *r, **k):
    if not has_sym([x]) and not has_sym(list(xp)) and not has_sym(list(fp)):
        return np_interp(x, xp, fp, *r, **k)
    xp, fp = list(xp), list(fp)
    if x <= xp[0]:
        return fp[0]
    for i in range(1, len(xp)):
        if x <= xp[i]:
            return fp[i-1] + (fp[i] - fp[i-1]) * (x - xp[i-1]) / (xp[i] - xp[i-1])
    return fp[-1]


np_interp = np.interp


def s_fmod(a, b):
    return lift(a) % b if has_sym((a, b)) and a >= 0 else (-((-lift(a)) % b) if has_sym((a, b)) else math_fmod(a, b))


def s_copysign(a, b):
    return math_copysign(a, b) if not has_sym((a, b)) else (abs(a) if b >= 0 else -abs(a))


def s_hypot(*a):
    return S.sym_sqrt(builtins.sum(lift(v) * v for v in a)) if has_sym(a) else math_hypot(*a)


def s_mean(x, *r, **k):
    x = list(x)
    return builtins.sum(x) / len(x) if has_sym(x) else stat_mean(x, *r, **k)


def s_fmean(x, *r, **k):
    x = list(x)
    return builtins.sum(x) / len(x) if has_sym(x) and not r and not k else stat_fmean(x, *r, **k)


def s_sumprod(p, q):
    p, q = list(p), list(q)
    return builtins.sum(a * b for a, b in zip(p, q, strict=True)) if has_sym(p + q) else math_sumprod(p, q)


def s_dist(p, q):
    p, q = list(p), list(q)
    return s_hypot(*[a - b for a, b in zip(p, q)]) if has_sym(p + q) else math_dist(p, q)


def s_allclose(a, b, *r, **k):
    aa, bb = np.broadcast_arrays(np_array(a, dtype=object), np_array(b, dtype=object))
    if not has_sym(aa.ravel()) and not has_sym(bb.ravel()):
        return np_allclose(a, b, *r, **k)
    return all(s_isclose(x, y) for x, y in zip(aa.ravel(), bb.ravel()))


def s_round(x, decimals=0, *r, **k):
    if isinstance(x, Sym):
        return round(x, decimals) if decimals else lift(round(x, 0))
    if isinstance(x, (list, tuple)) and has_sym(np_array(x, dtype=object).ravel()):
        x = np_array(x, dtype=object)
    if isinstance(x, np.ndarray) and x.dtype == object:
        out = np_empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            out[i] = round(x[i], decimals)
        return out
    return np_round(x, decimals, *r, **k)


import statistics
math_fmod, math_copysign, math_hypot, math_dist = math.fmod, math.copysign, math.hypot, math.dist
math_sumprod = getattr(math, 'sumprod', None)
stat_mean, stat_fmean, np_allclose, np_round, np_isscalar = statistics.mean, statistics.fmean, np.allclose, np.round, np.isscalar


def table():
    t = {np.vectorize: SymVectorize}
    m = math
    t[m.exp] = _wrap1(m.exp, S.sym_exp)
    t[m.log] = s_log
    t[m.log1p] = _wrap1(m.log1p, lambda x: S.sym_log(1 + x))
    t[m.expm1] = _wrap1(m.expm1, lambda x: S.sym_exp(x) - 1)
    t[m.sqrt] = _wrap1(m.sqrt, S.sym_sqrt)
    t[m.fabs] = _wrap1(m.fabs, abs)
    t[m.isfinite] = _wrap1(m.isfinite, lambda x: True)
    t[m.isinf] = _wrap1(m.isinf, lambda x: False)
    t[m.isnan] = _wrap1(m.isnan, lambda x: False)
    t[m.isclose] = s_isclose
    t[m.pow] = s_pow
    t[m.fsum] = s_fsum
    t[m.modf] = _wrap1(m.modf, lambda x: (x - math.trunc(x), lift(math.trunc(x))))
    t[np.linspace] = linspace
    for f in (np_zeros, np_ones, np_empty, np_full, np_zeros_like, np_ones_like, np_empty_like, np_full_like):
        t[f] = _creator(f, True)
    for f in (np_array, np_asarray, np_fromiter):
        t[f] = _creator(f)
    t[np_interp], t[np_allclose], t[np_round] = s_interp, s_allclose, s_round
    t[np_isscalar] = lambda x: isinstance(x, Sym) or np_isscalar(x)
    t[m.fmod], t[m.copysign], t[m.hypot], t[m.dist] = s_fmod, s_copysign, s_hypot, s_dist
    if math_sumprod is not None:
        t[math_sumprod] = s_sumprod
    t[m.exp2] = _wrap1(m.exp2, lambda x: lift(2) ** x)
    t[m.log2] = _wrap1(m.log2, lambda x: S.sym_log(x) / S.sym_log(2))
    t[m.log10] = _wrap1(m.log10, lambda x: S.sym_log(x) / S.sym_log(10))
    t[stat_mean], t[stat_fmean] = s_mean, s_fmean
    t[np.isclose] = _np_isclose
    t[np.exp] = _np1(np.exp, S.sym_exp)
    t[np.log] = _np1(np.log, S.sym_log)
    t[np.sqrt] = _np1(np.sqrt, S.sym_sqrt)
    t[np.floor] = _np1(np.floor, lambda x: lift(math.floor(x)))
    t[np.ceil] = _np1(np.ceil, lambda x: lift(math.ceil(x)))
    t[np.isnan] = _np1(np.isnan, lambda x: False)
    t[np.isfinite] = _np1(np.isfinite, lambda x: True)
    t[scipy.integrate.quad] = quad
    t[scipy.optimize.fsolve] = fsolve
    t[scipy.optimize.minimize_scalar] = minimize_scalar
    t[scipy.differentiate.derivative] = integ.derivative
    t[scipy.special.ndtri] = lambda p: ndtri(p) if isinstance(p, Sym) else real_ndtri(p)
    t[real_norm] = SymNorm()
    return t


def _np1(orig, f):
    def g(x, *a, **k):
        if isinstance(x, Sym):
            return f(x)
        return orig(x, *a, **k)
    g.__wrapped_original__ = orig
    return g


np_isclose = np.isclose


def _np_isclose(a, b, **k):
    if has_sym((a, b)) and not isinstance(a, np.ndarray):
        return s_isclose(a, b, abs_tol=k.get('atol', 0), rel_tol=k.get('rtol', 0))
    return np_isclose(a, b, **k)


def _hashable(v):
    try:
        hash(v)
        return True
    except Exception:
        return False


def install():
    """replace the functions in their home modules and wherever the package under
    analysis has bound them by name"""
    import numbers
    numbers.Real.register(Sym)
    t = table()
    homes = [math, statistics, np, scipy.integrate, scipy.optimize, scipy.special, scipy.stats, scipy.differentiate]
    for h in homes:
        for n in dir(h):
            v = getattr(h, n, None)
            if _hashable(v) and not isinstance(v, Sym):
                try:
                    if v in t:
                        setattr(h, n, t[v])
                except Exception:
                    pass
    for name, mod in list(sys.modules.items()):
        if name == 'actuarialmath' or name.startswith('actuarialmath.'):
            for n, v in list(vars(mod).items()):
                if isinstance(v, (types.FunctionType, types.BuiltinFunctionType, np.ufunc)) or v is real_norm \
                        or v is np.vectorize:
                    try:
                        if v in t:
                            setattr(mod, n, t[v])
                    except TypeError:
                        pass
            if not hasattr(mod, 'float'):
                mod.float = symfloat
    _frames()


def _frames():
    """tables with a float dtype hold symbolic values"""
    import pandas as pd

    def wrap(cls, name):
        orig = getattr(cls, name)

        def g(self, *a, **k):
            a = tuple(object if x is symfloat else x for x in a)
            k = {n: object if x is symfloat else x for n, x in k.items()}
            return orig(self, *a, **k)
        g.__wrapped_original__, g.__name__ = orig, name
        setattr(cls, name, g)
    def wrap_round(cls):
        orig = cls.round

        def g(self, decimals=0, *a, **k):
            if isinstance(decimals, int) and any(isinstance(x, Sym) for x in self.to_numpy(dtype=object).ravel()):
                vals = self.to_numpy(dtype=object).copy()
                for i in np.ndindex(vals.shape):
                    x = vals[i]
                    vals[i] = x if isinstance(x, float) and math.isnan(x) else round(x, decimals)
                axes = dict(columns=self.columns) if cls is pd.DataFrame else dict(name=self.name)
                return cls(vals, index=self.index, **axes)
            return orig(self, decimals, *a, **k)
        g.__wrapped_original__, g.__name__ = orig, 'round'
        cls.round = g
    for cls in (pd.DataFrame, pd.Series):
        if not hasattr(cls.round, '__wrapped_original__'):
            wrap_round(cls)
    for cls, name in ((pd.DataFrame, '__init__'), (pd.Series, '__init__'), (pd.DataFrame, 'astype'), (pd.Series, 'astype')):
        if not hasattr(getattr(cls, name), '__wrapped_original__'):
            wrap(cls, name)
