"""Symbolic values (operator overloading over the exact algebra) and the
path explorer: every branch of the executed Python code that depends on a
symbolic value is decided by the SMT solver; both sides are explored."""
import math, random, time, sys
from fractions import Fraction
from . import alg
from .alg import (Rat, R0, R1, rconst, radd, rmul, rdiv, rneg, rpow_int, rpow_frac,
                  rlog, rexp, to_q, EngineUnsupported, manifest_sign, fpoly)

Z3DIR = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if Z3DIR not in sys.path:
    sys.path.append(Z3DIR)
import z3                                                     # noqa: E402
import numpy as np                                            # noqa: E402


class PathAbort(BaseException):
    """the current path is infeasible or was cut"""


class NeedSplit(BaseException):
    def __init__(self, theta):
        self.theta = theta


CTX = None            # current symbolic context
SHOWN = []            # values written into text on this path, with their formats


def ctx():
    return CTX


NUM = (int, float, Fraction, np.integer, np.floating)


def lift(x):
    """python number -> Sym"""
    if isinstance(x, Sym):
        return x
    if isinstance(x, (bool, np.bool_)):
        return Sym(rconst(int(x)))
    if isinstance(x, (int, Fraction)):
        return Sym(rconst(alg.norm_q(x)))
    if isinstance(x, (float, np.floating)):
        return Sym(rconst(to_q(float(x))))
    if isinstance(x, np.integer):
        return Sym(rconst(int(x)))
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return lift(x.item())
    return None


def _inf(x):
    return isinstance(x, (float, np.floating)) and (math.isinf(x) or math.isnan(x))


def _elementwise(f, a):
    out = np.empty(a.shape, dtype=object)
    for k in np.ndindex(a.shape):
        v = a[k]
        out[k] = f(v.item() if isinstance(v, np.generic) else v)
    return out


class Sym:
    __slots__ = ('r', 'e')
    __array_priority__ = 1000

    def __init__(self, r, e=None):
        self.r = r
        self.e = e            # un-normalised operation (op, a, b)

    # ---- arithmetic
    def _bin(self, o, op, rev=False):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return _elementwise(lambda v: self._bin(v, op, rev), o)
        if _inf(o):
            a, b = (o, self._approx()) if rev else (self._approx(), o)
            return {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b,
                    'div': lambda: a / b}[op]()
        o = lift(o)
        if o is None:
            return NotImplemented
        a, b = (o, self) if rev else (self, o)
        if op == 'add':
            return Sym(radd(a.r, b.r), ('add', a, b))
        if op == 'sub':
            return Sym(radd(a.r, b.r, -1), ('sub', a, b))
        if op == 'mul':
            return Sym(rmul(a.r, b.r), ('mul', a, b))
        if op == 'div':
            if CTX is not None:
                CTX.check_nonzero(b.r)
            elif not b.r.num:
                raise ZeroDivisionError("float division by zero")
            return Sym(rdiv(a.r, b.r), ('div', a, b))

    def _approx(self):
        s = manifest_sign(self.r.num)
        return float(s) if s is not None else 1.0

    def __add__(self, o): return self._bin(o, 'add')
    def __radd__(self, o): return self._bin(o, 'add', True)
    def __sub__(self, o): return self._bin(o, 'sub')
    def __rsub__(self, o): return self._bin(o, 'sub', True)
    def __mul__(self, o): return self._bin(o, 'mul')
    def __rmul__(self, o): return self._bin(o, 'mul', True)
    def __truediv__(self, o): return self._bin(o, 'div')
    def __rtruediv__(self, o): return self._bin(o, 'div', True)
    def __neg__(self): return Sym(rneg(self.r), ('sub', lift(0), self))
    def __pos__(self): return self

    def __abs__(self):
        if self.r.is_const():
            return Sym(rconst(abs(self.r.const())))
        s = manifest_sign(self.r.num)
        if s is not None and not self.r.den:
            return self if s >= 0 else -self
        return self if bool(self >= 0) else -self

    def __pow__(self, o, mod=None):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return _elementwise(lambda v: self ** v, o)
        if _inf(o):
            raise EngineUnsupported("power infinity")
        o = lift(o)
        if o is None:
            return NotImplemented
        return sym_pow(self, o)

    def __rpow__(self, o):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return _elementwise(lambda v: lift(v) ** self, o)
        o = lift(o)
        if o is None:
            return NotImplemented
        return sym_pow(o, self)

    # ---- comparisons
    def _cmp(self, o, op):
        if isinstance(o, np.ndarray) and o.ndim > 0:
            return _elementwise(lambda v: bool(self._cmp(v, op)), o).astype(bool)
        if o is None or isinstance(o, str):
            return NotImplemented if op in ('lt', 'le', 'gt', 'ge') else (op == 'ne')
        if _inf(o):
            o = float(o)
            return {'lt': 0 < o, 'le': 0 < o, 'gt': 0 > o, 'ge': 0 > o, 'eq': False, 'ne': True}[op]
        o = lift(o)
        if o is None:
            return NotImplemented
        d = radd(self.r, o.r, -1)
        if d.is_const():
            c = d.const()
            return {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0, 'eq': c == 0, 'ne': c != 0}[op]
        return Cond(op, d)

    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')
    def __eq__(self, o): return self._cmp(o, 'eq')
    def __ne__(self, o): return self._cmp(o, 'ne')

    def __hash__(self):
        if self.r.is_const():
            return hash(self.r.const())
        return hash(('real', self.r.key()))      # a key of a cache, say: the same expression finds it again

    def __bool__(self):
        if self.r.is_const():
            return self.r.const() != 0
        return bool(Cond('ne', self.r))

    # ---- conversions
    def _concrete_int(self):
        if self.r.is_const():
            c = self.r.const()
            if c == int(c):
                return int(c)
            raise EngineUnsupported("non-integer used as an index")
        return CTX.concretise(self)

    def __index__(self):
        c = self.r.const() if self.r.is_const() else None
        if c is not None and (c != int(c) or type(c) is Fraction):
            raise TypeError("'float' object cannot be interpreted as an integer")
        return self._concrete_int()

    def __int__(self):
        if self.r.is_const():
            return int(self.r.const())
        f = self.__floor__()
        if f >= 0:
            return f
        return self.__ceil__()

    __trunc__ = __int__

    def __float__(self):
        if self.r.is_const():
            return float(self.r.const())
        raise EngineUnsupported("float() of a symbolic value")

    def __floor__(self):
        if self.r.is_const():
            return math.floor(self.r.const())
        return CTX.floor(self)

    def __ceil__(self):
        if self.r.is_const():
            return math.ceil(self.r.const())
        return -CTX.floor(-self)

    def __round__(self, n=None):
        if n is None or n == 0:
            if self.r.is_const():
                v = round(Fraction(self.r.const()))
            else:
                v = CTX.floor(self + Fraction(1, 2))
            return v if n is None else lift(v)
        if n >= 6:
            return self
        if self.r.is_const():
            return lift(round(Fraction(self.r.const()), n))
        return CTX.rounded(self, n)

    def __floordiv__(self, o): return lift(math.floor(self / o))
    def __rfloordiv__(self, o): return lift(math.floor(o / self))
    def __mod__(self, o): return self - o * math.floor(self / o)
    def __rmod__(self, o): return o - self * math.floor(o / self)
    def __divmod__(self, o):
        q = math.floor(self / o)
        return q, self - o * q

    def is_integer(self):
        return bool(self == self.__floor__())

    @property
    def real(self): return self
    def conjugate(self): return self
    def item(self): return self
    def exp(self): return sym_exp(self)
    def log(self): return sym_log(self)
    def sqrt(self): return sym_sqrt(self)
    def floor(self): return lift(self.__floor__())
    def ceil(self): return lift(self.__ceil__())
    def expm1(self): return sym_exp(self) - 1
    def log1p(self): return sym_log(self + 1)
    def rint(self): return self.__round__(0) if self.r.is_const() else CTX.rounded(self, 0)
    def square(self): return self * self

    def __repr__(self): return f'<{alg.rstr(self.r)}>'
    __str__ = __repr__
    def __format__(self, spec):
        if not spec:
            return repr(self)
        SHOWN.append((self, spec))
        return f'\u27ea{len(SHOWN) - 1}\u27eb'


class Cond:
    """comparison  d op 0"""
    __slots__ = ('op', 'd', 'sub')

    def __init__(self, op, d, sub=None):
        self.op, self.d, self.sub = op, d, sub

    def __bool__(self):
        return CTX.decide(self)

    def __and__(self, o): return bool(self) and bool(o)
    def __or__(self, o): return bool(self) or bool(o)
    __rand__ = __and__
    __ror__ = __or__
    def __invert__(self): return Cond(NEG[self.op], self.d)
    def __eq__(self, o): return bool(self) == bool(o)
    def __ne__(self, o): return bool(self) != bool(o)
    def __hash__(self): return hash(bool(self))
    def __mul__(self, o): return int(bool(self)) * o
    __rmul__ = __mul__
    def __add__(self, o): return int(bool(self)) + o
    __radd__ = __add__
    def __sub__(self, o): return int(bool(self)) - o
    def __rsub__(self, o): return o - int(bool(self))
    def __int__(self): return int(bool(self))
    __index__ = __int__


NEG = {'lt': 'ge', 'le': 'gt', 'gt': 'le', 'ge': 'lt', 'eq': 'ne', 'ne': 'eq'}
FLIP = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}


def sym_pow(b, e):
    if e.r.is_const():
        c = e.r.const()
        if type(c) is int:
            if c < 0 and CTX is not None:
                CTX.check_nonzero(b.r, "0.0 cannot be raised to a negative power")
            if 0 <= c <= 400:
                return Sym(rpow_int(b.r, c), ('powi', b, c))
            if -400 <= c < 0:
                return Sym(rpow_int(b.r, c), ('div', lift(1), Sym(rpow_int(b.r, -c), ('powi', b, -c))))
            raise EngineUnsupported("huge exponent")
        if b.r.is_const() and b.r.const() == 0:
            if c < 0:
                raise ZeroDivisionError("0.0 cannot be raised to a negative power")
            return lift(0)
        if manifest_sign(b.r.num) != 1 or b.r.den:
            if bool(b == 0):
                if c < 0:
                    raise ZeroDivisionError("0.0 cannot be raised to a negative power")
                return lift(0)
            if bool(b < 0):
                raise EngineUnsupported("fractional power of a negative number")
        return Sym(rpow_frac(b.r, c, CTX.factor_sign))
    if b.r.is_const() and b.r.const() == 1:
        return lift(1)
    if b.r.is_const() and b.r.const() == 0:
        if bool(e == 0):
            return lift(1)
        if bool(e < 0):
            raise ZeroDivisionError("0.0 cannot be raised to a negative power")
        return lift(0)
    return sym_exp(e * sym_log(b))


def sym_log(x):
    x = lift(x)
    if x.r.is_const():
        c = x.r.const()
        if c <= 0:
            raise ValueError("math domain error")
        return Sym(alg.rlog_const(c))
    if not (manifest_sign(x.r.num) == 1 and not x.r.den):
        if not bool(x > 0):
            raise ValueError("math domain error")
    return Sym(rlog(x.r, CTX.factor_sign))


def sym_exp(x):
    return Sym(rexp(lift(x).r))


def sym_sqrt(x):
    x = lift(x)
    if x.r.is_const():
        c = Fraction(x.r.const())
        if c < 0:
            raise ValueError("math domain error")
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a == c.numerator and b * b == c.denominator:
            return lift(Fraction(a, b))
    elif manifest_sign(x.r.num) != 1 or x.r.den:
        if bool(x < 0):
            raise ValueError("math domain error")
        if bool(x == 0):
            return lift(0)
    return Sym(rpow_frac(x.r, Fraction(1, 2), CTX.factor_sign))


# ================================================================ z3 translation
class Z:
    """translates values to z3 terms with denominators cleared"""

    def __init__(self):
        self.ctx = z3.Context()
        self.vars = {}
        self.version = -1
        self.memo = {}
        self.keep = []
        self.den = {}

    def fresh(self):
        if self.version != alg.W.version:
            self.version = alg.W.version
            self.memo = {}
            self.keep = []

    def var(self, aid):
        if aid not in self.vars:
            self.vars[aid] = z3.Real(f'a{aid}', self.ctx)
        return self.vars[aid]

    def qv(self, c):
        return z3.RealVal(str(c), self.ctx)

    def D(self, aid):
        """z3 variable of an atom stands for atom ** (1/D)"""
        return self.den.get(aid) or alg.W.atoms[aid].rootden

    def prepare(self, rats, axioms=False, full=False):
        """choose, per atom, the root that keeps all exponents of a query integral and small"""
        W = alg.W
        den, num = {}, {}
        todo, seen, pend = [], set(), []

        def see(a, e):
            e = Fraction(e)
            den[a] = math.lcm(den.get(a, 1), e.denominator)
            todo.append(a)
            exps.setdefault(a, []).append(e)
        exps = {}

        def poly(p):
            for m in p:
                for a, e in m:
                    see(a, e)
        for r in rats:
            poly(r.num)
            for k in r.den:
                poly(fpoly(k))
        unit = set()
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            at = W.atoms[a]
            if at.kind in ('rootp', 'cprime') or not at.pos or (at.kind in ('base', 'ufn', 'logc') and (
                    at.lo not in (None, 0) or at.hi not in (None, 1))):
                unit.add(a)
            if at.kind == 'rootp':
                poly(at.arg)
            if axioms:
                if at.kind == 'loga':
                    see(at.arg, 1)
                elif at.kind == 'exp':
                    unit.add(a)
                    see(a, 1)
                    poly({at.arg: 1})
                elif at.kind == 'logp':
                    poly(at.arg)
        self.den = {}
        for a in exps:
            L = den[a]
            if full or alg.W.atoms[a].kind in ('rootp', 'cprime'):
                L = math.lcm(L, W.atoms[a].rootden)
            g = 0
            if a in unit or full:
                g = 1
            else:
                for e in exps[a]:
                    g = math.gcd(g, int(e * L))
            self.den[a] = Fraction(L, g or 1)
        self.memo = {}
        self.keep = []

    def root_exp(self, aid, e):
        """exponent of the root variable"""
        n = e * self.D(aid)
        if type(n) is Fraction:
            if n.denominator != 1:
                raise EngineUnsupported("root exponent")
            n = n.numerator
        return n

    def power(self, t, n):
        return t ** n if n > 1 else t

    def vpow(self, aid, n):
        x = self.var(aid)
        if n == 1:
            return x
        # square-and-multiply keeps z3's own power normaliser out of the way
        r = None
        k = ('vp', aid, n)
        if k in self.memo:
            return self.memo[k]
        if n % 2:
            r = self.vpow(aid, n - 1) * x
        else:
            h = self.vpow(aid, n // 2)
            r = h * h
        self.memo[k] = r
        return r

    def poly(self, p, shift=None):
        """z3 term of p * prod(atom^shift)"""
        terms = []
        for m, c in p.items():
            d = dict(m)
            if shift:
                for a, e in shift.items():
                    d[a] = d.get(a, 0) + e
            fs = []
            for a, e in sorted(d.items()):
                n = self.root_exp(a, e)
                if n == 0:
                    continue
                if n < 0:
                    raise EngineUnsupported("negative exponent")
                fs.append(self.vpow(a, n))
            t = None
            for f in fs:
                t = f if t is None else t * f
            if t is None:
                t = self.qv(c)
            elif c != 1:
                t = self.qv(c) * t
            terms.append(t)
        if not terms:
            return self.qv(0)
        if len(terms) == 1:
            return terms[0]
        return z3.Sum(terms)

    def numden(self, r):
        """Rat -> (N, {key: exp}); keys: ('a', aid) or ('f', factorkey)"""
        mins = {}
        for m in r.num:
            for a, e in m:
                if e < 0 and e < mins.get(a, 0):
                    mins[a] = e
        shift = {a: -e for a, e in mins.items()}
        N = self.poly(r.num, shift)
        D = {('a', a): e for a, e in shift.items()}
        for k, e in r.den.items():
            D[('f', k)] = D.get(('f', k), 0) + e
        return N, D

    def rootdef(self, a):
        """defining equation of an atom that stands for a polynomial under a root"""
        N, D = self.numden(Rat(alg.W.atoms[a].arg))
        return self.times(self.vpow(a, int(self.D(a))), D) == N

    def keyterm(self, k, e):
        if k[0] == 'a':
            return self.vpow(k[1], self.root_exp(k[1], e))
        kk = ('ft', k[1])
        if kk not in self.memo:
            self.memo[kk] = self.poly(fpoly(k[1]))
        t = self.memo[kk]
        out = t
        for _ in range(int(e) - 1):
            out = out * t
        return out

    def times(self, N, D):
        for k, e in D.items():
            if e:
                N = N * self.keyterm(k, e)
        return N

    def dsub(self, l, d):
        return {k: e - d.get(k, 0) for k, e in l.items() if e - d.get(k, 0)}

    def lcm(self, a, b):
        l = dict(a)
        for k, e in b.items():
            if l.get(k, 0) < e:
                l[k] = e
        return l

    def dag(self, s):
        """un-normalised translation of a Sym (operation by operation)"""
        todo = [(s, False)]
        memo = self.memo
        while todo:
            n, ready = todo.pop()
            k = ('n', id(n))
            if k in memo:
                continue
            e = n.e
            if e is None or n.r.is_const() or (e[0] == 'powi' and e[2] > 20):
                memo[k] = self.numden(n.r)
                self.keep.append(n)
                continue
            op, a, b = e
            if not ready:
                todo.append((n, True))
                if op == 'div':
                    todo.append((a, False))
                elif op == 'powi':
                    todo.append((a, False))
                else:
                    todo.append((a, False))
                    todo.append((b, False))
                continue
            Na, Da = memo[('n', id(a))]
            if op in ('add', 'sub'):
                Nb, Db = memo[('n', id(b))]
                l = self.lcm(Da, Db)
                x = self.times(Na, self.dsub(l, Da))
                y = self.times(Nb, self.dsub(l, Db))
                res = (x + y if op == 'add' else x - y, l)
            elif op == 'mul':
                Nb, Db = memo[('n', id(b))]
                D = dict(Da)
                for kk, ee in Db.items():
                    D[kk] = D.get(kk, 0) + ee
                res = (Na * Nb, D)
            elif op == 'powi':
                if b == 0:
                    res = (self.qv(1), {})
                else:
                    N = Na
                    for _ in range(b - 1):
                        N = N * Na
                    res = (N, {kk: ee * b for kk, ee in Da.items()})
            elif op == 'div':
                inv = alg.rinv(b.r)
                Ni, Di = self.numden(inv)
                D = dict(Da)
                for kk, ee in Di.items():
                    D[kk] = D.get(kk, 0) + ee
                res = (Na * Ni, D)
            memo[k] = res
            self.keep.append(n)
        return memo[('n', id(s))]


# ================================================================ path context
ALLSIGNS = frozenset((-1, 0, 1))
SIGNS = {'lt': frozenset((-1,)), 'le': frozenset((-1, 0)), 'gt': frozenset((1,)), 'ge': frozenset((0, 1)),
         'eq': frozenset((0,)), 'ne': frozenset((-1, 1))}


class SymCtx:
    mode = 'symbolic'

    def __init__(self, explorer, decisions, seed=1):
        self.ex = explorer
        self.dec = list(decisions)       # forced prefix
        self.npos = 0
        self.trace = []                  # taken decisions (value, had_alternative)
        self.pc = []                     # (op, Rat) assumed on the path
        self.pckeys = {}
        self.z = Z()
        self.pending = None
        self.inputs = []                 # (name, aid or choice)
        self.choices = {}
        self.base = {}
        self.obls = []                   # recorded obligations
        self.signs = {}
        self.facts = {}                  # normalised polynomial -> possible signs on this path
        self.tau = []                    # integration variables stack: (aid, lo Rat, hi Rat)
        self.dual = {}                   # derivative variables: aid -> Rat
        self.notes = explorer.notes
        self.nround = 0

    # ---------------------------------------------------------------- inputs
    def real(self, name, lo=None, hi=None, lo_open=True, hi_open=True, sample=None):
        """an arbitrary real in the given interval"""
        if name in self.base:
            return Sym(alg.ratom(alg.W.atoms[self.base[name]]))
        q = lambda v: None if v is None else to_q(v)
        pos = lo is not None and (lo > 0 or (lo == 0 and lo_open))
        a = alg.W.new_atom(None, name=name, kind='base', pos=pos, lo=q(lo), hi=q(hi),
                           lo_open=lo_open, hi_open=hi_open)
        a.sample = sample
        self.base[name] = a.aid
        self.inputs.append(name)
        return Sym(alg.ratom(a))

    def nonneg(self, name, hi=None, sample=None):
        return self.real(name, 0, hi, lo_open=False, sample=sample)

    def pos(self, name, hi=None, sample=None):
        return self.real(name, 0, hi, sample=sample)

    def prob(self, name, sample=None):
        return self.real(name, 0, 1, sample=sample)

    def choose(self, name, options):
        """nondeterministic choice among finitely many options (all explored)"""
        options = list(options)
        i = self.branch(len(options))
        self.choices[name] = i
        return options[i]

    def const(self, v):
        return lift(v)

    # --------------------------------------------------------------- branching
    def branch(self, n):
        if n == 1:
            return 0
        if self.npos < len(self.dec):
            v = self.dec[self.npos]
        else:
            v = 0
        self.npos += 1
        self.trace.append((v, n))
        return v

    def abort(self, why='infeasible'):
        self.pending = why
        raise PathAbort(why)

    def assume(self, c):
        """restrict to inputs satisfying c (a precondition of the property)"""
        if isinstance(c, Cond):
            if c.d.den and not c.d.is_const():
                op, num = self.canon(c.op, c.d)
                c = Cond(op, Rat(num))
            if len(c.d.num) > 40:        # large: a point that satisfies everything shows feasibility
                self.add_pc(c)
                for _ in range(20):
                    if self.ex.satisfies(self, self.ex.random_env(self)):
                        return
                if self.check(self.formulas()) == 'unsat':
                    self.abort()
                return
            v = self.entailed(c)
            if v is True:
                return
            if v is False:
                self.abort()
            self.add_pc(c)
            if self.check(self.formulas()) == 'unsat':
                self.abort()
        elif not c:
            self.abort()

    def add_pc(self, c):
        self.pc.append((c.op, c.d))
        k, flip = self.fact_key(c.d)
        if k is not None:
            s = SIGNS[c.op]
            if flip:
                s = frozenset(-x for x in s)
            self.facts[k] = self.facts.get(k, ALLSIGNS) & s
        self.signs = {}
        self.z_pc_dirty = True

    # ------------------------------------------------------------- z3 plumbing
    def cond_formula(self, op, d):
        return (op, d)

    def build(self, op, d):
        z = self.z
        N, D = z.numden(d)
        odd = {k: 1 for k, e in D.items() if k[0] == 'f' and int(e) % 2 and not self.known_pos(k[1])}
        for k in odd:
            N = N * z.keyterm(k, 1)
        zero = z.qv(0)
        return {'lt': lambda: N < zero, 'le': lambda: N <= zero, 'gt': lambda: N > zero,
                'ge': lambda: N >= zero, 'eq': lambda: N == zero, 'ne': lambda: N != zero}[op]()

    def known_pos(self, fk):
        return manifest_sign(fpoly(fk)) == 1

    def domain(self, aids, axioms=False):
        """constraints on the atoms that occur"""
        z = self.z
        W = alg.W
        out = []
        # factors whose atoms occur are non-zero because the code divided by them
        seen = set()
        todo = list(aids)
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            at = W.atoms[a]
            x = z.var(a)
            D = z.D(a)
            if at.pos:
                out.append(x > 0)
            if at.kind == 'base' or at.kind == 'logc':
                xv = z.vpow(a, int(D)) if D > 1 and D == int(D) else x
                if at.lo is not None and not (at.pos and at.lo == 0):
                    out.append(xv > z.qv(at.lo) if at.lo_open else xv >= z.qv(at.lo))
                if at.hi is not None:
                    if at.hi == 1:
                        out.append(x < 1 if at.hi_open else x <= 1)
                    else:
                        out.append(xv < z.qv(at.hi) if at.hi_open else xv <= z.qv(at.hi))
            elif at.kind == 'cprime':
                out.append(z.vpow(a, int(D)) == z.qv(at.arg))
            elif at.kind == 'rootp':
                out.append(z.rootdef(a))
                s = set()
                alg.atoms_of_poly(at.arg, s)
                todo.extend(s)
            elif at.kind == 'ufn':
                if at.lo is not None:
                    out.append(x > z.qv(at.lo))
                if at.hi is not None:
                    out.append(x < z.qv(at.hi))
            if axioms:
                if at.kind == 'loga':
                    # 1 - 1/b <= log b <= b - 1
                    b = z.vpow(at.arg, int(z.D(at.arg)))
                    todo.append(at.arg)
                    out += [z3.Or(b == 1, x < b - 1), z3.Or(b == 1, b * x > b - 1), z3.Or(b != 1, x == 0)]
                    DD = int(z.D(at.arg))
                    if DD > 1:
                        y = z.var(at.arg)
                        out += [z3.Or(y == 1, x < DD * (y - 1)), z3.Or(y == 1, y * x > DD * (y - 1))]
                    bb = W.atoms[at.arg]
                    if bb.hi == 1:
                        out.append(x < 0)
                    elif bb.kind == 'base' and bb.hi is not None and bb.hi > 0:
                        out.append(x <= z.qv(Fraction(math.log(bb.hi) + 1e-9).limit_denominator(10 ** 6) + Fraction(1, 10 ** 6)))
                    if bb.kind == 'base' and bb.lo is not None and bb.lo > 0:
                        out.append(x >= z.qv(Fraction(math.log(bb.lo) - 1e-9).limit_denominator(10 ** 6) - Fraction(1, 10 ** 6)))
                elif at.kind == 'exp':
                    try:
                        s = set()
                        alg.atoms_of_poly({at.arg: 1}, s)
                        todo.extend(s)
                        N, Dm = z.numden(Rat({at.arg: 1}))
                        if not Dm:
                            e1 = z.vpow(a, int(D))
                            out += [z3.Or(N == 0, e1 > 1 + N), z3.Or(N == 0, e1 * (1 - N) < 1), z3.Or(N != 0, e1 == 1)]
                            if int(D) > 1:
                                y = z.var(a)
                                out += [z3.Or(N == 0, y * int(D) > int(D) + N)]
                            if all(W.atoms[y].pos for y, _ in at.arg):
                                out.append(x > 1)
                    except EngineUnsupported:
                        alg.RAISED.pop()
                elif at.kind == 'logp':
                    s = set()
                    alg.atoms_of_poly(at.arg, s)
                    todo.extend(s)
                    N, Dm = z.numden(Rat(at.arg))
                    if not Dm:
                        out += [z3.Or(N == 1, x < N - 1), z3.Or(N == 1, N * x > N - 1), z3.Or(N != 1, x == 0)]
        return out

    def formulas(self, extra=()):
        fs, aids = [], set()
        for op, d in list(self.pc) + list(extra):
            fs.append(self.cond_formula(op, d))
            alg.atoms_of(d, aids)
        for a, lo, hi in self.tau:
            v = Rat({((a, 1),): 1})
            for op, d in (('gt', radd(v, lo, -1)), ('lt', radd(v, hi, -1))):
                fs.append(self.cond_formula(op, d))
                alg.atoms_of(d, aids)
        return fs, aids

    def check(self, fa, timeout=4000, axioms=False, model=False, extra=None, rats=()):
        fs, aids = fa
        t0 = time.time()
        self.z.prepare([d for _, d in fs] + list(rats), axioms)
        cons = self.domain(aids, axioms) + [self.build(op, d) for op, d in fs]
        if extra is not None:
            cons += extra(self.z)
        st = self.ex.stats
        r = 'unknown'
        for tac in ('qfnra-nlsat', None):
            try:
                s = z3.Tactic(tac, self.z.ctx).solver() if tac else z3.Solver(ctx=self.z.ctx)
                s.set('timeout', int(timeout))
                for c in cons:
                    s.add(c)
                st['queries'] += 1
                r = str(s.check())
            except z3.Z3Exception as e:
                self.notes.add('z3: ' + str(e)[:80])
                r = 'unknown'
            if r != 'unknown':
                break
            timeout = timeout / 2
        dt = time.time() - t0
        st['solver_s'] += dt
        st['max_query_s'] = max(st['max_query_s'], dt)
        st[r] = st.get(r, 0) + 1
        if model:
            m = None
            if r == 'sat':
                try:
                    m = self.read_model(s.model(), aids)
                except z3.Z3Exception:
                    m = None
            return r, m
        return r

    def read_model(self, m, aids):
        """values for the base atoms (others get a default sample)"""
        env = {}
        for a in alg.base_closure(aids):
            at = alg.W.atoms[a]
            if a in aids:
                v = m.eval(self.z.var(a), model_completion=True)
                if z3.is_algebraic_value(v):
                    v = v.approx(20)
                f = float(Fraction(v.numerator_as_long(), v.denominator_as_long())) ** float(self.z.D(a))
                env[at.name] = f
        return env

    # ---------------------------------------------------------------- deciding
    def canon(self, op, d):
        """fold the sign of the denominator; returns (op, poly) or a bool"""
        num = d.num
        for k, e in d.den.items():
            if op in ('eq', 'ne') or e % 2 == 0:
                continue
            s = self.factor_sign(fpoly(k))
            if s < 0:
                op = FLIP[op]
        return op, num

    def factor_sign(self, p):
        """sign of a polynomial that is known to be non-zero (forks if open)"""
        s = manifest_sign(p)
        if s in (1, -1):
            return s
        k = alg.pkey(p)
        if k in self.signs:
            return self.signs[k]
        s = 1 if self.decide(Cond('gt', Rat(p))) else -1
        self.signs[k] = s
        return s

    def subst_dual(self, d):
        if self.dual and any(a in self.dual for a in alg.base_closure(alg.atoms_of(d))):
            return alg.rsubst(d, self.dual, self.factor_sign), True
        return d, False

    def fact_key(self, d):
        """polynomial up to a positive factor (known-positive monomials and a scale)"""
        if d.den or not d.num:
            return None, False
        mins = {}
        first = True
        for m in d.num:
            e = dict(m)
            if first:
                mins = {a: x for a, x in e.items() if alg.W.atoms[a].pos}
                first = False
            else:
                for a in list(mins):
                    mins[a] = min(mins[a], e.get(a, 0))
            for a, x in e.items():
                if x < 0 and alg.W.atoms[a].pos and a not in mins:
                    mins[a] = x
        for m in d.num:
            e = dict(m)
            for a in mins:
                mins[a] = min(mins[a], e.get(a, 0))
        out = {}
        for m, x in d.num.items():
            e = dict(m)
            for a, y in mins.items():
                e[a] = e.get(a, 0) - y
            out[tuple(sorted((a, y) for a, y in e.items() if y))] = x
        lead = out[max(out)]
        return frozenset((m, Fraction(x) / Fraction(lead)) for m, x in out.items()), lead < 0

    def entailed(self, c):
        """True/False when the path decides c, None when both are possible"""
        d = c.d
        if d.is_const():
            x = d.const()
            return {'lt': x < 0, 'le': x <= 0, 'gt': x > 0, 'ge': x >= 0, 'eq': x == 0, 'ne': x != 0}[c.op]
        s = manifest_sign(d.num)
        if s is not None and not d.den:
            return {'lt': s < 0, 'le': s <= 0, 'gt': s > 0, 'ge': s >= 0, 'eq': s == 0, 'ne': s != 0}[c.op]
        key = (c.op, d.key())
        if key in self.pckeys:
            return self.pckeys[key]
        nkey = (NEG[c.op], d.key())
        if nkey in self.pckeys:
            return not self.pckeys[nkey]
        q = self.interval(c.op, d)
        if q is not None:
            return q
        if self.facts:
            k, flip = self.fact_key(d)
            if k is not None and k in self.facts:
                have = self.facts[k]
                if flip:
                    have = frozenset(-x for x in have)
                if have <= SIGNS[c.op]:
                    return True
                if not have & SIGNS[c.op]:
                    return False
        fs, aids = self.formulas()
        alg.atoms_of(d, aids)
        f = self.cond_formula(c.op, d)
        t = self.check((fs + [f], aids))
        if t == 'unsat':
            self.pckeys[key] = False
            return False
        nf = self.cond_formula(NEG[c.op], d)
        n = self.check((fs + [nf], aids))
        if n == 'unsat':
            self.pckeys[key] = True
            return True
        if t == 'unknown' or n == 'unknown':
            # refine with the transcendental axioms
            if self.check((fs + [f], aids), axioms=True) == 'unsat':
                self.pckeys[key] = False
                return False
            if self.check((fs + [nf], aids), axioms=True) == 'unsat':
                self.pckeys[key] = True
                return True
            self.ex.stats['open_branches'] += 1
        elif any(alg.W.atoms[a].kind in ('exp', 'loga', 'logp') for a in aids):
            if self.check((fs + [f], aids), axioms=True, timeout=1500) == 'unsat':
                self.pckeys[key] = False
                return False
            if self.check((fs + [nf], aids), axioms=True, timeout=1500) == 'unsat':
                self.pckeys[key] = True
                return True
        return None

    def interval(self, op, d):
        """comparison of an integration variable with a number, by its range"""
        if not self.tau or d.den or len(d.num) > 2:
            return None
        a, c0, c1 = None, 0, None
        for m, c in d.num.items():
            if not m:
                c0 = c
            elif len(m) == 1 and m[0][1] == 1:
                a, c1 = m[0][0], c
            else:
                return None
        if a is None:
            return None
        for t, lo, hi in self.tau:
            if t == a and lo.is_const() and hi.is_const():
                x, y = c0 + c1 * lo.const(), c0 + c1 * hi.const()
                x, y = min(x, y), max(x, y)           # open interval (x, y)
                if x >= 0:
                    return op in ('gt', 'ge', 'ne')
                if y <= 0:
                    return op in ('lt', 'le', 'ne')
        return None

    def tau_dep(self, d):
        if not self.tau:
            return None
        b = alg.base_closure(alg.atoms_of(d))
        for a, lo, hi in self.tau:
            if a in b:
                return a
        return None

    def decide(self, c):
        d, dual = self.subst_dual(c.d)
        if dual:
            if d.is_const() and d.const() == 0:
                # on the boundary: the derivative variable is just above
                if c.op in ('eq', 'ne'):
                    return c.op == 'ne'
                lead_pos = True
                aid = next(a for a in self.dual if alg.depends(c.d, a))
                dd = alg.rsubst(alg.rdiff(c.d, aid), self.dual, self.factor_sign)
                s = Sym(dd)
                up = bool(s > 0)
                return {'lt': not up, 'le': not up, 'gt': up, 'ge': up}[c.op]
            c = Cond(c.op, d)
        if d.is_const() or not d.num:
            return self.entailed(c)
        op, num = self.canon(c.op, d) if d.den else (c.op, d.num)
        if d.den:
            c = Cond(op, Rat(num))
        a = self.tau_dep(c.d)
        if a is not None and c.op in ('eq', 'ne'):
            return c.op == 'ne'          # isolated points do not matter under an integral
        v = self.entailed(c)
        if v is not None:
            return v
        if a is not None:
            self.split_on(c.d, a)
        b = self.branch(2)
        cc = c if b == 0 else Cond(NEG[c.op], c.d)
        self.pckeys[(c.op, c.d.key())] = (b == 0)
        self.add_pc(cc)
        if self.npos > len(self.dec) and b == 0:
            pass
        return b == 0

    def split_on(self, d, a):
        """condition undecided inside an integration interval: split it"""
        c0, c1 = {}, {}
        for m, c in d.num.items():
            e = dict(m).get(a, 0)
            rest = tuple(x for x in m if x[0] != a)
            if e == 0:
                c0[rest] = c
            elif e == 1:
                c1[rest] = c
            else:
                raise EngineUnsupported("non-linear break point in an integrand")
        if any(a in alg.base_closure([x for x, _ in m]) for m in list(c0) + list(c1)):
            raise EngineUnsupported("transcendental break point in an integrand")
        th = rdiv(rneg(Rat(c0)), Rat(c1))
        raise NeedSplit(th)

    def check_nonzero(self, r, msg="float division by zero"):
        if not r.num:
            raise ZeroDivisionError(msg)
        s = manifest_sign(r.num)
        if s in (1, -1):
            return
        if self.decide(Cond('eq', Rat(r.num))):
            raise ZeroDivisionError(msg)

    def floor(self, x):
        """integer part: fork over the feasible integers"""
        d, dual = self.subst_dual(x.r)
        if dual and d.is_const():
            return math.floor(d.const())
        y = Sym(d)
        if y.r.is_const():
            return math.floor(y.r.const())
        ta = self.tau_dep(y.r)
        if ta is None and any(alg.W.atoms[a].kind in ('exp', 'loga', 'logp', 'expr') for a in alg.atoms_of(y.r)):
            # transcendental value: try integers seen at sample points of the path first
            # (only an ordering of the case split: every case is decided by the solver)
            for kk in self.sampled_floors(y.r):
                if bool(y >= kk) and bool(y < kk + 1):
                    return kk
        last = None
        for _ in range(400):
            fs, aids = self.formulas()
            alg.atoms_of(y.r, aids)
            v = self.model_value(y.r, fs, aids)
            k = math.floor(v)
            for kk in (k, k - 1, k + 1):
                if ta is not None:
                    lo, hi = y >= kk, y < kk + 1
                    if bool(lo) and bool(hi):
                        return kk
                    continue
                if bool(y >= kk) and bool(y < kk + 1):
                    return kk
            if v == last and self.check(self.formulas(), axioms=True) == 'unsat':
                raise PathAbort('infeasible')
            last = v
        raise EngineUnsupported("floor with too many values")

    def sampled_floors(self, r):
        keep, self.ex.rng = self.ex.rng, random.Random(7)
        try:
            seen = []
            for _ in range(300):
                e = self.ex.random_env(self)
                if not self.ex.satisfies(self, e):
                    continue
                try:
                    k = math.floor(alg.rat_value(r, self.ex.byid(self, e), {}))
                except (KeyError, ValueError, ZeroDivisionError, OverflowError):
                    continue
                if k not in seen:
                    seen.append(k)
                if len(seen) > 12:
                    break
            return seen
        finally:
            self.ex.rng = keep

    def model_value(self, r, fs, aids):
        z = self.z
        z.prepare([d for _, d in fs] + [r])
        t = z3.Real('mv!', z.ctx)
        N, D = z.numden(r)
        den = z.times(z.qv(1), D)
        s = z3.Tactic('qfnra-nlsat', z.ctx).solver()
        s.set('timeout', 4000)
        for c in self.domain(aids) + [self.build(op, d) for op, d in fs]:
            s.add(c)
        s.add(t * den == N)
        self.ex.stats['queries'] += 1
        if str(s.check()) != 'sat':
            raise EngineUnsupported("no model for floor")
        v = s.model().eval(t, model_completion=True)
        if z3.is_algebraic_value(v):
            v = v.approx(20)
        return Fraction(v.numerator_as_long(), v.denominator_as_long())

    def concretise(self, x):
        k = self.floor(x)
        if not bool(x == k):
            raise EngineUnsupported("non-integer used as an index")
        return k

    def rounded(self, x, n):
        self.nround += 1
        h = Fraction(1, 2 * 10 ** n)
        a = alg.W.new_atom(None, name=f'round!{self.nround}', kind='base', pos=False, lo=-h, hi=h,
                           lo_open=False, hi_open=False)
        return x + Sym(alg.ratom(a))

    def fresh_root(self, lo, hi):
        self.nround += 1
        a = alg.W.new_atom(None, name=f'root!{self.nround}', kind='base',
                           pos=(lo is not None and lo >= 0), lo=lo, hi=hi)
        return Sym(alg.ratom(a))

    # ------------------------------------------------------------- obligations
    def eq(self, lhs, rhs, what='', rtol=2e-6, atol=2e-7):
        self.obl('eq', lhs, rhs, what, rtol, atol)

    def le(self, lhs, rhs, what='', tol=1e-7):
        self.obl('le', lhs, rhs, what, tol, tol)

    def lt(self, lhs, rhs, what='', tol=1e-9):
        self.obl('lt', lhs, rhs, what, tol, tol)

    def true(self, c, what=''):
        if isinstance(c, Cond):
            z = Sym(c.d)
            if c.op in ('le', 'lt'):
                return self.obl(c.op, z, 0, what, 1e-7, 1e-7)
            if c.op in ('ge', 'gt'):
                return self.obl({'ge': 'le', 'gt': 'lt'}[c.op], 0, z, what, 1e-7, 1e-7)
            if c.op == 'eq':
                return self.obl('eq', z, 0, what, 2e-6, 2e-7)
            c = bool(c)
        self.obl('true', bool(c), True, what, 0, 0)

    def same(self, a, b, what=''):
        """plain Python equality of non-numeric observations"""
        self.obl('true', bool(a == b), True, what, 0, 0)

    def fails(self, fn, what=''):
        """fn must raise (documented precondition violated)"""
        try:
            fn()
        except (PathAbort, NeedSplit):
            raise
        except EngineUnsupported:
            raise
        except Exception:
            if self.pending:
                raise PathAbort(self.pending)
            return self.obl('true', True, True, what, 0, 0)
        return self.obl('true', False, True, what, 0, 0)

    def obl(self, kind, lhs, rhs, what, rtol, atol):
        self.ex.obligation(self, kind, lhs, rhs, what, rtol, atol)
