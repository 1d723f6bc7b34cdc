"""Exact algebra used by the symbolic values.

A value is a quotient  num / prod(factor^k)  where num is a sparse Laurent
polynomial with rational coefficients over *atoms*.  Positive atoms may carry
negative and rational exponents (so v**(1/12), 1/l_x ... stay monomials);
denominators which are not monomials are kept as normalised factors.
Atoms are either free inputs, or transcendental values derived from other
values: log(..), exp(monomial), fractional powers of polynomials,
uninterpreted functions.  log/exp are kept mutually inverse by construction.
"""
from fractions import Fraction
from math import gcd
import math


RAISED = []          # every EngineUnsupported of the current path (the code may swallow it)


class EngineUnsupported(Exception):
    """The code under analysis did something that the encoding cannot express."""

    def __init__(self, *a):
        super().__init__(*a)
        RAISED.append(self)


class Atom:
    __slots__ = ('aid', 'name', 'kind', 'pos', 'lo', 'hi', 'lo_open', 'hi_open',
                 'arg', 'rootden', 'base', 'fn', 'sample')

    def __init__(self, aid, name, kind, pos, lo=None, hi=None, lo_open=True,
                 hi_open=True, arg=None, fn=None):
        self.aid, self.name, self.kind, self.pos = aid, name, kind, pos
        self.lo, self.hi, self.lo_open, self.hi_open = lo, hi, lo_open, hi_open
        self.arg, self.rootden, self.fn = arg, 1, fn
        self.sample = None

    def __repr__(self):
        return self.name


class World:
    """All atoms and factors of one path execution."""

    def __init__(self):
        self.atoms = []
        self.index = {}
        self.special = False       # any atom with carry rules present?
        self.version = 0
        self.factors = {}          # key -> poly of the known denominators
        self.mcache = {}
        self.ctx = None            # decision oracle (set by the explorer)

    def new_atom(self, key, **kw):
        if key is not None and key in self.index:
            return self.atoms[self.index[key]]
        a = Atom(len(self.atoms), **kw)
        self.atoms.append(a)
        if key is not None:
            self.index[key] = a.aid
        return a


W = World()


def reset_world():
    global W
    W = World()
    RAISED.clear()
    return W


def world():
    return W


# ---------------------------------------------------------------- coefficients
def norm_q(c):
    if type(c) is int:
        return c
    if c.denominator == 1:
        return c.numerator
    return c


def qdiv(a, b):
    if type(a) is int and type(b) is int:
        if a % b == 0:
            return a // b
        return Fraction(a, b)
    return norm_q(Fraction(a) / b)


_fcache = {}


def to_q(f):
    """Python number -> exact rational, reading a float as the simplest rational
    that prints as the same float."""
    t = type(f)
    if t is int or t is bool:
        return int(f)
    if t is Fraction:
        return norm_q(f)
    f = float(f)
    if f in _fcache:
        return _fcache[f]
    if math.isinf(f) or math.isnan(f):
        raise EngineUnsupported(f"non-finite float {f}")
    if f == int(f) and abs(f) < 1e18:
        r = int(f)
    else:
        c = Fraction(f).limit_denominator(10 ** 4)
        if float(c) != f:
            c = Fraction(repr(f))
        r = norm_q(c)
    _fcache[f] = r
    return r


# ------------------------------------------------------------------- monomials
def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    la, lb = len(a), len(b)
    out = []
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            e = x[1] + y[1]
            if e != 0:
                if type(e) is Fraction and e.denominator == 1:
                    e = e.numerator
                out.append((x[0], e))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    if i < la:
        out.extend(a[i:])
    if j < lb:
        out.extend(b[j:])
    return tuple(out)


def mono_pow(m, e):
    out = []
    for aid, k in m:
        k = k * e
        if type(k) is Fraction:
            if k.denominator == 1:
                k = k.numerator
            else:
                note_root(aid, k.denominator)
        out.append((aid, k))
    return tuple(out) if e != 0 else ()


def note_root(aid, d):
    a = W.atoms[aid]
    n = a.rootden * d // gcd(a.rootden, d)
    if n != a.rootden:
        a.rootden = n
        W.version += 1


# ----------------------------------------------------------------- polynomials
ONE = {(): 1}


def padd(p, q, sgn=1):
    if len(p) < len(q) and sgn == 1:
        p, q = q, p
    r = dict(p)
    for m, c in q.items():
        if sgn != 1:
            c = -c
        d = r.get(m)
        if d is None:
            r[m] = c
        else:
            d = d + c
            if d == 0:
                del r[m]
            else:
                r[m] = norm_q(d)
    return r


MAXTERMS = 60000


def pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    if len(p) == 1:
        (m, c), = p.items()
        if not m and c == 1:
            return q
        if not m:
            return {k: norm_q(v * c) for k, v in q.items()}
        return {mono_mul(k, m): norm_q(v * c) for k, v in q.items()}
    if len(p) * len(q) > 8_000_000:
        raise EngineUnsupported("polynomial product too large")
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = mono_mul(m, n)
            e = r.get(k)
            x = c * d
            if e is None:
                r[k] = x
            else:
                x = e + x
                if x == 0:
                    del r[k]
                else:
                    r[k] = x
    if len(r) > MAXTERMS:
        raise EngineUnsupported("polynomial too large")
    return {k: norm_q(v) for k, v in r.items()}


def ppow(p, n):
    r = ONE
    while n:
        if n & 1:
            r = pmul(r, p)
        n >>= 1
        if n:
            p = pmul(p, p)
    return r


def pkey(p):
    return tuple(sorted(p.items(), key=_mkey))


def _mkey(it):
    return tuple((a, float(e)) for a, e in it[0])


def lexkey(m):
    # order: compare exponent vectors lexicographically by atom id
    return m


def lead(p):
    """leading monomial under lex order on exponent vectors (low atom id first)"""
    best = None
    for m in p:
        if best is None or lexgt(m, best):
            best = m
    return best


def lexgt(a, b):
    i = 0
    la, lb = len(a), len(b)
    while True:
        if i >= la:
            # a exhausted: remaining exps of a are 0
            if i >= lb:
                return False
            return b[i][1] < 0
        if i >= lb:
            return a[i][1] > 0
        x, y = a[i], b[i]
        if x[0] == y[0]:
            if x[1] != y[1]:
                return x[1] > y[1]
            i += 1
        elif x[0] < y[0]:
            return x[1] > 0
        else:
            return y[1] < 0


def content_mono(p):
    """Laurent content: monomial of the minimum exponent of every atom."""
    it = iter(p)
    first = next(it)
    mins = dict(first)
    n = 1
    for m in it:
        d = dict(m)
        for a in list(mins):
            e = d.get(a, 0)
            if e < mins[a]:
                mins[a] = e
        for a, e in d.items():
            if a not in mins:
                mins[a] = e if e < 0 else 0
        n += 1
    return tuple(sorted((a, e) for a, e in mins.items() if e != 0))


def split_content(p):
    """p = c * m * P' with P' having leading coefficient 1, no monomial content.
    Returns (c, m, P')."""
    if len(p) == 1:
        (m, c), = p.items()
        return c, m, ONE
    m = content_mono(p)
    if m:
        im = tuple((a, -e) for a, e in m)
        p = {mono_mul(k, im): c for k, c in p.items()}
    lm = lead(p)
    c = p[lm]
    if c != 1:
        p = {k: qdiv(v, c) for k, v in p.items()}
    return c, m, p


def pdiv_exact(p, f, maxsteps=None):
    """p / f if exact, else None (f has leading coefficient 1, no content)."""
    if not p:
        return {}
    lf = lead(f)
    if len(f) == 1:
        ilf, q, cf = tuple((a, -e) for a, e in lf), {}, f[lf]
        for k, c in p.items():
            d = dict(k)
            if any(d.get(a, 0) < e for a, e in lf):
                return None
            q[mono_mul(k, ilf)] = qdiv(c, cf)
        return q
    m = content_mono(p)
    im = tuple((a, -e) for a, e in m)
    r = {mono_mul(k, im): c for k, c in p.items()} if m else dict(p)
    q = {}
    ilf = tuple((a, -e) for a, e in lf)
    steps = maxsteps or (len(p) * 4 + 50)
    cf = f[lf]
    while r:
        lr = lead(r)
        t = mono_mul(lr, ilf)
        for a, e in t:
            if e < 0:
                return None
        c = qdiv(r[lr], cf)
        q[t] = c
        for k, v in f.items():
            kk = mono_mul(k, t)
            x = r.get(kk, 0) - v * c
            if x == 0:
                r.pop(kk, None)
            else:
                r[kk] = norm_q(x)
        steps -= 1
        if steps < 0 or len(r) > 4 * len(p) + 200:
            return None
    if m:
        q = {mono_mul(k, m): c for k, c in q.items()}
    return q


def manifest_sign(p):
    """+1/-1 if every term has that sign for all admissible atom values, 0 if the
    polynomial is identically zero, None if unknown."""
    if not p:
        return 0
    s = None
    for m, c in p.items():
        for a, e in m:
            if not W.atoms[a].pos:
                if type(e) is int and e % 2 == 0 and len(p) > 1:
                    # squares are only >= 0: not strict on their own
                    return None
                return None
        t = 1 if c > 0 else -1
        if s is None:
            s = t
        elif s != t:
            return None
    return s


# --------------------------------------------------------------------- rationals
class Rat:
    __slots__ = ('num', 'den', '_k')

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}
        self._k = None

    def key(self):
        if self._k is None:
            self._k = (pkey(self.num), tuple(sorted(self.den.items(), key=repr)))
        return self._k

    def is_const(self):
        return not self.num or (not self.den and len(self.num) == 1 and () in self.num)

    def const(self):
        return self.num.get((), 0) if self.num else 0


def rconst(c):
    return Rat({(): c} if c != 0 else {})


R0 = Rat({})
R1 = Rat({(): 1})


def ratom(a):
    return Rat({((a.aid, 1),): 1})


def fpoly(key):
    return W.factors[key]


def den_lcm(d1, d2):
    if d1 == d2:
        return d1, ONE, ONE
    l = dict(d1)
    for k, e in d2.items():
        if l.get(k, 0) < e:
            l[k] = e
    m1, m2 = ONE, ONE
    for k, e in l.items():
        x = e - d1.get(k, 0)
        if x:
            m1 = pmul(m1, ppow(fpoly(k), x))
        x = e - d2.get(k, 0)
        if x:
            m2 = pmul(m2, ppow(fpoly(k), x))
    return l, m1, m2


def cancel(num, den):
    if not num:
        return Rat({})
    if not den:
        return Rat(num)
    out = {}
    for k, e in den.items():
        f = fpoly(k)
        while e > 0:
            if len(num) < len(f) and len(num) == 1:
                break
            q = pdiv_exact(num, f)
            if q is None:
                break
            num = q
            e -= 1
        if e:
            out[k] = e
    return Rat(num, out)


def radd(a, b, sgn=1):
    if not b.num:
        return a
    if not a.num:
        return b if sgn == 1 else rneg(b)
    if not a.den and not b.den:
        return Rat(padd(a.num, b.num, sgn))
    l, m1, m2 = den_lcm(a.den, b.den)
    return cancel(padd(pmul(a.num, m1), pmul(b.num, m2), sgn), dict(l))


def rneg(a):
    return Rat({k: -c for k, c in a.num.items()}, a.den)


def rmul(a, b):
    if not a.num or not b.num:
        return R0
    num = pmul(a.num, b.num)
    if a.den or b.den:
        den = dict(a.den)
        for k, e in b.den.items():
            den[k] = den.get(k, 0) + e
        r = cancel(num, den)
    else:
        r = Rat(num)
    return fix_special(r) if W.special else r


def add_factor(p):
    """register normalised factor p (leading coeff 1, no content); returns
    list of (key, exp) after splitting by known small factors."""
    out = {}
    # split by already known factors
    if len(p) > 1:
        for k, f in list(W.factors.items()):
            if len(f) > 6 or len(f) >= len(p) and f != p and len(p) <= 2 and len(f) > 2:
                continue
            if f == p:
                break
            while True:
                q = pdiv_exact(p, f, 400)
                if q is None or len(q) == 0:
                    break
                c, m, q2 = split_content(q)
                if m or c != 1:
                    break
                out[k] = out.get(k, 0) + 1
                p = q2
                if p == ONE or p == {(): 1}:
                    return out
    k = pkey(p)
    W.factors.setdefault(k, p)
    out[k] = out.get(k, 0) + 1
    return out


def rinv(b):
    """1/b, b not identically zero"""
    num = ONE
    for k, e in b.den.items():
        num = pmul(num, ppow(fpoly(k), e))
    c, m, p = split_content(b.num)
    den = {}
    # monomial part
    im = []
    for a, e in m:
        if W.atoms[a].pos:
            im.append((a, -e))
        elif e > 0:
            fk = add_factor({((a, 1),): 1})
            for k, x in fk.items():
                den[k] = den.get(k, 0) + x * e
        else:
            im.append((a, -e))
    num = pmul(num, {tuple(im): qdiv(1, c)})
    if len(p) > 1:
        for k, x in add_factor(p).items():
            den[k] = den.get(k, 0) + x
    return Rat(num, den)


def rdiv(a, b):
    if not b.num:
        raise ZeroDivisionError("division by zero")
    if len(b.num) == 1 or not b.num:
        return rmul(a, rinv(b))
    # try direct exact division first
    c, m, p = split_content(b.num)
    if not b.den or True:
        q = pdiv_exact(a.num, p) if len(p) > 1 else None
        if q is not None and all(W.atoms[x].pos for x, _ in m):
            im = tuple((x, -e) for x, e in m)
            num = pmul(q, {im: qdiv(1, c)})
            den = dict(a.den)
            mul = ONE
            for k, e in b.den.items():
                h = min(e, den.get(k, 0))
                if h:
                    den[k] -= h
                    if not den[k]:
                        del den[k]
                if e - h:
                    mul = pmul(mul, ppow(fpoly(k), e - h))
            r = cancel(pmul(num, mul), den)
            return fix_special(r) if W.special else r
    return rmul(a, rinv(b))


def rpow_int(a, n):
    if n == 0:
        return R1
    if n < 0:
        if not a.num:
            raise ZeroDivisionError("0.0 cannot be raised to a negative power")
        return rpow_int(rinv(a), -n)
    r = Rat(ppow(a.num, n), {k: e * n for k, e in a.den.items()})
    return fix_special(r) if W.special else r


# ------------------------------------------------------ atoms with carry rules
def fix_special(r):
    """carry integer parts of exponents of constant-prime atoms and of
    power-of-polynomial atoms back into the polynomial."""
    def todo(p):
        for m in p:
            for a, e in m:
                k = W.atoms[a].kind
                if k in ('cprime', 'rootp') and not (0 < e < 1):
                    return True
        return False
    if not todo(r.num):
        return r
    out = R0
    for m, c in r.num.items():
        mm, mul = [], R1
        for a, e in m:
            at = W.atoms[a]
            if at.kind in ('cprime', 'rootp') and not (0 < e < 1):
                n = math.floor(e)
                if at.kind == 'cprime':
                    mul = rmul(mul, rconst(norm_q(Fraction(at.arg) ** n)))
                else:
                    mul = rmul(mul, rpow_int(Rat(at.arg), n))
                e = e - n
                if type(e) is Fraction and e.denominator == 1:
                    e = e.numerator
            if e != 0:
                mm.append((a, e))
        t = Rat({tuple(mm): c})
        out = radd(out, Rat(pmul(t.num, mul.num), mul.den) if mul is not R1 else t)
    d = dict(r.den)
    for k, e in out.den.items():
        d[k] = d.get(k, 0) + e
    return cancel(out.num, d)


# ------------------------------------------------------------- log / exp / pow
def _factorint(n):
    out = {}
    p = 2
    while p * p <= n and p < 5000:
        while n % p == 0:
            out[p] = out.get(p, 0) + 1
            n //= p
        p += 1
    if n > 1:
        out[n] = out.get(n, 0) + 1
    return out


def log_atom_of(kind, arg, name, key):
    return W.new_atom(key, name=name, kind=kind, pos=False, arg=arg)


def rlog_const(c):
    c = Fraction(c)
    r = R0
    for n, sg in ((c.numerator, 1), (c.denominator, -1)):
        for p, e in _factorint(n).items():
            a = W.new_atom(('logc', p), name=f'log({p})', kind='logc', pos=True, arg=p,
                           lo=to_q(math.log(p) * (1 - 1e-12)), hi=to_q(math.log(p) * (1 + 1e-12)))
            r = radd(r, Rat({((a.aid, 1),): sg * e}))
    return r


def rlog_atom(aid):
    at = W.atoms[aid]
    if at.kind == 'exp':                 # log(exp(m)) = m
        return Rat({at.arg: 1})
    if at.kind == 'expr':
        return at.arg
    if at.kind == 'cprime':
        return rlog_const(at.arg)
    if at.kind == 'rootp':
        return rlog_poly(at.arg)
    a = W.new_atom(('loga', aid), name=f'log({at.name})', kind='loga', pos=False, arg=aid)
    return ratom(a)


def rlog_poly(p):
    """log of a normalised non-monomial polynomial known to be positive"""
    k = pkey(p)
    W.factors.setdefault(k, p)
    a = W.new_atom(('logp', k), name=f'log({pstr(p)})', kind='logp', pos=False, arg=p)
    return ratom(a)


def proot(p, k):
    """exact k-th root of a polynomial, or None"""
    lm = lead(p)
    if any((e * 1) % k for _, e in lm if type(e) is int) or any(type(e) is not int for _, e in lm):
        return None
    c = p[lm]
    if c != 1:
        return None
    r = {tuple((a, e // k) for a, e in lm): 1}
    il = tuple((a, -e * (k - 1) // k) for a, e in lm)
    for _ in range(len(p) + 2):
        d = padd(p, ppow(r, k), -1)
        if not d:
            return r
        m = lead(d)
        t = mono_mul(m, il)
        if any(e < 0 for _, e in t) or t in r:
            return None
        r[t] = qdiv(d[m], k)
    return None


def logform(q, sign_of):
    """positive polynomial q (leading coefficient 1) as  c * base^k  with a canonical
    positive base (constant term 1 when it has a positive one)"""
    k = 1
    if len(q) <= 400:
        lm = lead(q)
        if all(type(e) is int for m in q for _, e in m):
            d = 0
            for _, e in lm:
                d = gcd(d, e)
            for kk in (x for x in range(min(d, 400), 1, -1) if d % x == 0):
                r = proot(q, kk)
                if r is not None:
                    q, k = r, kk
                    if kk % 2 == 0 and manifest_sign(q) != 1 and sign_of(q) < 0:
                        q = {m: -c for m, c in q.items()}
                    break
    c0 = q.get((), 0)
    if c0 > 0 and c0 != 1:
        return norm_q(Fraction(c0) ** k), {m: qdiv(c, c0) for m, c in q.items()}, k
    return 1, q, k


def rlog(r, sign_of):
    """log of a positive rational value; sign_of(poly) decides the sign of a factor"""
    c, m, p = split_content(r.num)
    out = R0
    sg = 1 if c > 0 else -1
    c = abs(c)
    for a, e in m:
        out = radd(out, rmul(rlog_atom(a), rconst(e)))
    for q, e in [(p, 1)] + [(fpoly(k), -e) for k, e in r.den.items()]:
        if len(q) == 1:
            if q == ONE:
                continue
            (mm, cc), = q.items()
            for a, x in mm:
                out = radd(out, rmul(rlog_atom(a), rconst(x * e)))
            continue
        if sign_of(q) < 0:
            # use the positive opposite
            q = {k: -v for k, v in q.items()}
        c1, q, k1 = logform(q, sign_of)
        if c1 != 1:
            out = radd(out, rmul(rlog_const(c1), rconst(e)))
        out = radd(out, rmul(rlog_poly(q), rconst(e * k1)))
    if c != 1:
        out = radd(out, rlog_const(c))
    return out


def rexp(r):
    """exp of a value: requires polynomial form (denominator allowed as part of
    an opaque monomial)"""
    if not r.num:
        return R1
    if r.den:
        # opaque argument: one atom per monomial over the denominator
        out = R1
        for m, c in r.num.items():
            x = cancel({m: 1}, dict(r.den))
            if not x.den:
                out = rmul(out, rexp(Rat({mm: norm_q(c * k) for mm, k in x.num.items()})))
                continue
            a = W.new_atom(('expr', x.key()), name=f'exp({rstr(x)})', kind='expr', pos=True, arg=x)
            if type(c) is Fraction:
                note_root(a.aid, c.denominator)
            out = rmul(out, Rat({((a.aid, c),): 1}))
        return out
    out = R1
    for m, c in r.num.items():
        logs = [(i, a, e) for i, (a, e) in enumerate(m)
                if W.atoms[a].kind in ('loga', 'logc', 'logp')]
        if len(m) == 1 and logs and m[0][1] == 1:
            at = W.atoms[m[0][0]]
            if at.kind == 'loga':
                if type(c) is Fraction:
                    note_root(at.arg, c.denominator)
                out = rmul(out, Rat({((at.arg, c),): 1}))
            elif at.kind == 'logc':
                out = rmul(out, cpow(at.arg, c))
            else:
                out = rmul(out, polypow(at.arg, c))
            continue
        a = W.new_atom(('exp', m), name=f'exp({mstr(m)})', kind='exp', pos=True, arg=m)
        if type(c) is Fraction:
            note_root(a.aid, c.denominator)
        out = rmul(out, Rat({((a.aid, c),): 1}))
    return out


def cpow(p, c):
    """prime constant p to the rational power c"""
    n = math.floor(c)
    f = c - n
    r = rconst(norm_q(Fraction(p) ** n))
    if f:
        W.special = True
        a = W.new_atom(('cprime', p), name=f'{p}', kind='cprime', pos=True, arg=p)
        note_root(a.aid, Fraction(f).denominator)
        r = Rat(pmul(r.num, {((a.aid, f),): 1}))
    return r


def polypow(p, c):
    n = math.floor(c)
    f = c - n
    r = rpow_int(Rat(p), n)
    if f:
        W.special = True
        a = W.new_atom(('rootp', pkey(p)), name=f'({pstr(p)})', kind='rootp', pos=True, arg=p)
        note_root(a.aid, Fraction(f).denominator)
        r = Rat(pmul(r.num, {((a.aid, norm_q(f)),): 1}), r.den)
    return r


def rpow_frac(r, c, sign_of):
    """positive value to a rational power"""
    co, m, p = split_content(r.num)
    out = R1
    c = Fraction(c)
    mm = Rat({mono_pow(m, c): 1})
    out = rmul(out, mm)
    sg = 1
    for q, e in [(p, c)] + [(fpoly(k), -e * c) for k, e in r.den.items()]:
        if q == ONE or len(q) == 1:
            if q != ONE:
                (x, _), = q.items()
                out = rmul(out, Rat({mono_pow(x, e): 1}))
            continue
        if sign_of(q) < 0:
            q = {k: -v for k, v in q.items()}
        c1, q, k1 = logform(q, sign_of)
        if c1 != 1:
            c1 = Fraction(c1)
            for n, s in ((c1.numerator, 1), (c1.denominator, -1)):
                for pr, x in _factorint(n).items():
                    out = rmul(out, cpow(pr, norm_q(s * x * Fraction(e))))
        out = rmul(out, polypow(q, norm_q(Fraction(e * k1))))
    co = abs(co)
    if co != 1:
        co = Fraction(co)
        for n, s in ((co.numerator, 1), (co.denominator, -1)):
            for pr, e in _factorint(n).items():
                out = rmul(out, cpow(pr, s * e * c))
    return out


# --------------------------------------------------------------------- printing
def mstr(m):
    return '*'.join(W.atoms[a].name + (f'^{e}' if e != 1 else '') for a, e in m) or '1'


def pstr(p, lim=8):
    t = [f'{c}*{mstr(m)}' if m else str(c) for m, c in list(p.items())[:lim]]
    return ' + '.join(t) + (' + ...' if len(p) > lim else '') or '0'


def rstr(r):
    s = pstr(r.num)
    if r.den:
        s = f'({s})/(' + ')('.join(pstr(fpoly(k)) + (f'^{e}' if e > 1 else '') for k, e in r.den.items()) + ')'
    return s


# ------------------------------------------------------- numeric evaluation
def atom_value(aid, env, memo):
    if aid in memo:
        return memo[aid]
    at = W.atoms[aid]
    k = at.kind
    if k == 'base':
        v = env[aid]
    elif k == 'loga':
        v = math.log(atom_value(at.arg, env, memo))
    elif k == 'logc':
        v = math.log(at.arg)
    elif k == 'cprime':
        v = float(at.arg)
    elif k == 'logp':
        v = math.log(poly_value(at.arg, env, memo))
    elif k == 'rootp':
        v = poly_value(at.arg, env, memo)
    elif k == 'exp':
        v = math.exp(mono_value(at.arg, env, memo))
    elif k == 'expr':
        v = math.exp(rat_value(at.arg, env, memo))
    elif k == 'ufn':
        v = at.fn(*[rat_value(x, env, memo) for x in at.arg])
    else:
        raise KeyError(k)
    memo[aid] = v
    return v


def mono_value(m, env, memo):
    v = 1.0
    for a, e in m:
        v *= atom_value(a, env, memo) ** (e if type(e) is int else float(e))
    return v


def poly_value(p, env, memo):
    return math.fsum(float(c) * mono_value(m, env, memo) for m, c in p.items())


def rat_value(r, env, memo=None):
    if memo is None:
        memo = {}
    v = poly_value(r.num, env, memo)
    for k, e in r.den.items():
        v /= poly_value(fpoly(k), env, memo) ** e
    return v


# ----------------------------------------------------------- atoms in a value
def atoms_of_poly(p, acc):
    for m in p:
        for a, _ in m:
            acc.add(a)


def atoms_of(r, acc=None):
    acc = set() if acc is None else acc
    atoms_of_poly(r.num, acc)
    for k in r.den:
        atoms_of_poly(fpoly(k), acc)
    return acc


def base_closure(aids):
    """base atoms below the given atoms"""
    seen, todo, out = set(), list(aids), set()
    while todo:
        a = todo.pop()
        if a in seen:
            continue
        seen.add(a)
        at = W.atoms[a]
        if at.kind == 'base':
            out.add(a)
        elif at.kind == 'loga':
            todo.append(at.arg)
        elif at.kind in ('logp', 'rootp'):
            s = set()
            atoms_of_poly(at.arg, s)
            todo.extend(s)
        elif at.kind == 'exp':
            todo.extend(x for x, _ in at.arg)
        elif at.kind == 'expr':
            todo.extend(atoms_of(at.arg))
        elif at.kind == 'ufn':
            for x in at.arg:
                todo.extend(atoms_of(x))
    return out


def depends(r, aid):
    return aid in base_closure(atoms_of(r))


# ------------------------------------------------------------ substitution
def rsubst(r, mp, sign_of):
    """replace base atoms by values: mp = {aid: Rat}"""
    memo = {}

    def sub_atom(a):
        if a in memo:
            return memo[a]
        at = W.atoms[a]
        k = at.kind
        if k == 'base':
            v = mp.get(a)
            v = ratom(at) if v is None else v
        elif not (base_closure([a]) & set(mp)):
            v = ratom(at)
        elif k == 'loga':
            v = rlog(sub_atom(at.arg), sign_of)
        elif k == 'logp':
            v = rlog(sub_poly(at.arg), sign_of)
        elif k == 'rootp':
            v = None
        elif k == 'exp':
            v = rexp(sub_mono(at.arg))
        elif k == 'expr':
            v = rexp(rsub(at.arg))
        elif k == 'ufn':
            raise EngineUnsupported("substitution in uninterpreted function")
        else:
            v = ratom(at)
        memo[a] = v
        return v

    def sub_mono(m):
        out = R1
        for a, e in m:
            at = W.atoms[a]
            if at.kind == 'rootp' and (base_closure([a]) & set(mp)):
                out = rmul(out, rpow_frac(sub_poly(at.arg), e, sign_of))
                continue
            v = sub_atom(a)
            if type(e) is int:
                out = rmul(out, rpow_int(v, e))
            else:
                out = rmul(out, rpow_frac(v, e, sign_of))
        return out

    def sub_poly(p):
        out = R0
        for m, c in p.items():
            out = radd(out, rmul(sub_mono(m), rconst(c)))
        return out

    def rsub(x):
        v = sub_poly(x.num)
        for k, e in x.den.items():
            d = sub_poly(fpoly(k))
            if not d.num:
                raise ZeroDivisionError("float division by zero")
            v = rdiv(v, rpow_int(d, e))
        return v

    return rsub(r)


# ---------------------------------------------------------- differentiation
def rdiff(r, t):
    """d r / d t for base atom id t"""
    memo = {}

    def datom(a):
        if a in memo:
            return memo[a]
        at = W.atoms[a]
        k = at.kind
        if k == 'base':
            v = R1 if a == t else R0
        elif t not in base_closure([a]):
            v = R0
        elif k == 'loga':
            v = rdiv(datom(at.arg), ratom(W.atoms[at.arg]))
        elif k == 'logp':
            v = rdiv(dpoly(at.arg), Rat(at.arg))
        elif k == 'rootp':
            v = dpoly(at.arg)
        elif k == 'exp':
            v = rmul(dpoly({at.arg: 1}), ratom(at))
        elif k == 'expr':
            v = rmul(d(at.arg), ratom(at))
        else:
            raise EngineUnsupported(f"derivative of {at.name}")
        memo[a] = v
        return v

    def dpoly(p):
        out = R0
        for m, c in p.items():
            for i, (a, e) in enumerate(m):
                da = datom(a)
                if not da.num:
                    continue
                at = W.atoms[a]
                rest = m[:i] + m[i + 1:]
                # e * a^(e-1) * da
                term = rmul(Rat({rest: norm_q(c * e) if type(c * e) is Fraction else c * e}), da)
                if at.kind == 'rootp':
                    if type(e) is Fraction:
                        pw = rdiv(Rat({((a, e),): 1}), Rat(at.arg))
                    else:
                        pw = rpow_int(Rat(at.arg), e - 1)
                else:
                    e1 = e - 1
                    if type(e1) is Fraction and e1.denominator == 1:
                        e1 = e1.numerator
                    pw = Rat({((a, e1),): 1}) if e1 != 0 else R1
                    if e1 != 0 and not at.pos and e1 < 0:
                        raise EngineUnsupported("derivative power")
                out = radd(out, rmul(term, pw))
        return out

    def d(x):
        # (n / prod f^e)' = n'/D - n * sum e f'/f / D
        D = Rat(ONE, dict(x.den))
        out = rmul(dpoly(x.num), D)
        for k, e in x.den.items():
            f = fpoly(k)
            df = dpoly(f)
            if df.num:
                out = radd(out, rmul(rmul(x, df), Rat({(): e}, {k: 1})), -1)
        return out

    return d(r)
