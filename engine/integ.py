"""Exact integration / differentiation used in place of the numerical routines
while code is executed symbolically."""
import math
from fractions import Fraction
from . import alg
from .alg import (Rat, R0, R1, rconst, radd, rmul, rdiv, rneg, rexp, ratom, EngineUnsupported,
                  rpow_int, fpoly, norm_q)
from . import sym as S
from .sym import Sym, lift, NeedSplit


def integrate(fun, a, b):
    c = S.CTX
    a, b = lift(a), lift(b)
    d = Sym(radd(b.r, a.r, -1))
    if not d.r.num:
        return lift(0)
    if not d.r.is_const():
        if bool(d == 0):
            return lift(0)
        if bool(d < 0):
            return -integrate(fun, b, a)
    elif d.r.const() < 0:
        return -integrate(fun, b, a)
    return Sym(_piece(fun, a.r, b.r, 0))


_n = [0]


def _piece(fun, a, b, depth):
    c = S.CTX
    if depth > 400:
        raise EngineUnsupported("too many break points in an integrand")
    t = alg.W.new_atom(None, name=f'tau{len(alg.W.atoms)}', kind='base', pos=False)
    # positive if the lower limit is >= 0 (allows t**k, t**(1/2), ...)
    if (a.is_const() and a.const() >= 0) or alg.manifest_sign(a.num) == 1 and not a.den:
        t.pos, t.lo = True, 0
    c.tau.append((t.aid, a, b))
    saved = dict(c.pckeys)
    try:
        try:
            val = fun(Sym(ratom(t)))
        finally:
            c.tau.pop()
            # facts about this integration variable are dropped
            for k in list(c.pckeys):
                if k not in saved:
                    del c.pckeys[k]
            c.pckeys.update(saved)
    except NeedSplit as ns:
        th = ns.theta
        if alg.depends(th, t.aid):
            raise EngineUnsupported("break point depends on the variable")
        th = Sym(th)
        if bool(th <= Sym(a)):
            raise EngineUnsupported("degenerate break point")
        if bool(th >= Sym(b)):
            raise EngineUnsupported("degenerate break point")
        # split at all integers at once when limits and break point are integers
        A, B = a, b
        if a.is_const() and b.is_const() and th.r.is_const() and Fraction(th.r.const()).denominator == 1:
            ks = range(math.floor(a.const()) + 1, math.ceil(b.const()))
            pts = [a] + [rconst(k) for k in ks] + [b]
        else:
            pts = [a, th.r, b]
        out = R0
        for lo, hi in zip(pts, pts[1:]):
            out = radd(out, _piece(fun, lo, hi, depth + 1))
        return out
    if isinstance(val, S.Cond):
        val = int(bool(val))
    val = lift(val)
    if val is None:
        raise EngineUnsupported("integrand is not a number")
    return definite(val.r, t.aid, a, b)


def at(F, t, x):
    return alg.rsubst(F, {t: x}, S.CTX.factor_sign)


def definite(r, t, a, b):
    """int_a^b r dt for rational functions times exponentials"""
    if not r.num:
        return R0
    if not alg.depends(r, t):
        return rmul(r, radd(b, a, -1))
    # split the denominator in t-free and t-dependent factors
    dfree, ddep = {}, {}
    for k, e in r.den.items():
        s = set()
        alg.atoms_of_poly(fpoly(k), s)
        (ddep if t in alg.base_closure(s) else dfree)[k] = e
    try:
        if ddep:
            return rmul(_rational(r.num, ddep, t, a, b), Rat({(): 1}, dfree))
        out = R0
        for m, c in r.num.items():
            out = radd(out, _term(m, c, t, a, b))
        return rmul(out, Rat({(): 1}, dfree))
    except EngineUnsupported as e:
        if alg.RAISED and alg.RAISED[-1] is e:
            alg.RAISED.pop()
    out = R0
    for m, c in r.num.items():
        out = radd(out, _opaque(m, c, ddep, t, a, b))
    return rmul(out, Rat({(): 1}, dfree))


def _opaque(m, c, ddep, t, a, b):
    """An integral without a closed form: an unknown number determined by its integrand, taken
    from 0, and its length. Equal integrands over equal ranges are equal; nothing else is known but the sign."""
    free = tuple((x, e) for x, e in m if t not in alg.base_closure([x]))
    dep = tuple((x, e) for x, e in m if t in alg.base_closure([x]))
    g = Rat({dep: 1}, ddep)
    tau = alg.W.new_atom(('canonical integration variable',), name='tau_', kind='base', pos=True, lo=0)
    if t == tau.aid:
        raise EngineUnsupported("nested integral")
    g = rsubst_(g, t, radd(a, ratom(tau)))
    scale = R1
    if len(g.num) == 1 and not g.den:      # factors that no longer depend on the variable
        (mm, cc), = g.num.items()
        fr = tuple((x, e) for x, e in mm if tau.aid not in alg.base_closure([x]))
        mm = tuple((x, e) for x, e in mm if tau.aid in alg.base_closure([x]))
        scale, g = Rat({fr: cc}), Rat({mm: 1})
    up = radd(b, a, -1)
    bases = sorted((alg.base_closure(alg.atoms_of(g)) | alg.base_closure(alg.atoms_of(up))) - {tau.aid})
    if any(x in alg.base_closure([tau.aid]) or alg.W.atoms[x].name.startswith('tau') for x in bases):
        raise EngineUnsupported("integral inside an integral")
    at = alg.W.new_atom(('int', g.key(), up.key()), name=f'Int{len(alg.W.atoms)}', kind='ufn',
                        pos=not g.den and alg.manifest_sign(g.num) == 1)
    if at.arg is None:
        at.arg = [up] + [ratom(alg.W.atoms[x]) for x in bases]

        def value(upper, *vals):
            env = dict(zip(bases, vals))
            return QUAD(lambda y: alg.rat_value(g, {**env, tau.aid: y}), 0, upper)[0]
        at.fn = value
    return rmul(rmul(Rat({free: c}), scale), ratom(at))


def rsubst_(r, t, x):
    return alg.rsubst(r, {t: x}, S.CTX.factor_sign)


import scipy.integrate          # noqa: E402
QUAD = scipy.integrate.quad


def _term(m, c, t, a, b):
    """monomial: (t-free) * t^k * exp(lambda t) * (linear)^rho"""
    free, k, lam, powers = [], 0, {}, []
    for aid, e in m:
        atm = alg.W.atoms[aid]
        if aid == t:
            k = e
        elif t not in alg.base_closure([aid]):
            free.append((aid, e))
        elif atm.kind == 'exp':
            arg = dict(atm.arg)
            if arg.get(t) == 1:
                rest = tuple((x, y) for x, y in atm.arg if x != t)
                if t in alg.base_closure([x for x, _ in rest]):
                    raise EngineUnsupported("integrand exponent")
                lam = alg.padd(lam, {rest: e})
            else:
                # exp(e * rest * log(P(t))) = P^(e*rest)
                lg = [(x, y) for x, y in atm.arg if t in alg.base_closure([x])]
                if len(lg) == 1 and lg[0][1] == 1 and alg.W.atoms[lg[0][0]].kind == 'logp':
                    rest = tuple((x, y) for x, y in atm.arg if x != lg[0][0])
                    powers.append((alg.W.atoms[lg[0][0]].arg, Rat({rest: e})))
                else:
                    raise EngineUnsupported("integrand exponent")
        elif atm.kind == 'rootp':
            powers.append((atm.arg, rconst(e)))
        else:
            raise EngineUnsupported(f"cannot integrate {atm.name}")
    fr = Rat({tuple(free): c})
    if powers:
        if lam or len({alg.pkey(p) for p, _ in powers}) != 1:
            raise EngineUnsupported("integrand power")
        P = powers[0][0]
        rho = R0
        for _, x in powers:
            rho = radd(rho, x)
        return rmul(fr, _linpow(P, rho, k, t, a, b))
    if not lam:
        if k == 0:
            return rmul(fr, radd(b, a, -1))
        if isinstance(k, int) and k > 0 or isinstance(k, Fraction):
            k1 = k + 1
            if isinstance(k1, Fraction) and k1.denominator == 1:
                k1 = k1.numerator
            if k1 == 0:
                raise EngineUnsupported("1/t integrand")
            F = lambda x: (rpow_int(x, k1) if isinstance(k1, int) else
                           alg.rpow_frac(x, k1, S.CTX.factor_sign) if x.num else R0)
            return rmul(fr, rmul(radd(F(b), F(a), -1), rconst(Fraction(1) / k1)))
        if k == -1:
            sg = S.CTX.factor_sign
            return rmul(fr, radd(alg.rlog(b, sg), alg.rlog(a, sg), -1))
        k1 = k + 1
        return rmul(fr, rmul(radd(rpow_int(b, k1), rpow_int(a, k1), -1), rconst(Fraction(1, k1))))
    L = Rat(lam)
    if alg.manifest_sign(lam) not in (1, -1):
        if bool(Sym(L) == 0):
            return _term(tuple(sorted(free + ([(t, k)] if k else []))), c, t, a, b)
    if not isinstance(k, int) or k < 0:
        raise EngineUnsupported("integrand power times exponential")

    def F(x):
        ex = rexp(rmul(L, x))
        tot = R0
        for j in range(k + 1):
            co = (-1) ** j * math.factorial(k) // math.factorial(k - j)
            p = rpow_int(x, k - j) if k - j else R1
            tot = radd(tot, rmul(rmul(rconst(co), p), alg.rpow_int(alg.rinv(L), j + 1)))
        return rmul(ex, tot)
    return rmul(fr, radd(F(b), F(a), -1))


def _lin(P, t):
    c0, c1 = {}, {}
    for m, c in P.items():
        e = dict(m).get(t, 0)
        rest = tuple(x for x in m if x[0] != t)
        if e == 0:
            c0[rest] = c
        elif e == 1:
            c1[rest] = c
        else:
            raise EngineUnsupported("non-linear factor in an integrand")
        if t in alg.base_closure([x for x, _ in rest]):
            raise EngineUnsupported("factor in an integrand")
    return Rat(c0), Rat(c1)


def _linpow(P, rho, k, t, a, b):
    """int t^k (c1 t + c0)^rho dt via u = c1 t + c0"""
    c0, c1 = _lin(P, t)
    if not isinstance(k, int) or k < 0:
        raise EngineUnsupported("integrand power")
    out = R0
    for j in range(k + 1):
        # t^k = ((u - c0)/c1)^k ; coefficient of u^j
        co = rmul(rconst(math.comb(k, j)), rmul(rpow_int(rneg(c0), k - j), rpow_int(alg.rinv(c1), k + 1)))
        e = radd(rho, rconst(j + 1))
        def G(x):
            u = radd(rmul(c1, x), c0)
            if not u.num:
                return R0
            ue = S.sym_pow(Sym(u), Sym(e)).r
            return rdiv(ue, e)
        out = radd(out, rmul(co, radd(G(b), G(a), -1)))
    return out


def _rational(num, ddep, t, a, b):
    """polynomial in t over a power of one linear factor"""
    if len(ddep) != 1:
        raise EngineUnsupported("integrand with several denominators")
    (fk, e), = ddep.items()
    P = fpoly(fk)
    c0, c1 = _lin(P, t)
    # group the numerator by powers of t
    coef = {}
    for m, c in num.items():
        k = dict(m).get(t, 0)
        rest = tuple(x for x in m if x[0] != t)
        if t in alg.base_closure([x for x, _ in rest]) or not isinstance(k, int) or k < 0:
            # (linear)^rho atoms over the same linear factor
            return _ratpow(num, P, e, t, a, b)
        coef.setdefault(k, {})[rest] = c
    out = R0
    for k, cf in coef.items():
        for j in range(k + 1):
            co = rmul(rconst(math.comb(k, j)), rmul(rpow_int(rneg(c0), k - j), rpow_int(alg.rinv(c1), k + 1)))
            n = j - e

            def G(x):
                u = radd(rmul(c1, x), c0)
                if n == -1:
                    v = u
                    if not (alg.manifest_sign(v.num) == 1 and not v.den):
                        if bool(Sym(v) < 0):
                            v = rneg(v)
                    return alg.rlog(v, S.CTX.factor_sign)
                return rmul(rpow_int(u, n + 1), rconst(Fraction(1, n + 1)))
            out = radd(out, rmul(rmul(co, Rat(cf)), radd(G(b), G(a), -1)))
    return out


def _ratpow(num, P, e, t, a, b):
    out = R0
    for m, c in num.items():
        free, k, rho, found = [], 0, rconst(-e), False
        for aid, x in m:
            atm = alg.W.atoms[aid]
            if aid == t:
                k = x
            elif t not in alg.base_closure([aid]):
                free.append((aid, x))
            elif atm.kind == 'rootp' and alg.pkey(atm.arg) == alg.pkey(P):
                rho = radd(rho, rconst(x))
            elif atm.kind == 'exp':
                lg = [(y, z) for y, z in atm.arg if t in alg.base_closure([y])]
                la = alg.W.atoms[lg[0][0]]
                neg = {mm: -cc for mm, cc in P.items()}
                if len(lg) == 1 and lg[0][1] == 1 and la.kind == 'logp' and \
                        alg.pkey(la.arg) in (alg.pkey(P), alg.pkey(neg)):
                    if alg.pkey(la.arg) != alg.pkey(P):
                        # (P)^(-e) = (-1)^e (-P)^(-e)
                        found = True
                    rest = tuple((y, z) for y, z in atm.arg if y != lg[0][0])
                    rho = radd(rho, Rat({rest: x}))
                else:
                    raise EngineUnsupported("integrand")
            else:
                raise EngineUnsupported("integrand")
        PP = {mm: -cc for mm, cc in P.items()} if found else P
        sg = (-1) ** e if found else 1
        fr = Rat({tuple(free): c * sg})
        out = radd(out, rmul(fr, _linpow(PP, rho, k, t, a, b)))
    return out


class _DF:
    def __init__(self, df):
        self.df = df
        self.success = True


def derivative(f, x, **kw):
    c = S.CTX
    x = lift(x)
    t = alg.W.new_atom(None, name=f'dx{len(alg.W.atoms)}', kind='base', pos=False)
    if alg.manifest_sign(x.r.num) in (0, 1) and not x.r.den:
        t.pos, t.lo = True, 0
    c.dual[t.aid] = x.r
    try:
        val = lift(f(Sym(ratom(t))))
        d = alg.rdiff(val.r, t.aid)
        d = alg.rsubst(d, {t.aid: x.r}, c.factor_sign)
    finally:
        del c.dual[t.aid]
    return _DF(Sym(d))
