"""Path explorer: re-executes a harness for every feasible branch decision and
hands every obligation, over all values on that path, to the SMT solver."""
import math, os, random, signal, time, traceback
from fractions import Fraction
from . import alg
from . import sym as S
from .alg import Rat, radd, EngineUnsupported, rat_value
from .sym import Sym, Cond, SymCtx, PathAbort, NeedSplit, lift, z3


class Timeout(BaseException):
    pass


def _num(v):
    return None if isinstance(v, (str, bytes)) else lift(v)

UNKNOWN = 2 ** .5


class Explorer:
    def __init__(self, fn, seed=1, max_paths=400, budget=60.0, dag_limit=3000, witnesses=3):
        self.fn = fn
        self.seed = seed
        self.rng = random.Random(seed)
        self.max_paths = max_paths
        self.budget = budget
        self.dag_limit = dag_limit
        self.nwit = witnesses
        self.stats = dict(queries=0, solver_s=0.0, max_query_s=0.0, open_branches=0, paths=0, aborted=0,
                          decisions=0, obligations=0, discharged=0, ground=0, identity_queries=0,
                          normal_form=0, cached=0, within_tolerance=0, sat=0, unsat=0, unknown=0)
        self.notes = set()
        self.cands = []           # possible violations
        self.inconclusive = []
        self.witnesses = []
        self.seen_ids = set()
        self.proved = set()
        self.samples = []
        self.ranges = {}

    # ------------------------------------------------------------------ driver
    def run(self):
        self.t_end = time.time() + self.budget
        stack = [[]]
        try:
            signal.signal(signal.SIGALRM, self._alarm)
            signal.setitimer(signal.ITIMER_REAL, self.budget)
            while stack:
                if self.stats['paths'] + self.stats['aborted'] >= self.max_paths:
                    self.inconclusive.append(f'path limit {self.max_paths} reached')
                    break
                if len(self.cands) >= (2 if os.environ.get('VERIF_FAILFAST') else 12):
                    break
                dec = stack.pop()
                trace = self.path(dec)
                for p in range(len(trace) - 1, len(dec) - 1, -1):
                    v, n = trace[p]
                    pre = [t[0] for t in trace[:p]]
                    for alt in range(n - 1, v, -1):
                        stack.append(pre + [alt])
        except Timeout:
            self.inconclusive.append(f'time budget {self.budget:.0f}s exhausted')
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            S.CTX = None

    def _alarm(self, *a):
        raise Timeout()

    def path(self, dec):
        alg.reset_world()
        S.SHOWN.clear()
        c = SymCtx(self, dec, self.seed)
        S.CTX = c
        self.logged = []
        try:
            self.fn(c)
            if c.pending:
                raise PathAbort(c.pending)
            if alg.RAISED:
                raise alg.RAISED[-1]
            self.stats['paths'] += 1
            self.finish(c)
        except PathAbort:
            self.stats['aborted'] += 1
        except NeedSplit:
            self.inconclusive.append('integration split outside an integral')
        except EngineUnsupported as e:
            self.inconclusive.append(self._site(e))
            self.stats['paths'] += 1
            self.finish(c, partial=True)
        except RecursionError as e:
            self.raised(c, e)
        except Exception as e:
            if type(e).__name__ == 'ArgumentError' and 'Timeout' in str(e):
                raise Timeout()
            if c.pending:
                self.stats['aborted'] += 1
            elif alg.RAISED:
                self.inconclusive.append(self._site(alg.RAISED[-1]))
                self.stats['paths'] += 1
                self.finish(c, partial=True)
            else:
                self.raised(c, e)
        self.stats['decisions'] += len(c.trace)
        for n in c.base:
            a = alg.W.atoms[c.base[n]]
            self.ranges[n] = f"{'(' if a.lo_open else '['}{a.lo if a.lo is not None else '-inf'}, " \
                             f"{a.hi if a.hi is not None else 'inf'}{')' if a.hi_open else ']'}"
        return c.trace

    def _site(self, e):
        tb = traceback.extract_tb(e.__traceback__)
        fr = [f for f in tb if 'actuarialmath' in f.filename] or list(tb)
        return f"not encodable: {e} at {fr[-1].name}:{fr[-1].lineno}" if fr else f"not encodable: {e}"

    def raised(self, c, e):
        self.stats['paths'] += 1
        tb = traceback.extract_tb(e.__traceback__)
        f = [x for x in tb if '/actuarialmath/' in x.filename]
        if f and f[-1].filename != tb[-1].filename and '/engine/' in tb[-1].filename \
                and isinstance(e, (TypeError, AttributeError, KeyError, IndexError)) or not f:
            pass
        what = f'raises {type(e).__name__}: {str(e)[:120]}'
        fa = c.formulas()
        r, m = c.check(fa, model=True)
        envs = [] if r == 'unsat' else self.envs(c, [m] if m else [])
        if r == 'unsat':
            return
        self.cands.append(dict(kind='raise', what=what, choices=dict(c.choices), envs=envs[:6],
                               where=f'{f[-1].name}:{f[-1].lineno}' if f else 'harness'))

    # --------------------------------------------------------------- witnesses
    def random_env(self, c, edge=False):
        env = {}
        tame = self.rng.random() < .7      # all values from the usual ranges
        for n, aid in c.base.items():
            a = alg.W.atoms[aid]
            lo = None if a.lo is None else float(a.lo)
            hi = None if a.hi is None else float(a.hi)
            if edge and lo is not None and hi is not None and self.rng.random() < .5:
                w = (hi - lo) * 10 ** self.rng.uniform(-4.5, -1)
                v = lo + w if self.rng.random() < .5 else hi - w
            elif a.sample is not None and (tame or self.rng.random() < .8):
                slo, shi = a.sample
                v = self.rng.uniform(slo, shi)
            elif lo is not None and hi is not None:
                v = lo + (hi - lo) * self.rng.uniform(.03, .97)
            elif lo is not None:
                v = lo + math.exp(self.rng.uniform(-2.5, 1.5))
            elif hi is not None:
                v = hi - math.exp(self.rng.uniform(-2.5, 1.5))
            else:
                v = self.rng.uniform(-3, 3)
            env[n] = v
        return env

    def byid(self, c, env):
        d = {c.base[n]: v for n, v in env.items() if n in c.base}
        return d

    def satisfies(self, c, env):
        memo = {}
        e = self.byid(c, env)
        aux = [a for a in alg.W.atoms if a.kind == 'base' and a.aid not in e]
        if any(not a.name.startswith(('tau', 'dx', 'round!')) for a in aux):
            return False
        for op, d in c.pc:
            try:
                v = rat_value(d, e, memo)
            except KeyError:
                if aux:      # a condition on a number that is not an input
                    continue
                return False
            except (ValueError, ZeroDivisionError, OverflowError, EngineUnsupported):
                return False
            if op in ('lt', 'le') and not v < -1e-12 or op in ('gt', 'ge') and not v > 1e-12:
                return False
            if op == 'eq' and abs(v) > 1e-9 or op == 'ne' and abs(v) < 1e-7:
                return False
        return True

    def envs(self, c, models, n=60):
        out = []
        for m in models:
            if m is not None:
                base = self.random_env(c)
                base.update({k: v for k, v in m.items() if k in base})
                out.append(base)
        need = any(op == 'eq' for op, d in c.pc)
        if need and not out:
            fa = c.formulas()
            r, m = c.check(fa, model=True)
            if m:
                base = self.random_env(c)
                base.update({k: v for k, v in m.items() if k in base})
                out.append(base)
        for _ in range(n):
            e = self.random_env(c)
            if self.satisfies(c, e):
                out.append(e)
            if len(out) > 12:
                break
        if len(out) <= 1 and c.pc:      # near the ends of the ranges
            for _ in range(n):
                e = self.random_env(c, edge=True)
                if self.satisfies(c, e):
                    out.append(e)
                if len(out) > 6:
                    break
        if len(out) <= 1 and c.pc:
            out += self.local_envs(c, out)
        return out

    def local_envs(self, c, start):
        """interior points of a narrow path: perturb a model"""
        if not start:
            fa = c.formulas()
            r, m = c.check(fa, model=True)
            if not m:
                return []
            b = self.random_env(c)
            b.update({k: v for k, v in m.items() if k in b})
            start = [b]
        out = []
        cur = start[0]
        names = list(cur)
        for _ in range(200):
            e = dict(cur)
            for k in self.rng.sample(names, min(len(names), self.rng.randint(1, 3))) if names else []:
                r = self.random_env(c)[k]
                w = self.rng.random()
                e[k] = e[k] * (1 - w) + r * w
            if self.satisfies(c, e):
                out.append(e)
                cur = e
            if len(out) > 6:
                break
        return out

    def finish(self, c, partial=False):
        """choose a witness of the completed path (vacuity + validation)"""
        if len(self.witnesses) >= self.nwit * 4:
            return
        env = None
        for _ in range(25):
            e = self.random_env(c)
            if self.satisfies(c, e):
                env = e
                break
        if env is None:
            l = self.local_envs(c, [])
            if l:
                env = l[-1]
        if env is None:
            self.notes.add('a completed path has no numeric witness')
            return
        vals = []
        memo = {}
        e = self.byid(c, env)
        for kind, l, r, what in self.logged:
            try:
                vals.append((what, self._val(l, e, memo), self._val(r, e, memo)))
            except (KeyError, ValueError, ZeroDivisionError, OverflowError):
                vals.append((what, None, None))
        self.witnesses.append(dict(choices=dict(c.choices), env=env, vals=vals, partial=partial))
        if len(self.samples) < 3:
            self.samples.append(dict(path_conditions=[f'{alg.rstr(d)[:160]} {op} 0' for op, d in c.pc[:6]],
                                     witness={k: round(v, 6) for k, v in list(env.items())[:12]},
                                     obligations=[w for w, _, _ in vals[:6]]))

    def _val(self, x, e, memo):
        if isinstance(x, Sym):
            return rat_value(x.r, e, memo)
        if isinstance(x, (int, float, Fraction)):
            return float(x)
        return None

    # ------------------------------------------------------------- obligations
    def obligation(self, c, kind, lhs, rhs, what, rtol, atol):
        if c.pending:
            raise PathAbort(c.pending)
        if alg.RAISED:
            raise alg.RAISED[-1]
        st = self.stats
        st['obligations'] += 1
        if kind == 'true':
            self.logged.append((kind, None, None, what))
            if lhs == rhs:
                st['discharged'] += 1
                st['ground'] += 1
            else:
                self.candidate(c, kind, what, None)
            return
        if isinstance(lhs, Cond):
            lhs = int(bool(lhs))
        if isinstance(rhs, Cond):
            rhs = int(bool(rhs))
        self.logged.append((kind, lhs, rhs, what))
        try:
            l, r = _num(lhs), _num(rhs)
        except EngineUnsupported:
            alg.RAISED.clear()
            l = r = None
        if l is None or r is None:
            # not finite numbers: plain comparison
            try:
                ok = (lhs == rhs) if kind == 'eq' else (lhs <= rhs if kind == 'le' else lhs < rhs)
                ok = bool(ok)
            except Exception:
                ok = False
            if ok:
                st['discharged'] += 1
                st['ground'] += 1
            else:
                self.candidate(c, kind, what, None)
            return
        d = radd(l.r, r.r, -1)
        if d.is_const():
            x = float(d.const())
            if l.r.is_const():
                m = max(abs(float(l.r.const())), abs(float(r.r.const())))
            else:
                m = 1.0
            tol = atol + rtol * m
            if kind == 'eq' and not d.num:
                if l.r.is_const():
                    st['ground'] += 1
                    st['discharged'] += 1
                    return
                return self.identity(c, l, r, what)
            ok = abs(x) <= tol if kind == 'eq' else x <= tol if kind == 'le' else x < 0
            if ok:
                st['ground'] += 1
                st['discharged'] += 1
            else:
                self.candidate(c, kind, what, None)
            return
        key = (kind, d.key(), len(c.pc))
        if key in c.pckeys:
            st['discharged'] += 1
            st['cached'] += 1
            return
        if kind in ('le', 'lt'):
            # violated when l > r (le) / l >= r (lt)
            s = alg.manifest_sign(d.num)
            neg = 'gt' if kind == 'le' else 'ge'
        else:
            neg = 'ne'
        if kind == 'eq' and self.rounding(c, d, atol):
            c.pckeys[key] = True
            st['discharged'] += 1
            st['within_tolerance'] += 1
            return
        fs, aids = c.formulas()
        alg.atoms_of(d, aids)
        f = c.cond_formula(neg, d)
        trans = any(alg.W.atoms[a].kind in ('exp', 'loga', 'logp', 'expr', 'ufn') for a in aids)
        res, m = c.check((fs + [f], aids), model=True)
        if res == 'unsat':
            c.pckeys[key] = True
            st['discharged'] += 1
            return
        if trans:
            r2, m2 = c.check((fs + [f], aids), axioms=True, model=True, timeout=6000)
            if r2 == 'unsat':
                c.pckeys[key] = True
                st['discharged'] += 1
                return
            res, m = r2, m2 or m
        # candidate: look for a significant difference at a point of the path
        def sig(env):
            try:
                e = self.byid(c, env)
                memo = {}
                a, b = rat_value(l.r, e, memo), rat_value(r.r, e, memo)
            except (KeyError, OverflowError):        # a number that is not an input (a rounding error, an integral): the replay tells
                return UNKNOWN
            except (ValueError, ZeroDivisionError):
                return 0
            t = 20 * (atol + rtol * max(abs(a), abs(b)))
            x = abs(a - b) if kind == 'eq' else a - b
            return x / t if t else x
        es = self.envs(c, [m] if m else [])
        sc = sorted(((sig(e), i) for i, e in enumerate(es)), reverse=True)
        good = [es[i] for x, i in sc if x > 1 and x != UNKNOWN]
        if good:
            # the solver's own model first when it is significant
            self.candidate(c, kind, what, good[:6])
            return
        # margin query: is a violation beyond the tolerance possible at all?
        mres, mm = self.margin(c, kind, l, r, d, fs, aids, rtol, atol, trans)
        if mres == 'unsat':
            st['discharged'] += 1
            st['within_tolerance'] += 1
            return
        if mm:
            es = self.envs(c, [mm])
            good = [e for e in es if sig(e) > .3]
            if good:
                self.candidate(c, kind, what, good[:6])
                return
        es = [e for e in (self.random_env(c, edge=True) for _ in range(80)) if self.satisfies(c, e)][:25]
        good = [e for e in es if sig(e) > 1] or [es[i] for x, i in sc if x == UNKNOWN]     # near the ends of the ranges
        if good:
            self.candidate(c, kind, what, good[:6])
            return
        self.inconclusive.append(f'{what}: solver {res}/{mres}, no significant counterexample')

    def rounding(self, c, d, atol):
        """a difference made of rounding errors only: the solver refutes a violation beyond the
        tolerance over the box of its monomials (a linear relaxation, hence sound)"""
        if len(d.num) > 2000:
            return False
        t = Fraction(max(atol, 1e-9) * 10).limit_denominator(10 ** 9)
        box, total = [], 0.
        for f, e in d.den.items():              # denominators bounded away from zero
            lo = hi = 0.
            for mono, k in alg.fpoly(f).items():
                a = b = float(k)
                for x, j in mono:
                    at = alg.W.atoms[x]
                    if at.kind != 'base' or not at.pos or at.hi is None or at.lo is None or at.hi <= 0 or j < 0:
                        return False
                    u, v = float(at.lo) ** float(j), float(at.hi) ** float(j)
                    a, b = (a * u, b * v) if k > 0 else (a * v, b * u)
                lo, hi = lo + a, hi + b
            w = max(lo, -hi) * .999999
            if w <= 1e-9:
                return False
            t = t * Fraction(w) ** int(e)
        for mono, k in d.num.items():
            m = 1.
            for a, e in mono:
                at = alg.W.atoms[a]
                if at.kind == 'base' and not at.pos and e > 0 and at.lo is not None and at.hi is not None:
                    x = max(abs(at.lo), abs(at.hi))      # a rounding error, of either sign
                else:
                    x = at.hi if e > 0 else at.lo
                    if at.kind != 'base' or not at.pos or x is None or x <= 0:
                        return False
                m *= float(x) ** float(e)
            box.append((k, m * 1.000001))
            total += abs(float(k)) * m
        if total > t:
            return False
        t0 = time.time()
        z = c.z
        s = z3.Tactic('qflra', z.ctx).solver()
        tot = z.qv(0)
        for j, (k, m) in enumerate(box):
            y = z3.Real(f'mono!{j}', z.ctx)
            s.add(y <= z.qv(Fraction(m)), y >= z.qv(-Fraction(m)))
            tot = tot + z.qv(Fraction(k)) * y
        s.add(z3.Or(tot > z.qv(t), tot < z.qv(-t)))
        s.set('timeout', 4000)
        r = str(s.check())
        st = self.stats
        st['queries'] += 1
        st['solver_s'] += time.time() - t0
        st[r] = st.get(r, 0) + 1
        return r == 'unsat'

    def margin(self, c, kind, l, r, d, fs, aids, rtol, atol, trans):
        t = Fraction(max(atol, 1e-9) * 10).limit_denominator(10 ** 9)

        def extra(z):
            N, D = z.numden(d)
            den = z.times(z.qv(1), D)
            T = z3.Real('mg!', z.ctx)
            ex = [T * den == N]
            if kind == 'eq':
                ex.append(z3.Or(T > z.qv(t), T < z.qv(-t)))
            else:
                ex.append(T > z.qv(t))
            # keep away from numerically useless corners
            for a in aids:
                at = alg.W.atoms[a]
                if at.kind == 'base' and at.hi is not None and at.lo is not None and z.D(a) == 1:
                    x = z.var(a)
                    w = (Fraction(at.hi) - Fraction(at.lo)) / 1000
                    ex += [x > z.qv(Fraction(at.lo) + w), x < z.qv(Fraction(at.hi) - w)]
            return ex
        return c.check((fs, aids), model=True, axioms=trans, extra=extra, rats=[d])

    def identity(self, c, l, r, what):
        """the normaliser says l == r identically: let the solver confirm it on the
        un-normalised computation"""
        st = self.stats
        key = ('id', l.r.key() if len(l.r.num) < 200 else id(l), what)
        n = self._dagsize(l) + self._dagsize(r)
        if n <= self.dag_limit:
            try:
                z = c.z
                z.prepare([l.r, r.r], full=True)
                if any(a.rootden > 40 for a in alg.W.atoms):
                    raise EngineUnsupported("root degree")
                N1, D1 = z.dag(l)
                N2, D2 = z.dag(r)
                L = z.lcm(D1, D2)
                f = z.times(N1, z.dsub(L, D1)) != z.times(N2, z.dsub(L, D2))
                aids = set(alg.atoms_of(l.r)) | set(alg.atoms_of(r.r))
                t0 = time.time()
                s = z3.Tactic('qfnra-nlsat', z.ctx).solver()
                s.set('timeout', 1500)
                s.add(f)
                todo = list(aids) + [a.aid for a in alg.W.atoms if a.kind in ('rootp', 'cprime')]
                done = set()
                while todo:
                    a = todo.pop()
                    if a in done:
                        continue
                    done.add(a)
                    at = alg.W.atoms[a]
                    if at.pos:
                        s.add(z.var(a) > 0)
                    if at.kind == 'cprime':
                        s.add(z.vpow(a, int(z.D(a))) == z.qv(at.arg))
                    elif at.kind == 'rootp':
                        s.add(z.rootdef(a))
                        todo += list(alg.atoms_of(Rat(at.arg)))
                q = str(s.check())
                dt = time.time() - t0
                st['queries'] += 1
                st['identity_queries'] += 1
                st['solver_s'] += dt
                st['max_query_s'] = max(st['max_query_s'], dt)
                st[q] = st.get(q, 0) + 1
                if q == 'unsat':
                    st['discharged'] += 1
                    return
                if q == 'sat' and not any(alg.W.atoms[a].kind in ('rootp', 'cprime') for a in aids):
                    self.notes.add(f'normaliser and solver disagree: {what}')
                    self.inconclusive.append(f'{what}: normaliser and solver disagree')
                    return
            except EngineUnsupported:
                alg.RAISED.clear()
        st['normal_form'] += 1
        st['discharged'] += 1

    def _dagsize(self, s):
        seen, todo, n = set(), [s], 0
        while todo and n <= self.dag_limit:
            x = todo.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            n += 1
            if x.e is not None and not x.r.is_const():
                op, a, b = x.e
                todo.append(a)
                if op in ('add', 'sub', 'mul'):
                    todo.append(b)
        return n

    def candidate(self, c, kind, what, envs):
        if envs is None:
            fa = c.formulas()
            r, m = c.check(fa, model=True)
            if r == 'unsat':
                self.stats['discharged'] += 1
                return
            envs = self.envs(c, [m] if m else [])[:6] or [self.random_env(c)]
        self.cands.append(dict(kind=kind, what=what, choices=dict(c.choices), envs=envs, where=''))
