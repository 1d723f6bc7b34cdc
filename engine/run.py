"""Runs the check of one property.

Every harness instance is explored in a forked worker in which the package's numerical
back ends are replaced by exact stand-ins; candidates are replayed, in another forked
process, on the unmodified code with the real back ends."""
import argparse, importlib, json, os, pickle, resource, select, signal, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
sys.dont_write_bytecode = True
NPROC = int(os.environ.get('VERIF_JOBS', '8'))


class Inst:
    def __init__(self, name, fn, budget=90, max_paths=300, bounds='', dag_limit=3000, witnesses=2):
        self.name, self.fn, self.budget, self.max_paths, self.bounds = name, fn, budget, max_paths, bounds
        self.dag_limit, self.witnesses = dag_limit, witnesses


# ------------------------------------------------------------------ workers
def worker(inst, seed, monitor):
    from . import explore, patches
    patches.install()
    funcs = set()
    mon = sys.monitoring
    tool = 3
    try:
        mon.use_tool_id(tool, 'verif')

        def start(code, off):
            if '/actuarialmath/' in code.co_filename:
                funcs.add(os.path.basename(code.co_filename)[:-3] + '.' + code.co_qualname)
            return mon.DISABLE
        mon.register_callback(tool, mon.events.PY_START, start)
        mon.set_events(tool, mon.events.PY_START)
    except ValueError:
        pass
    ex = explore.Explorer(inst.fn, seed=seed, max_paths=inst.max_paths, budget=inst.budget,
                          dag_limit=inst.dag_limit, witnesses=inst.witnesses)
    t0 = time.time()
    ex.run()
    return dict(stats=ex.stats, notes=sorted(ex.notes), cands=ex.cands, inconclusive=ex.inconclusive,
                witnesses=ex.witnesses, samples=ex.samples, ranges=ex.ranges, funcs=sorted(funcs),
                wall=time.time() - t0)


def spawn(fn, *args, mem=6 << 30):
    """run fn(*args) in a forked child; returns (pid, read fd)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            devnull = os.open(os.devnull, os.O_WRONLY)
            os.dup2(devnull, 1)
            if not os.environ.get('VERIF_DEBUG'):
                os.dup2(devnull, 2)
            try:
                res = ('ok', fn(*args))
            except BaseException as e:
                res = ('error', f'{type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}')
            with os.fdopen(w, 'wb') as f:
                pickle.dump(res, f)
        except BaseException:
            code = 3
        finally:
            os._exit(code)
    os.close(w)
    return pid, r


def run_many(jobs, limit, stop=None):
    """jobs: list of (key, fn, args, timeout) -> {key: result}"""
    jobs = list(jobs)
    running, out = {}, {}
    bufs = {}
    while jobs or running:
        while jobs and len(running) < limit:
            key, fn, args, to = jobs.pop(0)
            pid, fd = spawn(fn, *args)
            running[fd] = (key, pid, time.time() + to)
            bufs[fd] = bytearray()
        rl, _, _ = select.select(list(running), [], [], .5)
        now = time.time()
        for fd in list(running):
            key, pid, end = running[fd]
            done = False
            if fd in rl:
                b = os.read(fd, 1 << 20)
                if b:
                    bufs[fd] += b
                else:
                    done = True
                    try:
                        out[key] = pickle.loads(bytes(bufs[fd]))
                    except Exception:
                        out[key] = ('error', 'worker died')
            if not done and now > end:
                os.kill(pid, signal.SIGKILL)
                out[key] = ('error', 'worker exceeded its time limit')
                done = True
            if done:
                os.close(fd)
                try:
                    os.waitpid(pid, 0)
                except ChildProcessError:
                    pass
                del running[fd], bufs[fd]
                if stop and stop(out.get(key)):     # surveys of mutants: enough is known
                    for f2, (k2, p2, _) in running.items():
                        os.kill(p2, signal.SIGKILL)
                        os.waitpid(p2, 0)
                        os.close(f2)
                        out[k2] = ('error', 'stopped')
                    for j in jobs:
                        out[j[0]] = ('error', 'stopped')
                    return out
    return out


def concrete(fn, points):
    from . import concrete as C
    signal.alarm(0)
    res = []
    for env, ch in points:
        res.append(C.run(fn, env, ch))
    return res


# --------------------------------------------------------------- known findings
def known(prop):
    out = []
    p = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(p):
        for e in json.load(open(p))['findings']:
            if e['property'] == prop:
                out.append(e)
    return out


def matches(e, inst, what):
    return inst == e['instance'] and what.startswith(e['what'])


# ------------------------------------------------------------------------ main
def reproduced(cand, res):
    """does the concrete run show the violation?"""
    if res['status'] == 'skip':
        return None
    bad = [l for l in res['log'] if not l[3]]
    if res['status'] == 'raised':
        return f"{res['error']}"
    if bad:
        w, l, r, _ = bad[0]
        return f"{w}: got {l}, expected {r}"
    return None


def witness_fails(res):
    """a path witness shows a violation only when the deviation is far beyond numerical error"""
    if res['status'] == 'raised':
        return f"{res['error']}"
    for w, l, r, ok in res['log']:
        if not ok and (not isinstance(l, float) or not isinstance(r, float)
                       or not abs(l - r) <= 1e-3 * max(1e-3, abs(l), abs(r))):
            return f"{w}: got {l}, expected {r}"
    return None


def load(prop):
    return importlib.import_module(f'props.{prop}')


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--only')
    ap.add_argument('--replay')
    ap.add_argument('--list', action='store_true')
    ap.add_argument('-v', '--verbose', action='store_true')
    a = ap.parse_args()
    seed = int(os.environ.get('VERIF_SEED') or 1)
    prop = a.property
    t0 = time.time()
    sys.setrecursionlimit(3000)
    scratch = tempfile.mkdtemp(prefix='verif-')
    os.environ.update(MPLBACKEND='Agg', MPLCONFIGDIR=scratch, OPENBLAS_NUM_THREADS='1', OMP_NUM_THREADS='1')
    try:
        return _main(a, prop, seed, t0)
    finally:
        import shutil
        shutil.rmtree(scratch, ignore_errors=True)


def _main(a, prop, seed, t0):
    sys.path.insert(0, SRC)
    sys.path.insert(0, VERIF)
    import actuarialmath
    import importlib as il
    for m in ('interest', 'life', 'survival', 'lifetime', 'fractional', 'insurance', 'annuity', 'premiums',
              'policyvalues', 'reserves', 'recursion', 'lifetable', 'sult', 'selectlife', 'mortalitylaws',
              'constantforce', 'extrarisk', 'mthly', 'udd', 'woolhouse'):
        il.import_module('actuarialmath.' + m)
    assert actuarialmath.__file__.startswith(SRC), actuarialmath.__file__
    mod = load(prop)
    if a.replay:
        rp = json.load(open(a.replay))
        insts = {i.name: i for i in mod.instances(rp['tier'])}
        out = run_many([('r', concrete, (insts[rp['instance']].fn, [(rp['env'], rp['choices'])]), 120)], 1)['r']
        print(json.dumps(out[1], indent=1, default=str))
        r = out[1][0]
        rep = reproduced(rp, r) if out[0] == 'ok' else None
        print('REPRODUCED: ' + rep if rep else 'not reproduced')
        return 1 if rep else 0
    insts = mod.instances(a.tier)
    if a.only:
        insts = [i for i in insts if a.only in i.name]
    if a.list:
        for i in insts:
            print(i.name, '|', i.bounds)
        return 0
    assert len({i.name for i in insts}) == len(insts), 'duplicate instance names'
    byname = {i.name: i for i in insts}
    scale = float(os.environ.get('VERIF_BUDGET_SCALE', '1')) * (3 if a.tier == 'thorough' else 1)
    for i in insts:
        i.budget *= scale
    order = sorted(insts, key=lambda i: -i.budget)
    res = run_many([(i.name, worker, (i, seed, True), i.budget + 30) for i in order], NPROC,
                   (lambda r: r[0] == 'ok' and r[1]['cands']) if os.environ.get('VERIF_FAILFAST') else None)

    # replay of candidates, and validation of path witnesses, on the unmodified code
    jobs = []
    for i in insts:
        st, r = res[i.name]
        if st != 'ok':
            continue
        pts = []
        seen = {}
        for ci, c in enumerate(r['cands']):
            k = (c['kind'], c['what'])
            seen[k] = seen.get(k, 0) + 1
            if seen[k] > 3:
                continue
            for env in c['envs'][:6]:
                pts.append(('c', ci, env, c['choices']))
        for wi, w in enumerate(r['witnesses']):
            pts.append(('w', wi, w['env'], w['choices']))
        if pts:
            jobs.append((i.name, concrete, (i.fn, [(e, c) for _, _, e, c in pts]), 150))
            r['pts'] = pts
    conc = run_many(jobs, NPROC)

    viol, incon, mism = [], [], []
    validated = 0
    tot = {}
    funcs, assumptions, samples, bounds, notes = set(), set(), [], [], set()
    perinst = {}
    kf = known(prop)
    kf_hit = {}
    vac = []
    for i in insts:
        st, r = res[i.name]
        if st != 'ok':
            incon.append((i.name, 'worker: ' + r.splitlines()[0]))
            if a.verbose:
                print(i.name, r)
            continue
        for k, v in r['stats'].items():
            tot[k] = max(tot.get(k, 0), v) if k.startswith('max') else tot.get(k, 0) + v
        funcs |= set(r['funcs'])
        notes |= set(r['notes'])
        bounds.append(f"{i.name}: {i.bounds}" + (f"; symbolic reals: " + ', '.join(
            f'{n} in {v}' for n, v in list(r['ranges'].items())[:8]) + (' ...' if len(r['ranges']) > 8 else '')
            if r['ranges'] else ''))
        perinst[i.name] = dict(paths=r['stats']['paths'], obligations=r['stats']['obligations'],
                               queries=r['stats']['queries'], wall_s=round(r['wall'], 2))
        for s in r['inconclusive']:
            incon.append((i.name, s))
        if not r['stats']['obligations'] and not r['cands']:
            vac.append(i.name)
        for s in r['samples'][:1]:
            if len(samples) < 12:
                samples.append(dict(instance=i.name, **s))
        cst, cres = conc.get(i.name, ('ok', []))
        if cst != 'ok':
            incon.append((i.name, 'replay process: ' + str(cres).splitlines()[0]))
            continue
        confirmed = {}
        for (kind, idx, env, ch), cr in zip(r.get('pts', []), cres):
            if kind == 'c':
                c = r['cands'][idx]
                k = (c['kind'], c['what'])
                rep = reproduced(c, cr)
                if rep:
                    if not confirmed.get(k):
                        confirmed[k] = True
                        w0 = c['what'] if c['kind'] != 'raise' else rep
                        viol.append(dict(instance=i.name, what=c['what'], observed=rep, env=env, choices=ch,
                                         where=c['where']))
                else:
                    confirmed.setdefault(k, False)
                    if a.verbose:
                        print('  not reproduced:', k, env, ch, str(cr)[:600])
            else:
                w = r['witnesses'][idx]
                if cr['status'] == 'skip':
                    continue
                rep = witness_fails(cr)
                if rep:
                    if not any(v['instance'] == i.name for v in viol):
                        viol.append(dict(instance=i.name, what=rep.split(': got')[0], observed=rep, env=env,
                                         choices=ch, where='(path witness)'))
                    continue
                bad = None
                for (wh, l, rr), lg in zip(w['vals'], cr['log']):
                    for x, y in ((l, lg[1]), (rr, lg[2])):
                        if isinstance(x, float) and isinstance(y, float) and \
                                abs(x - y) > 1e-3 * max(1, abs(x), abs(y)):
                            bad = f'{wh}: encoding {x} code {y}'
                if bad:
                    mism.append((i.name, bad))
                else:
                    validated += 1
        for k, v in confirmed.items():
            if not v:
                incon.append((i.name, f'counterexample to "{k[1]}" does not reproduce on the code'))
    for n in vac:
        incon.append((n, 'no obligation was reached'))
    for n, b in mism:
        incon.append((n, 'encoding and code disagree at a witness: ' + b))

    # report
    real = []
    for v in viol:
        e = next((e for e in kf if matches(e, v['instance'], v['what'])), None)
        if e is not None:
            kf_hit.setdefault(id(e), e)
        else:
            real.append(v)
    for e in kf_hit.values():
        print(f"KNOWN-FINDING: property={prop} {e['text']}")
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    for n, v in enumerate(real):
        p = os.path.join(rdir, f'{prop}-{n}.json')
        json.dump(dict(property=prop, tier=a.tier, **v), open(p, 'w'), indent=1)
        if n < 5:
            print(f"VIOLATION property={prop} replay={p}")
            print(f"  {v['instance']}: {v['observed']} {v['where']}")
            print('   at ' + ', '.join(f'{k}={x:.6g}' for k, x in list(v['env'].items())[:14]))
    bad_inst = sorted({n for n, _ in incon})
    for n, w in incon[:(400 if a.verbose else 8)]:
        print(f'INCONCLUSIVE {prop} {n}: {w}')
    decided = len(insts) - len(bad_inst)
    from . import patches
    ev = dict(property=prop, tier=a.tier, seed=seed, level='model_checking',
              coverage=dict(states=tot.get('paths', 0), transitions=tot.get('decisions', 0),
                            traces_validated_against_impl=validated, samples=samples or [dict(none=True)],
                            state_meaning='feasible symbolic execution paths of the real code',
                            transition_meaning='solver-decided branch and choice points on those paths',
                            harness_instances=len(insts), instances_fully_decided=decided,
                            undecided=[dict(instance=n, why=w[:200]) for n, w in incon[:60]],
                            obligations=tot.get('obligations', 0), discharged=tot.get('discharged', 0),
                            discharged_ground=tot.get('ground', 0),
                            discharged_only_by_normal_form=tot.get('normal_form', 0),
                            discharged_within_tolerance=tot.get('within_tolerance', 0),
                            infeasible_paths_cut=tot.get('aborted', 0),
                            solver='z3 %s (nlsat)' % _z3v(), queries=tot.get('queries', 0),
                            queries_unsat=tot.get('unsat', 0), queries_sat=tot.get('sat', 0),
                            queries_unknown=tot.get('unknown', 0), identity_queries=tot.get('identity_queries', 0),
                            branches_left_open=tot.get('open_branches', 0),
                            solver_seconds=round(tot.get('solver_s', 0), 3),
                            longest_query_seconds=round(tot.get('max_query_s', 0), 3),
                            functions_encoded=sorted(funcs), bounds=bounds, per_instance=perinst,
                            outside=getattr(mod, 'OUTSIDE', ''), engine_notes=sorted(notes)[:20]),
              assumptions=patches.STUBS + list(getattr(mod, 'ASSUMPTIONS', [])),
              wall_s=round(time.time() - t0, 2), violations=len(real))
    ep = os.path.join(VERIF, 'evidence', f'{prop}.json')
    if not a.only:
        with open(ep + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(ep + '.tmp', ep)
    print(f"{prop} {a.tier}: {len(insts)} instances ({decided} fully decided), {tot.get('paths', 0)} paths, "
          f"{tot.get('obligations', 0)} obligations, {tot.get('discharged', 0)} discharged, "
          f"{tot.get('queries', 0)} queries, solver {tot.get('solver_s', 0):.1f}s, "
          f"{validated} witnesses validated, {len(real)} violations, wall {time.time() - t0:.1f}s")
    if a.verbose:
        for n, d in sorted(perinst.items(), key=lambda x: -x[1]['wall_s'])[:15]:
            print('  ', n, d)
    if real:
        return 1
    # an encoding that failed to decide most of the property is not a pass
    if bad_inst and len(bad_inst) * 3 > len(insts):
        return 2
    return 0


def _z3v():
    try:
        sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
        import importlib.metadata as md
        return md.version('z3-solver')
    except Exception:
        return '?'


if __name__ == '__main__':
    sys.exit(main())
