"""Mutation survey (development aid, registered in no check).

python3 tools/mutate.py OUT.jsonl [-n COUNT] [-j WORKERS] [--seed S] [--files a.py,b.py] [--funcs f,g]

Draws small semantic changes of /repo/src (operators, comparisons, constants, keyword arguments, negated conditions, dropped
statements), keeps those with which the stable tests still pass, runs the checks whose evidence says that they encoded the
mutated function, and writes which check caught each one. Everything happens in scratch copies under /tmp/mut.
"""
import ast, argparse, copy, glob, json, os, random, re, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
import queue

SRC = 'src/actuarialmath/'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIPF = re.compile(r'^(_.*plots?|plot|_Z_curve|_Z_from_curve|PPrint|_tex.*|blog.*|frame|.*_frame|_db_print|display|init|_print.*|__repr__|__str__)$')
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.Mult, ast.Pow: ast.Mult}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}

def functions(path):
    tree = ast.parse(open(path).read())
    for n in ast.walk(tree):
        if isinstance(n, ast.ClassDef) and n.name not in ('PPrint', '_Blog'):
            for k in n.body:
                if isinstance(k, ast.FunctionDef) and not SKIPF.match(k.name): yield n.name, k

def mutants(path):
    text = open(path).read(); lines = text.splitlines(True)
    offs = [0]
    for l in lines: offs.append(offs[-1] + len(l.encode()))
    raw = text.encode()
    pos = lambda ln, col: offs[ln-1] + col
    def repl(node, new):
        return (raw[:pos(node.lineno, node.col_offset)] + new.encode() + raw[pos(node.end_lineno, node.end_col_offset):]).decode()
    for cls, fn in functions(path):
        doc = ast.get_docstring(fn) is not None
        body = fn.body[1:] if doc else fn.body
        def walk(n):   # not what is only shown
            if isinstance(n, ast.Call) and ast.unparse(n.func).startswith(('self.blog', 'self.pprint', 'print')): return
            yield n
            for k in ast.iter_child_nodes(n): yield from walk(k)
        for st in body:
            for node in walk(st):
                def out(kind, new):
                    src = new if isinstance(new, str) else ast.unparse(ast.fix_missing_locations(new))
                    if not isinstance(new, str) and isinstance(node, ast.expr): src = '(' + src + ')'
                    return dict(cls=cls, func=fn.name, line=node.lineno, kind=kind, old=ast.unparse(node)[:120], new=src[:120], text=repl(node, src))
                if isinstance(node, ast.BinOp) and type(node.op) in BIN and not isinstance(node.left, ast.JoinedStr) and not (isinstance(node.left, ast.Constant) and isinstance(node.left.value, str)):
                    m = copy.deepcopy(node); m.op = BIN[type(node.op)](); yield out('binop', m)
                    if isinstance(node.op, (ast.Add, ast.Sub)):
                        yield out('drop-right', copy.deepcopy(node.left))
                elif isinstance(node, ast.Compare) and len(node.ops) == 1:
                    if type(node.ops[0]) in CMP:
                        m = copy.deepcopy(node); m.ops = [CMP[type(node.ops[0])]()]; yield out('compare', m)
                    if isinstance(node.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):
                        yield out('negate', ast.UnaryOp(op=ast.Not(), operand=copy.deepcopy(node)))
                elif isinstance(node, ast.BoolOp):
                    m = copy.deepcopy(node); m.op = ast.Or() if isinstance(node.op, ast.And) else ast.And(); yield out('boolop', m)
                    for i in range(len(node.values)):
                        if len(node.values) == 2: yield out('drop-bool', copy.deepcopy(node.values[1-i]))
                elif isinstance(node, ast.Constant) and type(node.value) in (int, float):
                    yield out('const+1', repr(node.value + 1))
                    if node.value not in (0,): yield out('const-1', '(' + repr(node.value - 1) + ')')
                elif isinstance(node, ast.Constant) and type(node.value) is bool:
                    yield out('bool', repr(not node.value))
                elif isinstance(node, ast.IfExp):
                    m = copy.deepcopy(node); m.body, m.orelse = m.orelse, m.body; yield out('ifexp', m)
                elif isinstance(node, ast.Call):
                    fname = ast.unparse(node.func)
                    if 'print' in fname or 'plot' in fname or fname.startswith('ax.'): continue
                    for i, k in enumerate(node.keywords):
                        if k.arg and k.arg not in ('depth', 'title', 'ax', 'color', 'label'):
                            m = copy.deepcopy(node); del m.keywords[i]; yield out('drop-kw:' + k.arg, m)
                    if fname in ('min', 'max') and len(node.args) == 2:
                        m = copy.deepcopy(node); m.func = ast.Name('max' if fname == 'min' else 'min'); yield out('minmax', m)
                        yield out('minmax-arg', copy.deepcopy(node.args[0])); yield out('minmax-arg', copy.deepcopy(node.args[1]))
                    if len(node.args) == 2 and fname not in ('isinstance', 'min', 'max'):
                        m = copy.deepcopy(node); m.args = m.args[::-1]; yield out('swap-args', m)
                elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
                    yield out('drop-unary', copy.deepcopy(node.operand))
                elif isinstance(node, ast.AugAssign) and type(node.op) in BIN:
                    m = copy.deepcopy(node); m.op = BIN[type(node.op)](); yield out('augop', ast.unparse(m))
                elif isinstance(node, ast.If):
                    m = copy.deepcopy(node.test)
                    src = repl(node.test, 'False and (' + ast.unparse(m) + ')'); yield dict(cls=cls, func=fn.name, line=node.lineno, kind='if-false', old=ast.unparse(node.test)[:120], new='False', text=src)

# the checks nearest to each file: tried first
HOME = dict(interest='P01 P02 P03 P04', life='P05 P06', survival='P07 P11', lifetime='P08', fractional='P09', lifetable='P10 P11', selectlife='P12',
            insurance='P13 P14 P17', annuity='P15 P16 P17', premiums='P18 P19', policyvalues='P20 P21 P22', reserves='P23 P24 P25', recursion='P26',
            mortalitylaws='P27', constantforce='P28', extrarisk='P29', mthly='P30', udd='P31', woolhouse='P32', sult='P33', actuarial='P07 P13 P17')

def sh(cmd, cwd=None, env=None, timeout=1200):
    e = dict(os.environ); e.update(env or {})
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return r.returncode, r.stdout + r.stderr
    except subprocess.TimeoutExpired as x:
        return 124, str(x)

def tests(root):
    os.makedirs(root + '/vp', exist_ok=True)
    for f in ('test.sh', 'run_scripts.py', 'results.py'):
        s = open('/opt/vp/' + f).read()
        for g in ('run_scripts.py', 'results.py'): s = s.replace('/opt/vp/' + g, root + '/vp/' + g)
        s = s.replace('/opt/vp/reports', root + '/reports').replace('/repo', root + '/repo')
        open(root + '/vp/' + f, 'w').write(s)
    if os.path.exists(root + '/out.json'): os.remove(root + '/out.json')
    sh(f'bash {root}/vp/test.sh {root}/out.json', timeout=120)
    if not os.path.exists(root + '/out.json'): return ['no result']
    b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open(root + '/out.json'))
    def names(x):
        if isinstance(x, dict):
            for k in ('passed', 'stable', 'tests'):
                if k in x: return x[k]
        return x
    f = lambda bn: set(bn if isinstance(bn, list) else [k for k, v in bn.items() if v in ('passed', True, 'pass')])
    return sorted(f(names(b)) - f(names(o)))

def encoded():
    """function -> properties, cheapest first"""
    out, wall = {}, {}
    for f in sorted(glob.glob(HERE + '/evidence/P*.json')):
        d = json.load(open(f)); pid = d['property']; wall[pid] = d['wall_s']; seen = set()
        def walk(x):
            if isinstance(x, str): seen.add(x)
            elif isinstance(x, dict):
                for k, v in x.items(): seen.add(k); walk(v)
            elif isinstance(x, list):
                for v in x: walk(v)
        walk(d)
        for s in seen:
            if re.match(r'^\w+\.\w+\.\w+$', s): out.setdefault(s, []).append(pid)
    n = {}
    for ps in out.values():
        for p in ps: n[p] = n.get(p, 0) + 1
    for k in out: out[k].sort(key=lambda p: (n[p], wall[p]))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out'); ap.add_argument('-n', type=int, default=50); ap.add_argument('-j', type=int, default=4)
    ap.add_argument('--seed', type=int, default=1); ap.add_argument('--max', type=int, default=5); ap.add_argument('--per', action='store_true'); ap.add_argument('--files', default=''); ap.add_argument('--funcs', default='')
    ap.add_argument('--kinds', default=''); ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    ms = []
    for p in sorted(glob.glob('/repo/' + SRC + '*.py')):
        b = os.path.basename(p)
        if a.files and b not in a.files.split(','): continue
        if b == '__init__.py': continue
        for m in mutants(p):
            if a.funcs and m['func'] not in a.funcs.split(','): continue
            if a.kinds and m['kind'].split(':')[0] not in a.kinds.split(','): continue
            m['file'] = b; ms.append(m)
    print(len(ms), 'mutants in all')
    if a.list: return
    random.Random(a.seed).shuffle(ms)
    if a.per:
        k = {}
        ms = [m for m in ms if k.setdefault(m['file'], []).append(1) or len(k[m['file']]) <= a.n]
    else:
        ms = ms[:a.n]
    done = set()
    if os.path.exists(a.out):
        for l in open(a.out): d = json.loads(l); done.add((d['file'], d['line'], d['kind'], d['old'], d['new']))
    ms = [m for m in ms if (m['file'], m['line'], m['kind'], m['old'], m['new']) not in done]
    enc = encoded(); top = '/tmp/mut'; shutil.rmtree(top, ignore_errors=True); os.makedirs(top)
    slots = queue.Queue()
    for i in range(a.j):
        r = f'{top}/{i}'; os.makedirs(r); sh(f'cp -a /repo {r}/repo; mkdir {r}/verif; cp -a {HERE}/check {HERE}/engine {HERE}/props {HERE}/known_findings.json {r}/verif/; mkdir {r}/verif/evidence'); slots.put(r)
    def one(m):
        r = slots.get()
        try:
            p = r + '/repo/' + SRC + m['file']; orig = open('/repo/' + SRC + m['file']).read()
            try:
                ast.parse(m['text'])
            except SyntaxError:
                return
            open(p, 'w').write(m['text'])
            rec = {k: m[k] for k in ('file', 'cls', 'func', 'line', 'kind', 'old', 'new')}
            try:
                miss = tests(r)
                if miss: rec['status'] = 'killed-by-tests'
                else:
                    key = f"{m['file'][:-3]}.{m['cls']}.{m['func']}"; ps = enc.get(key, []); first = HOME.get(m['file'][:-3], '').split()
                    ps = first + [p for p in ps if p not in first][:a.max]; rec['props'] = ps; rec['status'] = 'SURVIVED' if ps else 'NOT-ENCODED'; rec['rcs'] = {}
                    for pid in ps:
                        rc, o = sh(f'timeout 800 ./check {pid}', cwd=r + '/verif', env=dict(VERIF_REPO=r + '/repo', VERIF_FAILFAST='1', VERIF_JOBS='3'))
                        rec['rcs'][pid] = rc
                        if rc == 1 and 'VIOLATION' in o: rec['status'] = 'caught ' + pid; break
            finally:
                open(p, 'w').write(orig)
            open(a.out, 'a').write(json.dumps(rec) + '\n')
            if rec['status'] != 'killed-by-tests': print(rec['status'], rec['file'], rec['line'], rec['func'], rec['kind'], '|', rec['old'], '->', rec['new'], {k: v for k, v in rec.get('rcs', {}).items() if v}, flush=True)
        finally:
            slots.put(r)
    with ThreadPoolExecutor(a.j) as ex: list(ex.map(one, ms))
    shutil.rmtree(top, ignore_errors=True)
main()
