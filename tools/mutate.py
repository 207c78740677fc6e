"""mutate.py OUT.jsonl [--step K] [--offset O] [--only FILE,..] : mutation campaign (development tool, no check uses it).

Every mutant (one AST node changed) of a line that the fingerprint requests execute is kept if it changes a fingerprint
and passes the repository's tests; the checks of the affected generators are then run against it.
"""
import ast
import copy
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TF = '/repo/termfactory'
PY = '/opt/venv/bin/python'
W = '/tmp/mutate'
SMALL = ['truncations.py', 'truncation_keys.py', 'driver.py', '_glue_.py']
CHECKS = {'fccL': ['C01', 'C02', 'C03', 'C13', 'C14', 'C23'], 'ztL': ['C09', 'C13', 'C14', 'C23'],
          'eTL': ['C10', 'C13', 'C14', 'C23'], 'fccP': ['C04', 'C15', 'C22'], 'eTP': ['C11', 'C12', 'C15', 'C22'],
          'wP': ['C05', 'C15', 'C22'], 'dtP': ['C06', 'C15', 'C22'], 'rP': ['C07'], 'wL': ['C08', 'C13'], 'wLx': ['C08', 'C13']}
SWAP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
        ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is}


def variants(n):
    """[(description, new node)]"""
    out = []
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
        m = copy.deepcopy(n)
        m.ops = [SWAP[type(n.ops[0])]()]
        out.append(('cmp', m))
        if isinstance(n.ops[0], (ast.Gt, ast.GtE, ast.Lt, ast.LtE)):
            m = copy.deepcopy(n)
            m.ops = [ast.Eq()]
            out.append(('cmp=', m))
    elif isinstance(n, ast.BinOp) and type(n.op) in (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv, ast.Mod):
        m = copy.deepcopy(n)
        m.op = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv}[type(n.op)]()
        out.append(('bin', m))
        out.append(('left', copy.deepcopy(n.left)))
    elif isinstance(n, ast.BoolOp):
        m = copy.deepcopy(n)
        m.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
        out.append(('bool', m))
        for i in range(len(n.values)):
            m = copy.deepcopy(n)
            del m.values[i]
            out.append((f'dropcond{i}', m if len(m.values) > 1 else m.values[0]))
    elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
        out.append(('not', copy.deepcopy(n.operand)))
    elif isinstance(n, ast.Constant) and type(n.value) is int:
        out.append(('+1', ast.Constant(n.value + 1)))
        if n.value > 0:
            out.append(('-1', ast.Constant(n.value - 1)))
    elif isinstance(n, ast.Constant) and type(n.value) is bool:
        out.append(('flip', ast.Constant(not n.value)))
    elif isinstance(n, ast.Constant) and type(n.value) is str and 0 < len(n.value) < 40:
        out.append(('str', ast.Constant(n.value[:-1])))
    elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
        for v in (True, False):
            m = copy.deepcopy(n)
            m.test = ast.Constant(v)
            out.append((f'cond{v}', m))
    elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
        a = n.attr
        b = {'m': 'n', 'n': 'm'}.get(a) or ({'m_': 'n_', 'n_': 'm_'}.get(a[:2], '') + a[2:] if a[:2] in ('m_', 'n_') else None)
        if b:
            m = copy.deepcopy(n)
            m.attr = b
            out.append(('mn', m))
    elif isinstance(n, (ast.AugAssign, ast.Continue)) or (
            isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and not ast.unparse(n).startswith(('log', 'old_print', 'print'))):
        out.append(('del', ast.Pass()))
    elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Slice):
        m = copy.deepcopy(n)
        if n.slice.upper is not None:
            m.slice.upper = None
            out.append(('slice', m))
    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('sorted', 'set', 'list', 'max', 'min', 'sum', 'any', 'all') \
            and len(n.args) >= 1:
        r = {'max': 'min', 'min': 'max', 'any': 'all', 'all': 'any'}.get(n.func.id)
        if r:
            m = copy.deepcopy(n)
            m.func.id = r
            out.append((r, m))
        elif n.func.id == 'sorted':
            m = copy.deepcopy(n)
            m.func.id = 'list'
            m.keywords = []
            out.append(('unsorted', m))
    return out


def skip(n):
    return isinstance(n, (ast.Raise, ast.Assert)) or (
        isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or (
            isinstance(n.value, ast.Call) and ast.unparse(n.value.func).startswith(('log', 'old_print', 'print')))))


def sites(tree, lines):
    """paths of the nodes that may be mutated"""
    out = []

    def walk(n, path):
        if skip(n) or isinstance(n, ast.arguments):
            return
        ln = getattr(n, 'lineno', None)
        if ln is not None and not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and isinstance(n, ast.stmt) \
                and lines is not None and not any(i in lines for i in range(ln, n.end_lineno + 1)):
            return
        for d, m in variants(n):
            out.append((path, d, ln))
        for f, v in ast.iter_fields(n):
            if isinstance(v, ast.AST):
                walk(v, path + [(f, None)])
            elif isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        walk(x, path + [(f, i)])
    walk(tree, [])
    return out


def mutated(src, site):
    tree = ast.parse(src)
    path, d, _ = site
    n = tree
    for f, i in path[:-1]:
        n = getattr(n, f) if i is None else getattr(n, f)[i]
    f, i = path[-1]
    old = getattr(n, f) if i is None else getattr(n, f)[i]
    new = dict(variants(old))[d]
    before = ast.unparse(old)
    if i is None:
        setattr(n, f, new)
    else:
        getattr(n, f)[i] = new
    ast.fix_missing_locations(tree)
    return ast.unparse(tree), before.split('\n')[0][:100], ast.unparse(new).split('\n')[0][:100]


def finger(repo, timeout=400):
    try:
        p = subprocess.run([PY, f'{V}/tools/fingerprint.py'], env=dict(os.environ, VP_REPO=repo, PYTHONHASHSEED='0'),
                           capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None
    for line in p.stdout.splitlines():
        if line.startswith('RESULT'):
            return json.loads(line[6:])
    return None


def job(a):
    fn, site = a
    wid = mp.current_process()._identity[0]
    c = f'{W}/w{wid}/repo'
    if not os.path.isdir(c):
        os.makedirs(f'{W}/w{wid}', exist_ok=True)
        subprocess.run(f'cp -a /repo {c}', shell=True)
    src = open(f'{TF}/{fn}').read()
    try:
        new, b, a2 = mutated(src, site)
    except Exception as e:
        return {'status': 'error', 'why': repr(e)}
    r = {'file': fn, 'line': site[2], 'op': site[1], 'old': b, 'new': a2, 'site': site}
    open(f'{c}/termfactory/{fn}', 'w').write(new)
    try:
        g = finger(c)
        if g is None or 'import' in g:
            r['status'] = 'dead'
            return r
        diff = [i for i in BASE if g.get(i) != BASE[i]]
        if not diff and fn not in SMALL:
            r['status'] = 'same'
            return r
        r['diff'] = diff
        p = subprocess.run([PY, '-m', 'pytest', '-x', '-q', '-p', 'no:cacheprovider', '-p', 'no:xdist', '--disable-warnings',
                            '--timeout=120'], cwd=c, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0'),
                           capture_output=True, text=True, timeout=1200)
        r['status'] = 'tests' if p.returncode else 'survived'
        return r
    except subprocess.TimeoutExpired:
        r['status'] = 'dead'
        return r
    finally:
        open(f'{c}/termfactory/{fn}', 'w').write(src)


def main():
    global BASE
    out = sys.argv[1]
    arg = dict(zip(sys.argv[2::2], sys.argv[3::2]))
    step, off = int(arg.get('--step', 1)), int(arg.get('--offset', 0))
    files = arg['--only'].split(',') if '--only' in arg else sorted(f for f in os.listdir(TF) if f.endswith('.py') and f not in (
        'log_conf.py', 'reference_latex_headers.py', 'latex_defines.py'))
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    BASE = finger('/repo')
    lines = json.load(open('/tmp/w/lines.json'))
    jobs = []
    for fn in files:
        t = ast.parse(open(f'{TF}/{fn}').read())
        s = sites(t, None if fn in SMALL else set(lines.get(fn, [])))
        jobs += [(fn, x) for x in s]
    jobs = jobs[off::step]
    print(len(jobs), 'mutants', flush=True)
    sys.path.insert(0, V)
    sys.argv = ['x']
    surv = []
    n = {}
    with mp.Pool(8) as pool, open(out, 'a') as fp:
        for r in pool.imap_unordered(job, jobs):
            n[r['status']] = n.get(r['status'], 0) + 1
            if r['status'] in ('survived', 'error'):
                fp.write(json.dumps(r) + '\n')
                fp.flush()
            if sum(n.values()) % 50 == 0:
                print(n, flush=True)
    print(n)
    shutil.rmtree(W, ignore_errors=True)


if __name__ == '__main__':
    main()
