"""C19: the command line runs exactly the requested generator, on the requested truncations, into the documented file.

All combinations of ansatz, state, f-term option, code/LaTeX, side, truncation kind and truncation source are executed
through the real driver (a child process each); what appears on disk is compared with a direct call of the generator
that the documented dispatch table names.  Meaningless combinations have to fail without writing an equation file.
"""
import itertools as it
import json
import os
import runpy
import shutil
import subprocess
import sys
from checks.c16 import in_child
from lib import harness, ops

NAME = {'H': 'maximum_hamiltonian_rank', 'CC': 'maximum_coupled_cluster_rank', 'S': 's_taylor_max_order',
        'P': 'omega_max_order', 'T': 'maximum_T_rank', 'eT': 'eT_taylor_max_order'}
KEYS = {3: ('H', 'CC', 'P'), 4: ('H', 'CC', 'S', 'P'), 5: ('H', 'CC', 'T', 'eT', 'P')}
ANSATZ = {3: 'z_t ansatz', 4: 'full cc', 5: 'eT_z_t ansatz'}
TRUNCS = [(1, 2, 3), (3, 1, 2), (2, 1, 3, 2), (1, 2, 1, 1), (2, 3, 1, 4, 1), (1, 2, 1, 1, 3)]
EDGES = [(6, 5, 4), (1, 1, 6), (1, 6, 1), (6, 1, 1, 1), (1, 6, 1, 1), (1, 1, 6, 1), (1, 1, 1, 6), (6, 1, 1, 1, 1),
         (1, 6, 1, 1, 1), (1, 1, 1, 8, 1), (1, 1, 1, 1, 6)]      # one truncation at its limit


def imports():
    ops.imports()
    try:
        import _glue_      # noqa: F401  (only so that the forked children need not import it again)
    except ImportError:
        pass


def plan(t, ansatz, es, rf, code, lhs):
    """(file name, request) of a meaningful command, None otherwise"""
    n = len(t)
    if n not in KEYS or (ansatz and ansatz != ANSATZ[n]):
        return None
    d = dict(zip(KEYS[n], t))
    gs = '' if es else 'ground_state_'
    f = '_no_f_terms' if rf else ''
    side = 'LHS' if lhs else 'RHS'
    if code:
        if n == 3:
            return None
        if n == 4:
            return (f'{gs}full_cc_{"special_LHS_equations" if lhs else "equations"}{f}.py', ('fccP', (t, not es, rf)))
        return (f'eT_zhz_eqs_{side}_H({d["H"]})_P({d["P"]})_T({d["T"]})_exp({d["eT"]})_Z({d["CC"]}).py',
                ('eTP', (t, not es, rf, side)))
    stem = {3: 'z_t', 4: 'full_cc', 5: 'eT_z_t'}[n]
    kind = {3: 'ztL', 4: 'fccL', 5: 'eTL'}[n]
    name = f'{gs}{stem}_{"special_LHS_terms" if lhs else "symmetric_equations"}{f}.tex'
    return name, (kind, (t, not es, rf) + ((side,) if n == 5 else ()))


def listing(d):
    """{name: text} of what a run left behind, logs excluded"""
    return {f: open(os.path.join(d, f)).read() for f in sorted(os.listdir(d))
            if os.path.isfile(os.path.join(d, f)) and not f.endswith('.txt')}


def drive(argv, real=False, existing=()):
    """run the driver in ./run/cwd; {'rc', 'files', 'up'}"""
    os.makedirs('run/cwd')
    for f in existing:
        with open(os.path.join('run/cwd', f), 'w') as fh:
            fh.write('{"left": "over"}\n' * 40000)
    driver = os.path.join(harness.TF, 'driver.py')
    if real:
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        rc = subprocess.run([sys.executable, driver] + argv, cwd='run/cwd', env=env, stdout=subprocess.DEVNULL,
                            stderr=subprocess.DEVNULL).returncode
    else:
        def child():
            os.chdir('run/cwd')
            sys.argv = [driver] + argv
            try:
                with harness.quiet():
                    runpy.run_path(driver, run_name='__main__')
            except SystemExit as e:
                return 0 if e.code in (None, 0) else 1
            except Exception:
                return 1
            return 0
        rc = in_child(child)
    out = {'rc': rc, 'files': listing('run/cwd'), 'up': listing('run'),
           'logs': [f for d in ('run', 'run/cwd') for f in os.listdir(d) if f.endswith('.txt')]}
    return out


def reset():
    for d in ('run/cwd', 'run'):
        for f in os.listdir(d):
            p = os.path.join(d, f)
            if os.path.isfile(p):
                os.remove(p)
        os.rmdir(d)


def direct(req):
    """content the generator itself writes for the request, None when it refuses"""
    def child():
        os.makedirs('ref', exist_ok=True)
        os.chdir('ref')
        try:
            with harness.quiet():
                ops.call(req, 'out')
            return open('out').read()
        except Exception:
            return None
        finally:
            if os.path.exists('out'):
                os.remove('out')
    return in_child(child)


def argv_of(t, ansatz, es, rf, code, lhs, via, long):
    a = []
    if via == 't':
        a += ['-t'] + [str(x) for x in t]
    elif via == 'p':
        a += ['--path' if long else '-p', '../in.dat']
    if ansatz:
        a += ['--ansatz' if long else '-a', ansatz]
    if es:
        a += ['--excited_state' if long else '-es']
    if rf is not None:
        a += ['--remove_f_terms' if long else '-rf', str(rf)]
    if code:
        a += ['--code' if long else '-c']
    if lhs:
        a += ['-lhs']
    return a


def run_case(case):
    res = {'viol': [], 'samples': [], 'outcomes': [], 'states': 0, 'transitions': 0, 'traces': 0, 'cases': 0}

    def bad(key, text):
        if len(res['viol']) < 10:
            res['viol'].append({'key': key, 'what': text[:1500], 'case': case})

    def judge(argv, want, t, via, real=False, existing=(), log=None):
        """want: (name, content) or None; log: the log files expected, None if not judged"""
        os.makedirs('run', exist_ok=True)
        src = None
        if via == 'p':
            src = json.dumps({NAME[k]: v for k, v in zip(KEYS[len(t)], t)})
            with open('run/in.dat', 'w') as fh:
                fh.write(src)
        r = drive(argv, real, existing)
        cmd = 'driver.py ' + ' '.join(repr(x) if ' ' in x else x for x in argv) + (' over existing files' if existing else '')
        files = r['files']
        if want is None:
            if r['rc'] == 0:
                bad(f'{cmd}: succeeds', f'a meaningless or refused command exits 0 and writes {list(files)}')
            if files:
                bad(f'{cmd}: writes {list(files)}', 'a meaningless or refused command leaves files behind')
            res['outcomes'].append('refused')
        else:
            if r['rc'] != 0:
                bad(f'{cmd}: fails', f'exit status {r["rc"]}')
            elif list(files) != [want[0]]:
                bad(f'{cmd}: writes {list(files)}', f'expected {want[0]}')
            elif files[want[0]] != want[1]:
                bad(f'{cmd}: wrong content of {want[0]}', 'differs from a direct call of the generator with these options')
            if via == 't' and r['rc'] == 0:
                up = {k: v for k, v in r['up'].items()}
                ok = False
                if list(up) == ['truncs.json']:
                    try:
                        ok = json.loads(up['truncs.json']) == {NAME[k]: v for k, v in zip(KEYS[len(t)], t)}
                    except ValueError:
                        pass
                if not ok:
                    bad(f'{cmd}: truncs.json', f'truncations not saved faithfully: {up}')
            if via == 'p' and r['up'] != {'in.dat': src}:
                bad(f'{cmd}: parent directory {list(r["up"])}', 'the truncation file was changed or others written')
            res['outcomes'].append(want[0])
        if log is not None and r['rc'] == 0 and sorted(r['logs']) != log:
            bad(f'{cmd}: log goes to {sorted(r["logs"])}', f'expected {log}')
        reset()
        res['states'] += 1
        res['transitions'] += 1
        res['traces'] += 1

    what = case[0]
    if what == 'flags':
        t, ansatz = tuple(case[1]), case[2]
        for es, rf, code, lhs in it.product((False, True), (None, True, False), (False, True), (False, True)):
            p = plan(t, ansatz, es, bool(rf), code, lhs)
            want = None
            if p:
                text = direct(p[1])
                want = (p[0], text) if text is not None else None
            for via in ('t', 'p'):
                judge(argv_of(t, ansatz, es, rf, code, lhs, via, via == 'p'), want, t, via)
            if want and rf is None:
                # the same over what an earlier command left behind, and with the logging options
                judge(argv_of(t, ansatz, es, rf, code, lhs, 't', False), want, t, 't', existing=(want[0], '../truncs.json'))
                judge(argv_of(t, ansatz, es, rf, code, lhs, 't', True) + ['-s', '-l', 'run.txt'], want, t, 't')
    elif what == 'bad':
        both = ['-t', '1', '1', '1', '1', '-p', '../in.dat']
        for code in ([], ['-c']):
            judge(both + code, None, (1, 1, 1, 1), 'p')
            judge([] + code, None, (1, 1, 1, 1), '')
            judge(['-p', '../missing.json'] + code, None, (1, 1, 1, 1), '')
            for n in (1, 2, 6, 7):
                judge(['-t'] + ['1'] * n + code, None, (1,) * n, '')
            for n in (3, 4, 5):
                for i in range(n):
                    for v in ('0', '9', '-1', 'x', '1.5'):
                        judge(['-t'] + [v if j == i else '1' for j in range(n)] + code, None, (1,) * n, '')
                for a in ('full', 'FULL CC', 'z_t', 'eT_z_t', 'no such ansatz'):
                    judge(['-t'] + ['1'] * n + ['-a', a] + code, None, (1,) * n, '')
    elif what == 'layer':
        # the layer below the command line, with options left out: they take their defaults
        t = tuple(case[1])
        free = {'only_ground_state': (True, False), 'remove_f_terms': (False, True), 'lhs_rhs': ('RHS', 'LHS')}
        choices = [(None, {})] if len(t) == 4 else []
        for k in range(4):
            for names in it.combinations(free, k):
                for vals in it.product(*[free[x] for x in names]):
                    choices.append((ANSATZ[len(t)], dict(zip(names, vals))))
        # an ansatz of another kind than the truncations, or none at all, is refused
        choices += [(a, {}) for a in list(ANSATZ.values()) + ['full', 'FULL CC', 'z_t', 'eT_z_t', 'no such ansatz', '']
                    if a != ANSATZ[len(t)]]
        for code in (False, True):
            kind = 'gP' if code else 'gL'
            if kind not in ops.G:
                continue
            for ansatz, opts in choices:
                p = plan(t, ANSATZ[len(t)], not opts.get('only_ground_state', True), opts.get('remove_f_terms', False), code,
                         opts.get('lhs_rhs', 'RHS') == 'LHS')
                if ansatz not in (None, ANSATZ[len(t)]):
                    p = None
                text = direct(p[1]) if p else None
                want = {p[0]: text} if text is not None else {}
                full = opts if ansatz is None else dict(opts, ansatz=ansatz)

                def child():
                    os.mkdir('layer')
                    os.chdir('layer')
                    try:
                        with harness.quiet():
                            ops.G[kind](ops.make_trunc(t), **full)
                        rc = 0
                    except Exception:
                        rc = 1
                    return {'rc': rc, 'files': listing('.')}
                r = in_child(child)
                shutil.rmtree('layer')
                if r['files'] != want or r['rc'] != (0 if want else 1):
                    bad(f'{"code" if code else "latex"} layer {t} {full}', f'status {r["rc"]}, files {list(r["files"])}, expected '
                        f'{list(want)}' + (', content differs' if list(r['files']) == list(want) else ''))
                res['states'] += 1
                res['transitions'] += 1
                res['traces'] += 1
    elif what == 'real':
        t, ansatz, es, rf, code, lhs, via = case[1]
        t = tuple(t)
        p = plan(t, ansatz, es, bool(rf), code, lhs)
        text = direct(p[1]) if p else None
        judge(argv_of(t, ansatz, es, rf, code, lhs, via, False), (p[0], text) if text is not None else None, t, via, real=True)
        if what == 'real' and via == 't' and text is not None:
            for opts, log in ((['-s'], []), ([], ['default_logging_file.txt']), (['-l', 'mine.txt'], ['mine.txt']),
                              (['--log_path', 'mine.txt', '--stdlog'], [])):
                judge(argv_of(t, ansatz, es, rf, code, lhs, via, False) + opts, (p[0], text), t, via, real=True, log=log)
    res['cases'] = res['states']
    res['samples'].append(f'{case}: {res["states"]} commands')
    return res


def main(chk, tier):
    truncs = TRUNCS if tier == 'quick' else TRUNCS + [(1, 1, 1), (2, 2, 2), (1, 1, 1, 1), (2, 2, 2, 2), (1, 3, 2, 3),
                                                     (1, 1, 1, 1, 1), (2, 2, 1, 2, 2), (3, 1, 1, 2, 3), (1, 4, 1, 2, 4)]
    cases = [('flags', t, a) for t in truncs + EDGES for a in (None, 'full cc', 'z_t ansatz', 'eT_z_t ansatz')]
    cases.append(('bad',))
    cases += [('layer', t) for t in truncs]
    pick = [(t, None, es, rf, code, lhs, via) for t in truncs for es in (False, True) for rf in (None, False)
            for code in (False, True) for lhs in (False, True) for via in ('t', 'p')]
    cases += [('real', p) for p in (pick[::9] if tier == 'quick' else pick)]
    chk.run(run_case, cases, timeout=240, wall=True)
    return chk.finish(True, f'{len(truncs) + len(EDGES)} truncations (each also at its limit) x 4 ansatz choices x all option combinations x both sources, '
                            'malformed commands, and the layer below with every subset of options left out; in forked children of one interpreter, '
                            + ('a ninth of the valid ones' if tier == 'quick' else 'the valid ones') +
                            ' also as separate processes')
