"""evalmut.py SURVIVORS.jsonl OUT.jsonl : run the checks of the affected generators against surviving mutants (development tool)"""
import json
import multiprocessing as mp
import os
import re
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from mutate import CHECKS, PY, TF, mutated        # noqa: E402

W = '/tmp/evalmut'
KINDS = eval(subprocess.run([PY, '-c', f'import re\ns=open("{V}/tools/fingerprint.py").read().split("R = []")[1].split("def main")[0]\n'
                                       'R=[]\nexec(s)\nprint([r[0] for r in R])'], capture_output=True, text=True).stdout)


def job(r):
    wid = mp.current_process()._identity[0]
    c = f'{W}/w{wid}'
    if not os.path.isdir(c):
        os.makedirs(c)
        subprocess.run(f'cp -a /repo {c}/repo && cp -a {V} {c}/verif', shell=True)
    fn = r['file']
    src = open(f'{TF}/{fn}').read()
    new, b, a = mutated(src, [[tuple(x) for x in r['site'][0]], r['site'][1], r['site'][2]])
    open(f'{c}/repo/termfactory/{fn}', 'w').write(new)
    checks = sorted({k for i in r['diff'] for k in CHECKS[KINDS[int(i)]]}) or ['C19', 'C17', 'C18', 'C20', 'C16', 'C21']
    r['caught'] = None
    r['ran'] = checks
    try:
        for k in checks:
            p = subprocess.run([PY, f'{c}/verif/check.py', k], env=dict(os.environ, VP_REPO=f'{c}/repo', VERIF_JOBS='2'),
                               capture_output=True, text=True)
            if p.returncode:
                r['caught'] = k if p.returncode == 1 and 'VIOLATION' in p.stdout else f'{k} rc={p.returncode}'
                break
    finally:
        open(f'{c}/repo/termfactory/{fn}', 'w').write(src)
    return r


def main():
    done = set()
    if os.path.exists(sys.argv[2]):
        done = {json.dumps([json.loads(x)['file'], json.loads(x)['site']]) for x in open(sys.argv[2])}
    todo = [json.loads(x) for x in open(sys.argv[1])]
    todo = [r for r in todo if r.get('site') and json.dumps([r['file'], r['site']]) not in done]
    shutil.rmtree(W, ignore_errors=True)
    n = [0, 0]
    with mp.Pool(4) as pool, open(sys.argv[2], 'a') as fp:
        for r in pool.imap_unordered(job, todo):
            n[0] += 1
            n[1] += bool(r['caught'])
            fp.write(json.dumps(r) + '\n')
            fp.flush()
            print(r['caught'] or 'MISSED', r['file'], r['line'], r['op'], r['old'], '->', r['new'], r['diff'][:6], flush=True)
    print(n)
    shutil.rmtree(W, ignore_errors=True)


if __name__ == '__main__':
    main()
