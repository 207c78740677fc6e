"""plant.py SPEC.py : verify and record a planted bug under /verif/seeded/<id>/ (development tool, no check uses it).

SPEC defines: id, prop, needs, what, edits=[(file, old, new[, count])], demo (python source, run in a scratch cwd
with termfactory on the path and REPO in the environment)
"""
import json
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
# exit 0: behaviour as specified; nonzero: broken.  Run with cwd = the repository.
here=$(cd "$(dirname "$0")" && pwd)
export REPO="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD/termfactory"
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
cd "$d"
timeout 280 /opt/venv/bin/python "$here/demo.py" > out.txt 2>&1
rc=$?
tail -c 2000 out.txt
exit $rc
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main(spec_path):
    s = {}
    exec(open(spec_path).read(), s)
    bid = s['id']
    d = os.path.join(V, 'seeded', bid)
    w = f'/tmp/plant_{bid}'
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w)
    try:
        c = f'{w}/repo'
        sh(f'cp -a /repo {c}')
        os.makedirs(d, exist_ok=True)
        open(f'{d}/demo.sh', 'w').write(DEMO_SH)
        os.chmod(f'{d}/demo.sh', 0o755)
        open(f'{d}/demo.py', 'w').write(s['demo'].lstrip('\n'))
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['what']},
                  open(f'{d}/meta.json', 'w'), indent=1)
        for e in s['edits']:
            p = f'{c}/{e[0]}'
            t = open(p).read()
            n = t.count(e[1])
            if n != (e[3] if len(e) > 3 else 1):
                print(f'edit matches {n} times: {e[0]} {e[1]!r}')
                return 2
            open(p, 'w').write(t.replace(e[1], e[2]))
        open(f'{d}/patch.diff', 'w').write(sh(f'git -C {c} diff').stdout)
        r0 = sh(f'bash {d}/demo.sh', cwd='/repo')
        r1 = sh(f'bash {d}/demo.sh', cwd=c)
        print('demo unchanged rc', r0.returncode, r0.stdout[-400:] if r0.returncode else '')
        print('demo patched   rc', r1.returncode, r1.stdout[-400:])
        t = open('/opt/vp/test.sh').read().replace('/opt/vp/work', f'{w}/work').replace('cd /repo', f'cd {c}')
        open(f'{w}/test.sh', 'w').write(t)
        sh(f'bash {w}/test.sh {w}/o.json')
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        o = json.load(open(f'{w}/o.json'))
        lost = base - set(o.get('passed', o.get('pass', [])))
        print('stable tests lost:', len(lost), sorted(lost)[:3])
        ok = r0.returncode == 0 and r1.returncode != 0 and not lost
        print('COUNTS' if ok else 'DOES NOT COUNT', bid)
        props = sys.argv[2:] or [s['prop']]
        for p in props:
            r = sh(f'VP_REPO={c} /opt/venv/bin/python {V}/check.py {p} --tier quick')
            line = [x for x in r.stdout.splitlines() if x.startswith('VIOLATION') or x.startswith(p)]
            print('   check', p, 'rc', r.returncode, line, r.stderr[-300:])
            if r.returncode == 1:
                i = r.stdout.find('VIOLATION')
                print('\n'.join('      ' + x[:220] for x in r.stdout[i:].splitlines()[:7]))
        if not ok:
            shutil.rmtree(d)
    finally:
        shutil.rmtree(w, ignore_errors=True)


sys.exit(main(sys.argv[1]))
