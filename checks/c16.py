"""C16: what a request produces depends on nothing but the request.

All histories of requests up to a depth are explored in one process tree (a child process per request, forked from the
state its predecessors left): at every node the output has to be the one a fresh interpreter gives.  Fresh interpreters
are started under several hash seeds, and in a directory of their own, and have to agree as well.
"""
import hashlib
import json
import os
import subprocess
import sys
import tempfile
from lib import harness, ops

def vary(t, top):
    """t and every truncation that differs from it in one component"""
    out = [tuple(t)]
    for i in range(len(t)):
        for v in range(1, top[i] + 1):
            if v != t[i]:
                out.append(tuple(t[:i]) + (v,) + tuple(t[i + 1:]))
    return out


def alphabet():
    """every generator; for each a base request and all requests that differ from it in one truncation or one option"""
    a = []
    for t in vary((2, 2, 2, 2), (3, 3, 3, 3)):
        a.append(('fccL', (t, True, False)))
    a += [('fccL', ((2, 2, 2, 2), True, True)), ('fccL', ((2, 2, 2, 2), False, False)), ('fccL', ((2, 2, 2, 2), False, True)),
          ('fccL', ((1, 2, 3, 2), False, True)), ('fccL', ((2, 1, 1, 1), False, False))]
    for t in vary((2, 2, 2), (3, 3, 3)):
        a.append(('ztL', (t, True, False)))
    a += [('ztL', ((3, 3, 3), True, True)), ('ztL', ((2, 2, 2), False, False))]          # the last one is refused
    for side in ('RHS', 'LHS'):
        for t in vary((2, 2, 1, 2, 2), (3, 3, 1, 3, 3)):
            a.append(('eTL', (t, True, False, side)))
            a.append(('eTP', (t, True, False, side)))
        a += [('eTL', ((2, 2, 1, 2, 2), True, True, side)), ('eTL', ((2, 2, 1, 2, 2), False, False, side))]
        a += [('eTP', ((2, 2, 1, 2, 2), True, True, side)), ('eTP', ((2, 2, 1, 2, 2), False, False, side))]
    for t in vary((2, 2, 2, 2), (2, 2, 3, 2)):
        a.append(('fccP', (t, True, False)))
    a += [('fccP', ((2, 2, 2, 2), True, True)), ('fccP', ((2, 2, 2, 2), False, False))]
    for k in ('wP', 'dtP', 'wL', 'wLx'):
        a += [(k, (n,)) for n in (1, 2, 3, 4)]
    a += [('rP', (n, h)) for n in (1, 2, 3, 4) for h in (1, 2)]
    a.append(('fccL', ((7, 1, 1, 1), True, False)))                                     # out of range
    # through the layer that fills in defaults for options which are not given
    f, z, e = ('ansatz', 'full cc'), ('ansatz', 'z_t ansatz'), ('ansatz', 'eT_z_t ansatz')
    nof, exc, lhs = ('remove_f_terms', True), ('only_ground_state', False), ('lhs_rhs', 'LHS')
    a += [('gL', ((1, 2, 1, 2), o)) for o in ((), (f,), (f, nof), (f, exc), (f, lhs))]
    a += [('gL', ((2, 1, 2), o)) for o in ((z,), (z, nof), (z, exc))]
    a += [('gL', ((1, 1, 1, 2, 1), o)) for o in ((e,), (e, nof), (e, lhs), (f,))]
    a += [('gP', ((1, 1, 1, 1), o)) for o in ((), (f,), (f, nof), (f, exc))]
    a += [('gP', ((1, 1, 1, 2, 1), o)) for o in ((e,), (e, lhs))]
    return a


ALPHABET = alphabet()
NHIST = len(ALPHABET)
# larger requests, only compared between fresh interpreters
ALPHABET += [('fccL', ((3, 3, 3, 3), True, False)), ('fccL', ((2, 3, 2, 3), False, False)), ('ztL', ((6, 6, 6), True, False)),
             ('eTL', ((3, 4, 1, 4, 4), True, False, 'RHS')), ('eTL', ((3, 4, 1, 4, 4), True, False, 'LHS')),
             ('eTP', ((3, 4, 1, 4, 4), True, False, 'RHS')), ('eTP', ((3, 4, 1, 4, 4), True, False, 'LHS')),
             ('fccP', ((3, 3, 3, 3), True, False)), ('wP', (6,)), ('dtP', (6,)), ('rP', (6, 2)), ('wL', (8,))]
NFRESH = len(ALPHABET)
# the lattice of truncations, only under several hash seeds
ALPHABET += [(k, ((h, c, s, p), True, False)) for k in ('fccL', 'fccP') for h in range(1, 7) for c in range(1, 7) for s in range(1, 7)
             for p in (1, 2, 3) if c ** s <= 260]
ALPHABET += [('fccL', ((h, c, s, p), False, False)) for h in range(1, 7) for c in (1, 2) for s in (1, 2, 3) for p in (1, 2, 3) if c * s < 6]
ALPHABET += [(k, ((h, c, 1, e, p), True, False, side)) for k in ('eTL', 'eTP') for side in ('RHS', 'LHS') for h in (1, 3, 5, 6)
             for c in (1, 3, 6) for e in (1, 2, 4) for p in (2, 5)]
ALPHABET += [('ztL', ((h, c, 5), True, False)) for h in (1, 4, 5, 6) for c in (1, 4, 6)]
ALPHABET += [('wP', (5,)), ('dtP', (5,)), ('wLx', (5,))] + [('wL', (n,)) for n in (5, 6, 7)] + [('rP', (5, h)) for h in (1, 2)]
CORE = [ALPHABET.index(x) for x in (          # for the deepest level
    ('fccL', ((2, 2, 2, 2), True, False)), ('fccL', ((1, 2, 3, 2), False, True)), ('ztL', ((3, 3, 3), True, True)),
    ('eTL', ((2, 2, 1, 2, 2), True, False, 'RHS')), ('eTL', ((2, 2, 1, 2, 2), True, False, 'LHS')),
    ('fccP', ((2, 2, 2, 2), True, False)), ('eTP', ((2, 2, 1, 2, 2), True, False, 'RHS')),
    ('eTP', ((2, 2, 1, 2, 2), True, False, 'LHS')), ('wP', (4,)), ('dtP', (4,)), ('rP', (2, 2)), ('wLx', (3,)))]


def imports():
    ops.imports()


def digest(r):
    return [r[0], hashlib.sha256((r[1] or '').encode()).hexdigest()[:16] + f' {len(r[1] or "")} characters']


def in_child(f):
    """result of f() computed in a forked child"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            data = json.dumps(f()).encode()
            while data:
                data = data[os.write(w, data):]
            code = 0
        except BaseException as e:      # noqa: B902
            try:
                os.write(w, json.dumps({'error': repr(e)}).encode())
                code = 0
            except Exception:
                pass
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(buf) if buf else {'error': 'child died'}


# ---- fresh interpreters ---------------------------------------------------------------------------
FRESH = '''
import os, sys, json
sys.path.insert(0, {verif!r})
sys.dont_write_bytecode = True
if {shift!r}:           # another date and time
    import datetime, time
    real_time, real_date, real_dt = time.time, datetime.date, datetime.datetime
    class Date(real_date):
        @classmethod
        def today(cls):
            return cls.fromtimestamp(real_time() + {shift!r})
    class Datetime(real_dt):
        @classmethod
        def now(cls, tz=None):
            return cls.fromtimestamp(real_time() + {shift!r}, tz)
        @classmethod
        def today(cls):
            return cls.now()
        @classmethod
        def utcnow(cls):
            return cls.now()
    datetime.date, datetime.datetime = Date, Datetime
    real_local, real_gm, real_strftime, real_ctime = time.localtime, time.gmtime, time.strftime, time.ctime
    time.time = lambda: real_time() + {shift!r}
    time.localtime = lambda t=None: real_local(time.time() if t is None else t)
    time.gmtime = lambda t=None: real_gm(time.time() if t is None else t)
    time.strftime = lambda f, t=None: real_strftime(f, time.localtime() if t is None else t)
    time.ctime = lambda t=None: real_ctime(time.time() if t is None else t)
from lib import harness
harness.SCRATCH = {scratch!r}
harness.setup_repo_import()
os.chdir({cwd!r})
with harness.quiet():
    from checks import c16
    c16.imports()
for f in os.listdir('.'):
    if not f.endswith('.txt'):
        raise SystemExit('not empty')
out = []
for i in {which!r}:
    out.append(c16.in_child(lambda: c16.digest(c16.ops.perform(c16.ALPHABET[i]))))
    for f in c16.ops.files():
        os.remove(f)
print('RESULT' + json.dumps(out))
'''


def fresh(arg):
    """baseline outcome of every request in a fresh interpreter with a given hash seed"""
    seed, which = arg
    d = tempfile.mkdtemp(dir=os.getcwd())
    src = FRESH.format(verif=harness.VERIF, scratch=harness.SCRATCH, cwd=d, which=list(which),
                       shift=seed * 40000000)
    env = dict(os.environ, PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE='1')
    if seed:        # another user, terminal and time zone
        env.update(USER=f'user{seed}', LOGNAME=f'user{seed}', HOME=d, HOSTNAME=f'host{seed}', COLUMNS=str(40 + 9 * seed), TZ=f'ABC{seed % 9}')
    p = subprocess.run([sys.executable, '-c', src], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    for line in p.stdout.splitlines():
        if line.startswith('RESULT'):
            return {'base': dict(zip(map(str, which), json.loads(line[6:]))), 'seed': seed, 'cases': len(which)}
    return {'internal': p.stderr[-2000:] + p.stdout[-500:]}


BASE = {}


def explore(history, menu, depth):
    """[(history, got)] of wrong nodes below, number of nodes"""
    bad, n = [], 0
    for i in menu:
        def node():
            got = digest(ops.perform(ALPHABET[i]))
            here = history + [i]
            b, k = ([], 1)
            if got != BASE[str(i)]:
                b.append([here, got])
            if depth > 1:
                b2, k2 = explore(here, menu, depth - 1)
                b += b2
                k += k2
            return [b[:20], k]
        snapshot = {f: open(f).read() for f in ops.files()}
        r = in_child(node)
        for f in ops.files():
            if f not in snapshot:
                os.remove(f)
        for f, t in snapshot.items():
            if not os.path.exists(f) or open(f).read() != t:
                open(f, 'w').write(t)
        if isinstance(r, dict):
            bad.append([history + [i], ['exploration failed', r['error']]])
            continue
        bad += r[0]
        n += r[1]
    return bad, n


def show(i):
    return f'{ALPHABET[i][0]}{ALPHABET[i][1]}'


def run_case(case):
    first, menu, depth = case
    if not BASE:
        BASE.update(fresh((0, list(range(NFRESH))))['base'])
    got = digest(ops.perform(ALPHABET[first]))
    bad, n = [], 1
    if got != BASE[str(first)]:
        bad.append([[first], got])
    if depth > 1:
        b, k = explore([first], list(menu), depth - 1)
        bad += b
        n += k
    res = {'viol': [], 'states': n, 'transitions': n, 'traces': n, 'cases': 1,
           'outcomes': [BASE[str(first)][1]], 'samples': [f'histories starting with {show(first)}: {n}']}
    for h, g in bad[:20]:
        res['viol'].append({'key': f'{show(h[-1])} after {[show(i) for i in h[:-1]]} gives {g[0]}',
                            'what': f'fresh interpreter: {BASE[str(h[-1])]}, after the history: {g}', 'case': case})
    return res


def main(chk, tier):
    allops = list(range(len(ALPHABET)))
    seeds = list(range(8)) if tier == 'quick' else list(range(32))
    # some seeds for the whole lattice, in shares
    parts = [list(range(NFRESH))] + [list(range(NFRESH + i, len(ALPHABET), 4)) for i in range(4)]
    got = {s: {} for s in seeds}
    jobs = [(s, part) for part in parts for s in seeds[:len(seeds) if part[0] == 0 else len(seeds) * 3 // 4]]
    for _, r in harness.pmap(fresh, jobs, 600, wall=True):
        if 'internal' in r:
            chk.internal.append(('fresh interpreter', r['internal']))
        else:
            got[r['seed']].update(r['base'])
            chk.add(states=r['cases'], transitions=r['cases'], traces=r['cases'])
    if chk.internal:
        return chk.finish(False, 'no baseline')
    BASE.update(got[0])
    for s in seeds[1:]:
        for i in allops:
            if str(i) in got[s] and got[s][str(i)] != BASE[str(i)]:
                chk.violation(f'{show(i)} depends on the hash seed, date, user or terminal', f'seed 0: {BASE[str(i)]}, seed {s}: {got[s][str(i)]}',
                              ['seed', s, i])
    for i in allops:
        if BASE[str(i)][0] != 'file' and not BASE[str(i)][0].startswith('raised '):
            chk.violation(f'{show(i)}: {BASE[str(i)][0]}', 'a single request has side effects', ['fresh', i])
    made = [i for i in allops if BASE[str(i)][0] == 'file']
    if len(made) < len(allops) - 20:
        chk.violation('most requests fail', f'only {len(made)} of {len(allops)} requests write a file', ['fresh'])
    hist = allops[:NHIST]
    deep = CORE if tier == 'quick' else sorted(set(hist[::2] + CORE))
    cases = [(i, tuple(hist), 2) for i in hist] + [(i, tuple(deep), 3) for i in deep]
    chk.run(run_case, cases, timeout=240 if tier == 'quick' else 7200, wall=True)
    return chk.finish(True, f'{NHIST} requests (every generator, both sides, every truncation and option varied, refused ones); '
                            f'all histories of length 2, all of length 3 over {len(deep)} of them; '
                            f'{len(seeds)} hash seeds, each with its own date, user, terminal width and time zone, '
                            f'for these and (three quarters of the seeds) {len(ALPHABET) - NFRESH} requests over the lattice of truncations')
