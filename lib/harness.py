"""Common machinery: scratch directories, process pool, evidence, known findings, replay files."""
import contextlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
TF = os.path.join(REPO, 'termfactory')
PYTHON = sys.executable
JOBS = int(os.environ.get('VERIF_JOBS', str(min(8, os.cpu_count() or 1))))

SCRATCH = None


def scratch():
    """per-run scratch directory, also the cwd of the code under test (it writes log files there)"""
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix='tfverif_')
        os.makedirs(os.path.join(SCRATCH, 'cwd'))
    return SCRATCH


def cleanup():
    global SCRATCH
    if SCRATCH and os.path.isdir(SCRATCH) and os.path.basename(SCRATCH).startswith('tfverif_'):
        os.chdir('/')
        shutil.rmtree(SCRATCH, ignore_errors=True)
    SCRATCH = None


def setup_repo_import():
    sys.dont_write_bytecode = True
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.chdir(os.path.join(scratch(), 'cwd'))
    if TF not in sys.path:
        sys.path.insert(0, TF)
    import logging
    logging.raiseExceptions = False


@contextlib.contextmanager
def quiet():
    """swallow everything the code under test prints (python level and fd level)"""
    with open(os.devnull, 'w') as dn:
        so, se = sys.stdout, sys.stderr
        sys.stdout = sys.stderr = dn
        try:
            yield
        finally:
            sys.stdout, sys.stderr = so, se


QUICK_BUDGET = 780      # seconds after which a quick check answers with what it has explored


class CaseTimeout(BaseException):
    pass


def _alarm(sig, frm):
    raise CaseTimeout()


def _run_case(arg):
    func, case, timeout, wall = arg
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
    except Exception:
        pass
    d = tempfile.mkdtemp(dir=SCRATCH, prefix='c_')
    os.chdir(d)
    # processor time, so that a busy machine does not count; wall time only where children do the work
    signal.signal(signal.SIGALRM, _alarm)
    signal.signal(signal.SIGPROF, _alarm)
    if wall:
        signal.alarm(timeout)
    else:
        signal.setitimer(signal.ITIMER_PROF, timeout)
    try:
        r = func(case)
    except CaseTimeout:
        r = {'viol': [{'key': f'timeout {case!r}', 'what': f'no result within {timeout} s', 'case': case}]}
    except Exception:
        r = {'internal': traceback.format_exc()}
    finally:
        signal.alarm(0)
        signal.setitimer(signal.ITIMER_PROF, 0)
        os.chdir('/')
        shutil.rmtree(d, ignore_errors=True)
    return case, r


def pmap(func, cases, timeout=300, fresh=True, wall=False, deadline=None):
    """func(case) in a fresh forked child per case; yields (case, result) as they complete, until the deadline"""
    ctx = mp.get_context('fork')
    scratch()
    items = [(func, c, timeout, wall) for c in cases]
    with ctx.Pool(JOBS, maxtasksperchild=1 if fresh else None) as pool:
        results = pool.imap_unordered(_run_case, items, chunksize=1)
        while True:
            try:
                yield results.next(None if deadline is None else max(1, deadline - time.time()))
            except StopIteration:
                return
            except mp.TimeoutError:
                return


# ------------------------------------------------------------------------------------------------
def load_known():
    path = os.path.join(VERIF, 'known_findings.txt')
    out = {}
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if not line.startswith('finding:'):
                continue
            body = line[len('finding:'):].strip()
            prop, rest = body.split(' ', 1)
            prop = prop.split('=', 1)[1]
            key, _, what = rest.partition(' :: ')
            out.setdefault(prop, {})[key.strip()] = what.strip()
    return out


class Check:
    def __init__(self, prop, tier, level, seed):
        self.prop, self.tier, self.level, self.seed = prop, tier, level, seed
        self.t0 = time.time()
        self.cov = {'states': 0, 'transitions': 0, 'traces_validated_against_impl': 0, 'cases': 0}
        self.samples = []
        self.outcomes = set()
        self.viol = []
        self.known = {}
        self.internal = []
        self.skipped = 0
        self.assumptions = []
        self.notes = {}
        self.rule = ''
        self._known = load_known().get(prop, {})

    def add(self, states=0, transitions=0, traces=0, cases=0):
        self.cov['states'] += states
        self.cov['transitions'] += transitions
        self.cov['traces_validated_against_impl'] += traces
        self.cov['cases'] += cases

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(str(s)[:300])

    def violation(self, key, what, case=None):
        key = ' '.join(str(key).split())
        if key in self._known:
            self.known[key] = self._known[key]
            return
        if any(v['key'] == key for v in self.viol):
            return
        self.viol.append({'key': key, 'what': str(what)[:4000], 'case': case})

    def absorb(self, case, r):
        if 'internal' in r:
            self.internal.append((case, r['internal']))
            return
        self.add(r.get('states', 0), r.get('transitions', 0), r.get('traces', 0), r.get('cases', 1))
        for s in r.get('samples', []):
            self.sample(s)
        for o in r.get('outcomes', []):
            self.outcomes.add(o)
        for v in r.get('viol', []):
            self.violation(v['key'], v['what'], v.get('case', case))

    def run(self, func, cases, timeout=300, wall=False):
        cases = list(cases)
        deadline = None
        if self.tier == 'quick':
            timeout = min(timeout, 240)
            deadline = self.t0 + QUICK_BUDGET
        n = late = 0
        for case, r in pmap(func, cases, timeout, wall=wall, deadline=deadline):
            n += 1
            self.absorb(case, r)
            late += any(v['key'].startswith('timeout ') for v in r.get('viol', []))
            if len(self.viol) > 200 or late >= JOBS:
                break
        if n < len(cases):
            self.skipped += len(cases) - n

    def finish(self, exhaustive=True, bounds=''):
        wall = round(time.time() - self.t0, 2)
        if self.skipped:
            exhaustive = False
            bounds += f'; {self.skipped} cases were not explored (' + ('many violations' if self.viol else 'time') + ')'
        cov = {'exhaustive': exhaustive, 'bounds': bounds, 'samples': self.samples or ['-'],
               'distinct_outcomes': len(self.outcomes)}
        if self.level == 'model_checking':
            cov.update({'states': self.cov['states'], 'transitions': self.cov['transitions'],
                        'traces_validated_against_impl': self.cov['traces_validated_against_impl'],
                        'configurations': self.cov['cases']})
        else:
            cov.update({'evaluations': self.cov['cases'], 'distinct_nontrivial': len(self.outcomes),
                        'rule': self.rule})
        cov.update(self.notes)
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'wall_s': wall, 'violations': len(self.viol), 'assumptions': self.assumptions}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{self.prop}.json'), 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        for k in sorted(self.known):
            print(f'KNOWN-FINDING: property={self.prop} {k} :: {self.known[k]}')
        rc = 0
        if self.internal:
            # the code under test produced something the machinery could not even run through:
            # on the unchanged tree this never happens, so it is reported, with the trace, as a violation
            for c, tb in self.internal[:5]:
                self.viol.append({'key': f'unexpected exception on {c!r}', 'what': tb, 'case': c})
        if self.viol:
            rc = 1
            d = os.path.join(VERIF, 'replay')
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f'{self.prop}.json')
            self.viol.sort(key=lambda v: (len(repr(v['case'])), repr(v['case'])))
            with open(path, 'w') as fh:
                json.dump({'property': self.prop, 'violations': self.viol[:50]}, fh, indent=1, default=str)
            print(f'VIOLATION property={self.prop} replay={path}')
            for v in self.viol[:8]:
                print('  case:', v['case'])
                print('  key: ', v['key'])
                print('  what:', v['what'][:1500])
        print(f'{self.prop} {self.tier}: {len(self.viol)} violation(s), {len(self.known)} known finding(s); '
              f'cases={self.cov["cases"]} states={self.cov["states"]} transitions={self.cov["transitions"]} '
              f'traces={self.cov["traces_validated_against_impl"]} wall={wall}s')
        return rc
