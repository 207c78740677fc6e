"""C17: truncations are accepted exactly inside the documented ranges, and refused before anything is written.

Loading a truncation file is decided on the full product of all values from below to above the range and on all key
sets; the generators on all vectors over {-1, 0, 1, max + 1} and all incomplete key sets (refused), and on vectors that
reach every maximum (accepted).
"""
import itertools as it
import json
import os
import signal
from lib import ops
from lib.harness import quiet

MAX = {'H': 6, 'CC': 6, 'S': 6, 'P': 6, 'T': 1, 'eT': 8}
NAME = {'H': 'maximum_hamiltonian_rank', 'CC': 'maximum_coupled_cluster_rank', 'S': 's_taylor_max_order',
        'P': 'omega_max_order', 'T': 'maximum_T_rank', 'eT': 'eT_taylor_max_order'}
KEYS = {'zhz': ('H', 'CC', 'P'), 'fcc': ('H', 'CC', 'S', 'P'), 'eTz': ('H', 'CC', 'T', 'eT', 'P')}
GEN = {'fccL': 'fcc', 'fccP': 'fcc', 'ztL': 'zhz', 'eTL': 'eTz', 'eTP': 'eTz'}


def imports():
    global tkeys, truncations
    ops.imports()
    import truncations
    from truncation_keys import TruncationsKeys as tkeys


def expected(d):
    """is the file content {short key: value} a truncation?"""
    for ks in KEYS.values():
        if set(d) == set(ks):
            return all(type(v) is int and 1 <= v <= MAX[k] for k, v in d.items())
    return False


def load(d):
    with open('t.json', 'w') as fh:
        json.dump({NAME.get(k, k): v for k, v in d.items()}, fh)
    try:
        with quiet():
            return truncations.load_trunc_from_JSON('t.json'), None
    except Exception as e:
        return None, e


class Late(Exception):
    pass


def _late(*a):
    raise Late()


def attempt(kind, t, seconds):
    """(outcome, exception): generate with the dictionary t into an existing file"""
    with open('out', 'w') as fh:
        fh.write('precious')
    before = sorted(os.listdir('.'))
    kw = {'only_ground_state': True, 'remove_f_terms': False, 'path': './out', 'lhs_rhs': 'RHS'}
    old = signal.signal(signal.SIGALRM, _late)
    left = signal.alarm(seconds)
    try:
        with quiet():
            ops.M[kind](t, **kw)
        r = ('accepted', None)
    except Late:
        r = ('started', None)
    except Exception as e:
        r = ('refused', e)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        signal.alarm(max(1, left - 1) if left else 0)
    now = open('out').read() if os.path.exists('out') else None
    new = [f for f in os.listdir('.') if f not in before]
    if r[0] == 'refused' and (now != 'precious' or new):
        r = ('refused after writing', r[1])
    if r[0] == 'accepted' and (now == 'precious' or not now):
        r = ('nothing written', None)
    return r


ODD = (1.5, 2.0, 0.5, float('inf'), '2', '', None, [], [1], -7, 9, 10, 11, 16, 100, 10 ** 20)
ACCIDENT = (AttributeError, NameError, UnboundLocalError, RecursionError, MemoryError)


def run_case(case):
    what = case[0]
    res = {'viol': [], 'samples': [], 'outcomes': [], 'states': 0, 'transitions': 0, 'traces': 0, 'cases': 0}

    def bad(key, text):
        if len(res['viol']) < 10:
            res['viol'].append({'key': key, 'what': text, 'case': case})

    def one_load(d):
        got, e = load(d)
        res['states'] += 1
        res['transitions'] += 1
        res['traces'] += 1
        if expected(d):
            want = {tkeys(NAME[k]): v for k, v in d.items()}
            if got != want:
                bad(f'load of {d} gives {got}', f'expected {want}; {e!r}')
            res['outcomes'].append('accepted')
        else:
            if e is None:
                bad(f'load of {d} is not refused', f'gives {got}')
            elif isinstance(e, ACCIDENT):
                bad(f'load of {d} fails with {type(e).__name__}', repr(e))
            # the same into a dictionary that holds something already
            mine = {tkeys(NAME[k]): 1 for k in KEYS['zhz']}
            keep = dict(mine)
            res['transitions'] += 1
            try:
                with quiet():
                    truncations.load_trunc_from_JSON('t.json', mine)
                bad(f'load of {d} into a dictionary is not refused', f'gives {mine}')
            except Exception:
                if mine != keep:
                    bad(f'refused load of {d} changes the dictionary', f'{keep} became {mine}')
            res['outcomes'].append('refused')
    if what == 'values':                        # one key set, all values, the first one fixed
        kind, v0 = case[1], case[2]
        ks = KEYS[kind]
        for vs in it.product(*[range(-1, MAX[k] + 2) for k in ks[1:]]):
            one_load(dict(zip(ks, (v0,) + vs)))
            if res['viol'] and len(res['viol']) >= 10:
                break
    elif what == 'keys':                        # all key sets, in two orders, with and without a foreign key
        for n in range(0, 7):
            for ks in it.combinations(MAX, n):
                for extra in (None, 'maximum_rank', 'H', ''):
                    if extra is not None:
                        one_load({**{k: 1 for k in ks}, extra + ' ': 1})
                    else:
                        one_load({k: 1 for k in ks})
                        one_load({k: 1 for k in reversed(ks)})
        for kind, ks in KEYS.items():
            for k in ks:
                for v in ODD:
                    one_load({**{x: 1 for x in ks}, k: v})
    elif what == 'refuse':                      # one generator, all vectors with a value out of range
        kind, v0 = case[1], case[2]
        ks = KEYS[GEN[kind]]
        vals = [range(-1, MAX[k] + 2) if len(case) > 3 else (-1, 0, 1, MAX[k], MAX[k] + 1) for k in ks]
        for vs in it.product(*vals[1:]):
            d = dict(zip(ks, (v0,) + vs))
            if expected(d):
                continue
            r, e = attempt(kind, {tkeys(NAME[k]): v for k, v in d.items()}, 20)
            res['states'] += 1
            res['transitions'] += 1
            res['traces'] += 1
            if r != 'refused':
                bad(f'{kind} with {d}: {r}', f'a value out of range is not refused up front ({e!r})')
            elif isinstance(e, ACCIDENT):
                bad(f'{kind} with {d} fails with {type(e).__name__}', repr(e))
            if len(res['viol']) >= 3:
                break
        res['outcomes'].append('refused')
    elif what == 'odd':                         # one generator, one value that is far out or no integer at all
        kind = case[1]
        ks = KEYS[GEN[kind]]
        for k in ks:
            for v in ODD:
                d = {**{x: 1 for x in ks}, k: v}
                r, e = attempt(kind, {tkeys(NAME[x]): y for x, y in d.items()}, 20)
                res['states'] += 1
                res['transitions'] += 1
                res['traces'] += 1
                if r != 'refused':
                    bad(f'{kind} with {d}: {r}', f'not refused up front ({e!r})')
                elif isinstance(e, ACCIDENT):
                    bad(f'{kind} with {d} fails with {type(e).__name__}', repr(e))
        res['outcomes'].append('refused')
    elif what == 'incomplete':
        kind = case[1]
        ks = KEYS[GEN[kind]]
        trials = [{tkeys(NAME[k]): 1 for k in sub} for n in range(len(ks)) for sub in it.combinations(ks, n)]
        trials += [{**{tkeys(NAME[k]): 1 for k in ks}, x: 1} for x in ('nonsense', '', 7, None, (1,))]
        for t in trials:
            r, e = attempt(kind, t, 20)
            res['states'] += 1
            res['transitions'] += 1
            res['traces'] += 1
            if r != 'refused':
                bad(f'{kind} with keys {[getattr(k, "name", k) for k in t]}: {r}', f'not refused up front ({e!r})')
            elif isinstance(e, ACCIDENT):
                bad(f'{kind} with keys {[getattr(k, "name", k) for k in t]} fails with {type(e).__name__}', repr(e))
        res['outcomes'].append('refused')
    elif what == 'accept':
        kind, d = case[1], dict(case[2])
        r, e = attempt(kind, {tkeys(NAME[k]): v for k, v in d.items()}, 250)
        res['states'] += 1
        res['transitions'] += 1
        res['traces'] += 1
        if r != 'accepted':
            bad(f'{kind} with {d}: {r}', f'a valid truncation is not generated ({e!r})')
        res['outcomes'].append('accepted')
    res['cases'] = res['states']
    res['outcomes'] = sorted(set(res['outcomes']))
    res['samples'].append(f'{case}: {res["states"]} truncations')
    return res


def main(chk, tier):
    cases = [('values', kind, v) for kind in KEYS for v in range(-1, MAX['H'] + 2)]
    cases.append(('keys',))
    for kind, ty in GEN.items():
        ks = KEYS[ty]
        cases += ([('refuse', kind, v) for v in (-1, 0, 1, MAX['H'], MAX['H'] + 1)] if tier == 'quick' else
                  [('refuse', kind, v, 'full') for v in range(-1, MAX['H'] + 2)])
        cases.append(('incomplete', kind))
        cases.append(('odd', kind))
        acc = {tuple((k, 1) for k in ks)}
        for j in ks:
            for v in range(1, MAX[j] + 1):
                acc.add(tuple((k, v if k == j else 1) for k in ks))
        top = (2 if ty != 'zhz' else 3) if tier == 'quick' else (3 if ty != 'zhz' else 5)
        acc |= {tuple(zip(ks, v)) for v in it.product(*[range(1, min(top, MAX[k]) + 1) for k in ks])}
        cases += [('accept', kind, a) for a in sorted(acc)]
    chk.run(run_case, cases, timeout=800)
    return chk.finish(True, 'loading: the full product of all values from -1 to max+1 of the three key sets, all 64 key sets, '
                            'foreign keys; generators: all vectors over {-1,0,1,max,max+1} with a value out of range, all '
                            'incomplete key sets, values that are no integers; accepted: every value of every truncation (others 1), all '
                            'vectors over the small values')
