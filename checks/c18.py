"""C18: a saved truncation file loads back to the same truncations.

Every truncation of the whole supported range (all three kinds) is saved and loaded; the state of the target file
before the save (absent, longer, other kind, garbage), the order of the keys and the way of loading (new dictionary or
in place) are explored for a subset.  Histories of operations over two files are explored against a map from file to
truncations.
"""
import itertools as it
import json
import os
from lib.harness import quiet

MAX = {'H': 6, 'CC': 6, 'S': 6, 'P': 6, 'T': 1, 'eT': 8}
NAME = {'H': 'maximum_hamiltonian_rank', 'CC': 'maximum_coupled_cluster_rank', 'S': 's_taylor_max_order',
        'P': 'omega_max_order', 'T': 'maximum_T_rank', 'eT': 'eT_taylor_max_order'}
KEYS = {'zhz': ('H', 'CC', 'P'), 'fcc': ('H', 'CC', 'S', 'P'), 'eTz': ('H', 'CC', 'T', 'eT', 'P')}


def imports():
    global tkeys, truncations, make_trunc
    import truncations
    from truncation_keys import TruncationsKeys as tkeys
    from lib.trunc import make_trunc as own
    try:
        from driver import _make_trunc as make_trunc
    except ImportError:         # restructured: the command line itself is judged by C19
        make_trunc = own


def enum(ks, vs):
    return {tkeys(NAME[k]): v for k, v in zip(ks, vs)}


def write(text):
    if text is None:
        if os.path.exists('t.json'):
            os.remove('t.json')
    else:
        with open('t.json', 'w') as fh:
            fh.write(text)


def run_case(case):
    what = case[0]
    res = {'viol': [], 'samples': [], 'outcomes': [], 'states': 0, 'transitions': 0, 'traces': 0, 'cases': 0}

    def bad(key, text):
        if len(res['viol']) < 10:
            res['viol'].append({'key': key, 'what': text, 'case': case})

    def tick(n=1):
        res['states'] += 1
        res['transitions'] += n
        res['traces'] += 1

    def trip(d, label, target=None):
        """save d, load it (into target when given)"""
        src = dict(d)
        try:
            with quiet():
                truncations.save_trunc_to_JSON('t.json', d)
        except Exception as e:
            return bad(f'{label}: saving fails with {type(e).__name__}', repr(e))
        if d != src or list(d) != list(src):
            bad(f'{label}: saving changes the dictionary', f'{src} -> {d}')
        text = open('t.json').read()
        try:
            raw = json.loads(text)
        except ValueError as e:
            return bad(f'{label}: the file is not JSON', f'{e!r}: {text!r}')
        if raw != {k.value: v for k, v in src.items()}:
            bad(f'{label}: file content {raw}', f'saved {src}')
        try:
            with quiet():
                if target is None:
                    got = truncations.load_trunc_from_JSON('t.json')
                else:
                    truncations.load_trunc_from_JSON('t.json', target)
                    got = target
        except Exception as e:
            return bad(f'{label}: loading fails with {type(e).__name__}', repr(e))
        if got != src or not all(type(v) is int for v in got.values()):
            bad(f'{label}: loads {got}', f'saved {src}')
        if open('t.json').read() != text:
            bad(f'{label}: loading changes the file', text)
        tick(2)

    if what == 'all':
        kind, v0 = case[1], case[2]
        ks = KEYS[kind]
        for vs in it.product(*[range(1, MAX[k] + 1) for k in ks[1:]]):
            vs = (v0,) + vs
            d = make_trunc(vs)
            if d != enum(ks, vs):
                bad(f'the tuple {vs} becomes {d}', f'expected {enum(ks, vs)}')
            trip(d, f'{kind}{vs}')
    elif what == 'order':
        ks = KEYS[case[1]]
        for perm in it.permutations(ks):
            vs = [min(2 + i, MAX[k]) for i, k in enumerate(perm)]
            trip(enum(perm, vs), f'key order {perm}')
    elif what == 'existing':
        garbage = [None, '', 'x' * 5000, '{"a": 1', json.dumps({NAME[k]: 1 for k in MAX}) + ' ' * 50 + 'tail', '{}\n' * 40]
        for kind, ks in KEYS.items():
            for g in garbage + [json.dumps({NAME[k]: 3 for k in o}) for o in KEYS.values()]:
                for vs in (tuple(1 for _ in ks), tuple(MAX[k] for k in ks)):
                    write(g)
                    trip(enum(ks, vs), f'{kind}{vs} saved over {None if g is None else g[:40]!r}')
    elif what == 'inplace':
        for kind, ks in KEYS.items():
            for kind2, k2 in KEYS.items():
                for vs in it.product(*[(1, MAX[k]) for k in ks]):
                    for vs2 in ([1] * len(k2), [MAX[k] for k in k2]):
                        trip(enum(ks, vs), f'{kind}{vs} loaded in place over {kind2}{tuple(vs2)}', enum(k2, vs2))
        # keys that are no truncation keys (older spellings, names as strings) do not survive a load in place
        strange = [{NAME[k]: 6 for k in KEYS['fcc']}, {'H': 1}, {1: 2, None: 3}, {tkeys(NAME['H']): 'text', NAME['H']: 4},
                   {tkeys(NAME['S']): 9, 'omega': 2}]
        for kind, ks in KEYS.items():
            for x in strange:
                trip(enum(ks, [min(2, MAX[k]) for k in ks]), f'{kind} loaded in place over {x}', dict(x))
    elif what == 'history':
        try:
            with quiet():
                history(case[1], case[2], bad, tick)
        except Exception as e:
            bad(f'history raises {type(e).__name__}', repr(e))
    res['cases'] = res['states']
    res['outcomes'] = [f'{what} {case[1:]}']
    res['samples'].append(f'{case}: {res["states"]} round trips')
    return res


def alphabet():
    d = [enum(KEYS['fcc'], (2, 3, 2, 1)), enum(KEYS['fcc'], (3, 2, 1, 2)), enum(KEYS['zhz'], (2, 2, 3)),
         enum(KEYS['eTz'], (1, 2, 1, 2, 2))]
    return d, ([('save', p, i) for p in 'ab' for i in range(len(d))] + [('load', p) for p in 'ab']
               + [('fill', p) for p in 'ab'] + [('spoil',), ('copy',)])


def history(first, depth, bad, tick):
    """all operation sequences over two files that start with one operation, against a map from file to truncations;
    `spoil` changes what was loaded last, the dictionaries that were saved and those loaded before, which nothing may
    depend on; `copy` puts the text of file a into file b behind the back of the program (a file edited or replaced)"""
    d, ops = alphabet()
    for seq in it.product(ops, repeat=depth - 1):
        seq = (ops[first],) + seq
        if seq[-1][0] not in ('load', 'fill'):
            continue        # nothing is observed after the last load
        files, handed = {}, []
        for p in 'ab':
            if os.path.exists(f'{p}.json'):
                os.remove(f'{p}.json')
        for k, op in enumerate(seq):
            if op[0] in ('load', 'fill') and op[1] not in files or op[0] == 'copy' and 'a' not in files:
                break       # disabled: there is no such file
            if op[0] == 'save':
                mine = dict(d[op[2]])
                truncations.save_trunc_to_JSON(f'{op[1]}.json', mine)
                files[op[1]] = d[op[2]]
                handed.append(mine)
            elif op[0] == 'spoil':
                for x in handed:
                    x.clear()
                    x['spoiled'] = 1
            elif op[0] == 'copy':
                with open('a.json') as fa, open('b.json', 'w') as fb:
                    fb.write(fa.read())
                files['b'] = files['a']
            else:
                got = truncations.load_trunc_from_JSON(f'{op[1]}.json') if op[0] == 'load' else dict(d[1])
                if op[0] == 'fill':
                    truncations.load_trunc_from_JSON(f'{op[1]}.json', got)
                if got != files[op[1]]:
                    bad(f'history {seq[:k + 1]} loads the wrong truncations', f'{got} instead of {files[op[1]]}')
                    break
                handed.append(got)
        else:
            tick(depth)


def main(chk, tier):
    cases = [('all', kind, v) for kind in KEYS for v in range(1, 7)]
    cases += [('order', k) for k in KEYS] + [('existing',), ('inplace',)]
    cases += [('history', i, k) for i in range(len(alphabet()[1])) for k in range(2, 6 if tier == 'quick' else 7)]
    chk.run(run_case, cases, timeout=300)
    return chk.finish(True, 'every truncation of the supported range of the three kinds (3240); all key orders; all states of '
                            'the target file of a list; loading in place over every kind; all histories of save, load, load in place '
                            'and interference over two files up to depth ' + ('5' if tier == 'quick' else '6'))
