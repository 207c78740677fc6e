"""C21: the operator tables and partition lists from which equations are built contain every element exactly once.

Model: partitions are explored as non-increasing prefixes (a transition appends a part), operators as points of the
(m, n) lattice, series terms as words over the operator alphabet.  The lists returned by the real enumeration functions
are compared with the explored elements as multisets.  A function that no longer exists is not judged.
"""
import importlib
import inspect
import itertools as it
from collections import Counter
from lib.harness import quiet

F = {}
NEEDED = [('helper_funcs', n) for n in (
    'unique_permutations', 'generate_partitions_of_n', 'generate_mixed_partitions_of_n',
    'generate_linked_disconnected_partitions_of_n', 'generate_un_linked_disconnected_partitions_of_n',
    'genereate_connected_partitions_of_n', 'build_symmetrizing_function')] + [
    ('latex_full_cc', 'generate_omega_operator'), ('latex_full_cc', 'generate_full_cc_hamiltonian_operator'),
    ('latex_full_cc', 'generate_s_operator'), ('latex_full_cc', 'generate_s_taylor_expansion'),
    ('latex_zhz', 'generate_z_operator'), ('latex_eT_zhz', 'generate_eT_operator'),
    ('latex_eT_zhz', 'generate_eT_taylor_expansion'), ('latex_eT_zhz', 'generate_pruned_H_operator'),
    ('code_residual_equations', 'generate_hamiltonian_operator')]


def imports():
    for mod, name in NEEDED:
        f = getattr(importlib.import_module(mod), name, None)
        if f is not None:
            F[name] = f


def partitions(n):
    """(partitions of n, states, transitions)"""
    done, st, tr, stack = [], 0, 0, [()]
    while stack:
        p = stack.pop()
        st += 1
        left = n - sum(p)
        if not left:
            done.append(p)
            continue
        for x in range(1, min(left, p[-1] if p else left) + 1):
            tr += 1
            stack.append(p + (x,))
    return done, st, tr


def distinct_words(letters):
    """all different orders of a multiset, by choosing the next letter"""
    out, st, stack = [], 0, [((), Counter(letters))]
    while stack:
        w, c = stack.pop()
        st += 1
        if not sum(c.values()):
            out.append(w)
        for x in c:
            if c[x]:
                d = Counter(c)
                d[x] -= 1
                stack.append((w + (x,), +d))
    return out, st


def multiset(x):
    return Counter(tuple(e) for e in x)


def ops(lst):
    """multiset of (rank, m, n)"""
    return Counter((o.rank, o.m, o.n) for o in lst)


def show(got, want):
    return f'missing {sorted((want - got).elements())[:5]}, extra or repeated {sorted((got - want).elements())[:5]}'


def run_case(case):
    what = case[0]
    res = {'viol': [], 'samples': [], 'outcomes': [], 'states': 0, 'transitions': 0, 'traces': 0, 'cases': 0}

    def bad(key, text):
        if len(res['viol']) < 10:
            res['viol'].append({'key': key, 'what': text, 'case': case})

    def call(name, *a, **kw):
        if name not in F:
            return None
        try:
            inspect.signature(F[name]).bind(*a, **kw)
        except TypeError:           # a restructured helper takes something else: not judged
            return None
        try:
            with quiet():
                return F[name](*a, **kw)
        except Exception as e:
            bad(f'{name}{a} raises', repr(e))
            return None

    def compare(name, args, got, want, st=None, tr=None):
        res['cases'] += 1
        res['states'] += sum(want.values()) if st is None else st
        res['transitions'] += sum(want.values()) if tr is None else tr
        res['traces'] += sum(want.values())
        if got != want:
            bad(f'{name}{args}', show(got, want))

    if what == 'partitions':
        n = case[1]
        full, st, tr = partitions(n)
        big = {p: sum(1 for x in p if x > 1) for p in full}
        for name, want in (
                ('generate_partitions_of_n', full),
                ('generate_mixed_partitions_of_n', [p for p in full if big[p] <= 1]),
                ('generate_linked_disconnected_partitions_of_n', [p for p in full if big[p] <= 1 and p != (n,)]),
                ('generate_un_linked_disconnected_partitions_of_n', [p for p in full if big[p] > 1])):
            for again in range(2):
                got = call(name, n)
                if got is not None:
                    compare(name, f'({n}){" second call" if again else ""}', multiset(got), multiset(want), st, tr)
        got = call('genereate_connected_partitions_of_n', n)
        if got is not None and list(got) != [1] * n:
            bad(f'genereate_connected_partitions_of_n({n})', repr(got))
    elif what == 'permutations':
        for p in partitions(case[1])[0]:
            letters = [i for i, k in enumerate(p) for _ in range(k)]
            for order in (letters, letters[::-1]):
                got = call('unique_permutations', order)
                if got is not None:
                    words, st = distinct_words(order)
                    compare('unique_permutations', f'({order})', multiset(got), multiset(words), st, st - 1)
                    if list(got) != sorted(got):
                        bad(f'unique_permutations({order}) unsorted', repr(got)[:200])
    elif what == 'operators':
        k = case[1]
        tri = [(m + n, m, n) for m in range(k + 1) for n in range(k + 1 - m)]
        for p in range(0, 8):
            r = call('generate_omega_operator', k, p)
            if r is not None:
                compare('generate_omega_operator', f'({k}, {p})', ops(r.operator_list), Counter(o for o in tri if o[0] <= p))
                names = {o.name for o in r.operator_list}
                if names != {'d' * m + 'b' * n for t, m, n in tri if t <= p}:
                    bad(f'generate_omega_operator({k}, {p}) names', repr(names))
        for name, want in (('generate_full_cc_hamiltonian_operator', tri), ('generate_hamiltonian_operator', tri),
                           ('generate_pruned_H_operator', [o for o in tri if o[0] < 3 or o[1] == 0]),
                           ('generate_eT_operator', [(n, 0, n) for n in range(1, k + 1)])):
            r = call(name, k)
            if r is not None:
                compare(name, f'({k})', ops(r.operator_list), Counter(want))
                if r.maximum_rank != k:
                    bad(f'{name}({k}) maximum rank', repr(r.maximum_rank))
        for ground in (True, False):
            for name, zero in (('generate_s_operator', False), ('generate_z_operator', True)):
                r = call(name, k, ground)
                if r is not None:
                    want = [o for o in tri if (zero or o[0]) and not (ground and o[2])]
                    compare(name, f'({k}, {ground})', ops(r.operator_list), Counter(want))
                    names = [o.name for o in r.operator_list]
                    if len(set(names)) != len(names):
                        bad(f'{name}({k}, {ground}) names', repr(names))
    elif what == 'series':
        name, k, order, ground = case[1:]
        if name == 's':
            r = call('generate_s_taylor_expansion', k, order, ground)
            alpha = [(m + n, m, n) for m in range(k + 1) for n in range(k + 1 - m) if m + n and not (ground and n)]
            name = 'generate_s_taylor_expansion'
        else:
            r = call('generate_eT_taylor_expansion', k, order)
            alpha = [(n, 0, n) for n in range(1, k + 1)]
            name = 'generate_eT_taylor_expansion'
        if r is not None:
            args = f'({k}, {order}, {ground})'
            if len(r) != order + 1:
                bad(f'{name}{args} length', f'{len(r)} terms')
            else:
                z = r[0][0] if isinstance(r[0], list) else r[0]
                compare(name, f'{args}[0]', ops([z]), Counter([(0, 0, 0)]))
                if order:
                    compare(name, f'{args}[1]', ops(r[1]), Counter(alpha))
                for j in range(2, order + 1):
                    compare(name, f'{args}[{j}]', Counter(tuple((o.rank, o.m, o.n) for o in x) for x in r[j]),
                            Counter(it.product(alpha, repeat=j)))
    elif what == 'symmetrise':
        import numpy as np
        top = case[1]
        src = call('build_symmetrizing_function', top)
        if src is not None:
            ns = {'np': np}
            try:
                exec(compile(src, 'sym', 'exec'), ns)
                rng = np.random.default_rng(7)
                for order in range(0, top + 1):
                    t = rng.integers(0, 1000, (2, 2) + (2,) * order).astype(complex)
                    keep = t.copy()
                    got = ns['symmetrize_tensor'](t, order)
                    want = sum(np.transpose(keep, (0, 1) + p) for p in it.permutations(range(2, 2 + order)))
                    res['cases'] += 1
                    res['states'] += 1
                    res['traces'] += 1
                    if got.shape != keep.shape or not (got == want).all():
                        bad(f'build_symmetrizing_function({top}) order {order}', 'not the sum over all permutations')
                    if not (t == keep).all():
                        bad(f'build_symmetrizing_function({top}) order {order} modifies its argument', '')
            except Exception as e:
                bad(f'build_symmetrizing_function({top})', repr(e))
    res['outcomes'] = [str(case)]
    res['samples'].append(f'{case}: {res["traces"]} elements')
    return res


def main(chk, tier):
    q = tier == 'quick'
    cases = [('partitions', n) for n in range(1, 15 if q else 20)]
    cases += [('permutations', n) for n in range(1, 8 if q else 9)]
    cases += [('operators', k) for k in range(0, 9 if q else 13)]
    for k in range(1, 7):
        for ground in (True, False):
            size = k if ground else k * (k + 3) // 2
            for order in range(1, 9):
                if size ** order <= (60000 if q else 700000):
                    cases.append(('series', 's', k, order, ground))
        for order in range(1, 9):
            if k ** order <= (60000 if q else 700000):
                cases.append(('series', 'eT', k, order, None))
    cases += [('symmetrise', n) for n in range(1, 7)]
    chk.notes['functions judged'] = sorted(F)
    chk.run(run_case, cases, timeout=300)
    return chk.finish(True, 'partitions of 1..14 (thorough 19), all multisets of up to 7 (8) letters, operator ranks 0..8 (12), '
                            'series of rank 1..6 and order 1..8 with up to 60000 (700000) products, symmetriser of order 1..6')
