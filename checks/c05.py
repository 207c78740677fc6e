"""C05: generated W-operator module computes the truncated exponential, for every order, level, ansatz."""
from lib import symt, refcc
from lib.harness import quiet


def imports():
    global G
    import code_w_equations as G


def generate(order):
    with quiet():
        G.generate_w_operator_equations_file(order, path='w.py')
    return open('w.py').read()


def evaluate(ns, order, level, ans, optimized, paths=None):
    """returns list of w_k (None or T), calling only what a user of the module calls"""
    tr = symt.Flags('truncation', **refcc.flags(level))
    an = refcc.ansatz(ans)
    t_args = tuple(refcc.amp('t', n) for n in range(1, 7))
    before = [t.value() for t in t_args]
    if order >= level + 2:
        if optimized:
            p1 = ns['compute_optimized_vemx_paths'](symt.A, symt.N, tr)
            p2 = ns['compute_optimized_vecc_paths'](symt.A, symt.N, tr)
            r = ns['compute_w_operators_optimized'](symt.A, symt.N, t_args, an, tr, p1, p2)
            if paths is not None:
                paths.append((p1, p2))
        else:
            r = ns['compute_w_operators'](symt.A, symt.N, t_args, an, tr)
        r = list(r)
    else:
        r = None
    if [t.value() for t in t_args] != before:
        raise symt.SymError('the amplitudes passed in were modified')
    return r


def run_case(case):
    order, optimized = case
    res = {'viol': [], 'samples': [], 'outcomes': [], 'states': 0, 'transitions': 0, 'traces': 0, 'cases': 0}

    def bad(key, what):
        res['viol'].append({'key': key, 'what': what, 'case': case})
    try:
        ns = symt.load_generated(generate(order))
    except Exception as e:
        bad(f'order={order} generation', f'generating or importing the W module failed: {e!r}')
        return res
    for level in range(1, 5):
        if order < level + 2:
            continue
        for ans in refcc.ANSATZE:
            tag = f'max_order={order} level={level} ansatz={ans} optimized={optimized}'
            res['cases'] += 1
            try:
                got = evaluate(ns, order, level, ans, optimized)
            except Exception as e:
                bad(tag, f'evaluating the generated module raised {e!r}')
                continue
            if got is None:
                continue
            if len(got) != 6:
                bad(tag, f'{len(got)} operators returned, expected 6')
                continue
            for k in range(1, 7):
                g = got[k - 1]
                if k > level + 2:
                    if g is not None:
                        bad(f'{tag} W_{k}', 'operator beyond the truncation is not None')
                    continue
                want, st, tr, n = refcc.w_value(k, level, ans)
                res['states'] += st
                res['transitions'] += tr
                res['traces'] += n
                if not isinstance(g, symt.T) or g.kinds != ('A', 'A') + ('N',) * k:
                    bad(f'{tag} W_{k}', f'wrong result {g!r}')
                    continue
                if k > 1 and not g.sym and g.terms:
                    bad(f'{tag} W_{k}', 'operator not symmetrised')
                d = refcc.diff(g.value('sym'), want)
                for key, a, b in d[:5]:
                    bad(f'{tag} W_{k} {refcc.show(key)}', f'coefficient {a}, theory {b}')
                res['outcomes'].append((k, level, ans, len(want)))
                if len(res['samples']) < 2:
                    res['samples'].append(f'{tag} W_{k}: {n} products equal')
    # the individual order functions, when present, at every level (they are what the driver of the
    # simulation uses for operators above the master function's cut)
    suffix = '_optimized' if optimized else ''
    for k in range(1, order + 1):
        f = ns.get(f'_calculate_order_{k}_w_operator{suffix}')
        if f is None:
            continue
        for level in range(1, 7):
            for ans in refcc.ANSATZE:
                tr = symt.Flags('truncation', **refcc.flags(level))
                an = refcc.ansatz(ans)
                t_args = tuple(refcc.amp('t', n) for n in range(1, 7))
                tag = f'max_order={order} level={level} ansatz={ans} optimized={optimized} single W_{k}'
                res['cases'] += 1
                try:
                    if optimized:
                        if level + 2 < k:
                            continue
                        p1 = ns['compute_optimized_vemx_paths'](symt.A, symt.N, tr)
                        p2 = ns['compute_optimized_vecc_paths'](symt.A, symt.N, tr)
                        g = f(symt.A, symt.N, t_args, an, tr, p1[k - 1] if k <= len(p1) else [], p2[k - 1] if k <= len(p2) else [])
                    else:
                        g = f(symt.A, symt.N, t_args, an, tr)
                except Exception as e:
                    bad(tag, f'raised {e!r}')
                    continue
                want, st, trn, n = refcc.w_value(k, level, ans)
                res['states'] += st
                res['transitions'] += trn
                res['traces'] += n
                for key, a, b in refcc.diff(g.value('sym'), want)[:5]:
                    bad(f'{tag} {refcc.show(key)}', f'coefficient {a}, theory {b}')
    return res


def main(chk, tier):
    chk.run(run_case, [(o, opt) for o in range(1, 7) for opt in (False, True)])
    return chk.finish(True, 'generated max order 1..6 x truncation level 1..6 x 3 ansatze x default/optimized')
