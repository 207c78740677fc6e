"""C15: optimised generated functions compute the same as the default ones (W, dt, eT_z_t, full CC)."""
from collections import Counter
from lib import etz_py, fcc_py, refcc, symt
from lib.fcc_tex import projections
from lib.harness import quiet
from checks import c05, c06


def imports():
    c05.imports(), c06.imports(), etz_py.imports(), fcc_py.imports()


def run_case(case):
    res = {'viol': [], 'samples': [], 'outcomes': [], 'states': 0, 'transitions': 0, 'traces': 0, 'cases': 0}

    def bad(key, what):
        res['viol'].append({'key': key, 'what': what, 'case': case})
    try:
        {'w': case_w, 'dt': case_dt, 'et': case_et, 'fcc': case_fcc}[case[0]](case, res, bad)
    except Exception as e:
        bad(f'{case} raised', repr(e))
    res['states'] = res['transitions'] = res['cases']
    return res


def both(res, bad, tag, f):
    """f(optimized) -> comparable value; a refusal is a value as well"""
    out = []
    for opt in (False, True):
        try:
            out.append(('ok', f(opt)))
        except symt.SymError as e:
            bad(f'{tag} optimized={opt}', f'{e}')
            return
        except Exception as e:
            out.append(('raised', type(e).__name__))
    res['cases'] += 1
    res['traces'] += 1
    res['outcomes'].append((tag.split()[0], out[0][0]))
    if out[0] != out[1]:
        bad(tag, f'default gives {str(out[0])[:700]}\noptimized gives {str(out[1])[:700]}')


def consumed(group, active, what):
    """every path of a group is used exactly once by the equation it was built for, and by no other"""
    todo = [group]
    while todo:
        x = todo.pop()
        if isinstance(x, symt.ContractExpr):
            if x.used != active:
                raise symt.SymError(f"{what}: path '{x.subs}' is used {x.used} times instead of {int(active)}")
        else:
            todo.extend(x)


def case_w(case, res, bad):
    order = case[1]
    ns = symt.load_generated(c05.generate(order))
    for level in range(1, 7):
        for ans in refcc.ANSATZE:
            def f(opt):
                paths = []
                r = c05.evaluate(ns, order, level, ans, opt, paths)
                if opt:
                    for i, user in enumerate((('VE_MIXED', 'VECC'), ('VECC',))):
                        for k in range(1, level + 3):
                            consumed(paths[0][i][k - 1], ans in user, f'W_{k} path list {i}')
                return None if r is None else [None if x is None else x.value() for x in r]
            if order >= level + 2:
                both(res, bad, f'W max_order={order} level={level} ansatz={ans}', f)


def case_dt(case, res, bad):
    order = case[1]
    src = c06.generate(order)
    for k in range(1, order + 1):
        for level in range(1, 7):
            for ans in refcc.ANSATZE:
                def f(opt):
                    paths = []
                    r = c06.evaluate(src, k, level, ans, opt, paths)
                    if opt:
                        # one epsilon path per order that can be solved for, in order (the consumer picks by order)
                        if len(paths[0][0]) != min(level, order):
                            raise symt.SymError(f'{len(paths[0][0])} epsilon paths for {min(level, order)} solvable orders')
                        for i, user in enumerate((refcc.ANSATZE, ('VE_MIXED', 'VECC'), ('VECC',))):
                            for j, group in enumerate(paths[0][i], 1):
                                consumed(group, j == k and ans in user, f'path list {i} of order {j}')
                    return r.value('sym')
                both(res, bad, f'dt max_order={order} order={k} level={level} ansatz={ans}', f)


def case_et(case, res, bad):
    trunc, lhs = tuple(case[1]), case[2]
    H, CC, T_, eT, P = trunc
    ns = symt.load_generated(etz_py.generate(trunc, lhs))
    for n in range(min(P, CC) + 1):
        for hl in range(H + 1):
            for zl in range(CC + 1):
                for tl in (0, 1):
                    for ground in (True, False):
                        both(res, bad, f'eT {"LHS" if lhs else "RHS"} {trunc} n={n} levels={hl},{zl},{tl} ground={ground}',
                             lambda opt: etz_py.evaluate(ns, n, trunc, lhs, (hl, zl, tl), opt, ground).value('sym'))


class NoSubscripts(Exception):
    pass


def case_fcc(case, res, bad):
    """the paths of the full-CC module carry no subscripts (known finding), so a call through such a path is an opaque
    product of its ordered operands; everything else (operands, order, coefficients, gates, number of paths) must agree"""
    trunc = tuple(case[1])
    H, CC, S, P = trunc
    ns = symt.load_generated(fcc_py.generate(trunc))
    ns['np'].zeros = lambda *a, **k: symt.OpaqueR()
    exact = symt.load_generated(fcc_py.generate(trunc))

    def summed(R):
        c = Counter()
        for k, names in R.terms:
            c[names] += k
        return {k: v for k, v in c.items() if v}
    nosub = set()
    for om in projections(CC, P):
        sp = f'm{om[0]}_n{om[1]}'
        for hl in range(H + 1):
            for tl in range(CC + 1):
                for ground in (True, False):
                    tag = f'fcc {trunc} omega={om} levels={hl},{tl} ground={ground}'
                    an = symt.Flags('ansatz', ground_state=ground)
                    fl = fcc_py.flags(hl, tl)

                    def f(opt):
                        h, t = fcc_py.args(H, CC)
                        a = (symt.A, symt.N, an, fl, h, t)
                        if not opt:
                            return summed(ns[f'compute_{sp}_amplitude'](*a))
                        paths = ns[f'compute_{sp}_optimized_paths'](symt.A, symt.N, an, fl)
                        used = []
                        for g in paths[om]:
                            for e in g:
                                if e.subs is None:
                                    nosub.add(om)
                                used.append(Once(e))
                        it = iter(used)
                        wrapped = {om: [[next(it) for _ in g] for g in paths[om]]}
                        r = ns[f'compute_{sp}_amplitude_optimized'](*a, wrapped)
                        if any(u.n != 1 for u in used):
                            raise symt.SymError(f'{sum(u.n != 1 for u in used)} optimised paths are not used exactly once')
                        return summed(r)
                    both(res, bad, tag, f)
    if nosub:
        bad('full cc optimized paths carry no subscripts',
            f'{trunc}: oe.contract_expression is called with shapes only, opt_einsum cannot build such a path')
    # the function that builds all paths at once
    an, fl = symt.Flags('ansatz', ground_state=True), fcc_py.flags(H, CC)
    try:
        allp = exact['compute_all_optimized_paths'](symt.A, symt.N, an, fl)
        if sorted(allp) != projections(CC, P):
            bad(f'fcc {trunc} all paths', f'paths for {sorted(allp)}')
        for om in projections(CC, P):
            one = exact[f'compute_m{om[0]}_n{om[1]}_optimized_paths'](symt.A, symt.N, an, fl)[om]
            if [[(e.subs, e.shapes) for e in g] for g in one] != [[(e.subs, e.shapes) for e in g] for g in allp[om]]:
                bad(f'fcc {trunc} all paths {om}', 'differs from the paths of the projection')
    except Exception as e:
        bad(f'full cc compute_all_optimized_paths raises {type(e).__name__}', f'{trunc}: {e!r}')
    res['samples'].append(f'fcc {trunc}')


class Once:
    def __init__(self, e):
        self.e, self.n = e, 0

    def __call__(self, *ops):
        self.n += 1
        return self.e(*ops)


def cases(tier):
    out = [('w', o) for o in range(1, 7)] + [('dt', o) for o in range(1, 7)]
    big = 4 if tier == 'quick' else 6
    et = {(h, c, 1, e, p) for h in range(1, 4) for c in range(1, 4) for e in range(1, 4) for p in range(1, 4)}
    et |= {(2, c, 1, 2, c) for c in range(1, 7)} | {(h, 2, 1, 2, 2) for h in range(1, 7)}
    if tier != 'quick':
        et |= {(h, c, 1, e, p) for h in range(1, 6) for c in range(1, 6) for e in range(1, 6) for p in range(1, 6)}
    out += [('et', t, lhs) for t in sorted(et) for lhs in (False, True)]
    fc = {(h, c, e, p) for h in range(1, 4) for c in range(1, 4) for e in range(1, 4) for p in range(1, 4)}
    fc |= {(h, 2, 2, 2) for h in range(1, 7)} | {(2, c, 2, c) for c in range(1, 7)} | {(3, 2, big, 2)}
    if tier != 'quick':
        fc |= {(h, c, e, p) for h in range(1, 7) for c in range(1, 5) for e in range(1, 5) for p in range(1, 5)}
    return out + [('fcc', t) for t in sorted(fc)]


def main(chk, tier):
    chk.run(run_case, cases(tier), timeout=800)
    return chk.finish(True, f'all four generator families, lattice of configurations ({tier}), every runtime truncation level')
