"""C22: generated modules define every name they use exactly once and refuse runtime truncations they cannot serve."""
import ast
import builtins
import dis
import sys
import types
from lib import etz_py, fcc_py, refcc, symt
from checks import c05, c06, c07

PROGRAMMING = (symt.SymError, NameError, AttributeError, TypeError, IndexError, KeyError, UnboundLocalError)
TAGS = refcc.LEVELS


class Refused(Exception):
    pass


class Guard(symt.Flags):
    """truncation object whose confirm_at_least_X raises when X is not kept"""
    def __init__(self, level, **flags):
        super().__init__('truncation', **flags)
        object.__setattr__(self, 'level', level)

    def __getattr__(self, k):
        if k.startswith('confirm_at_least_'):
            tag = k[len('confirm_at_least_'):]
            if tag not in TAGS:
                raise symt.SymError(f'no method {k}')

            def f():
                if TAGS.index(tag) + 1 > self.level:
                    raise Refused(tag)
            return f
        return super().__getattr__(k)


def imports():
    for m in (c05, c06, c07, etz_py, fcc_py):
        m.imports()


def source(case):
    kind = case[0]
    if kind == 'w':
        return c05.generate(case[1])
    if kind == 'dt':
        return c06.generate(case[1])
    if kind == 'res':
        return c07.generate(case[1], case[2])
    if kind == 'et':
        return etz_py.generate(tuple(case[1]), case[2])
    return fcc_py.generate(tuple(case[1]), case[2])


def names(case, src, ns, res, bad):
    """explore the module's reference graph: functions are nodes, every global name a function loads is an edge"""
    tree = ast.parse(src)
    seen = set()
    own = set()
    for node in tree.body:
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            if node.name in seen:
                bad(f'{case} {node.name} defined twice', 'the first definition can never be called')
            seen.add(node.name)
            own.add(node.name)
        elif isinstance(node, ast.Import):
            for a in node.names:
                if a.name.split('.')[0] not in sys.stdlib_module_names | {'numpy', 'opt_einsum'}:
                    bad(f'{case} import {a.name}', 'not part of the generated package or its requirements')
        elif isinstance(node, ast.ImportFrom) and not node.level:
            if node.module.split('.')[0] not in sys.stdlib_module_names | {'numpy', 'opt_einsum'}:
                bad(f'{case} import {node.module}', 'not part of the generated package or its requirements')

    def loads(co):
        for i in dis.get_instructions(co):
            if i.opname in ('LOAD_GLOBAL', 'LOAD_NAME'):
                yield i.argval
        for k in co.co_consts:
            if isinstance(k, types.CodeType):
                yield from loads(k)
    allowed = set()
    if case[0] == 'w':      # the master function names all six orders; calling an order that was not generated raises
        allowed = {f'_calculate_order_{k}_w_operator{s}' for k in range(case[1] + 1, 7) for s in ('', '_optimized')}
    for name in sorted(own):
        f = ns.get(name)
        if not isinstance(f, types.FunctionType):
            continue
        res['states'] += 1
        for g in sorted(set(loads(f.__code__))):
            res['transitions'] += 1
            if g not in ns and not hasattr(builtins, g) and g not in allowed:
                bad(f'{case} {name} uses undefined {g}', 'calling the function raises NameError')


def guard(res, bad, tag, accept, f):
    res['cases'] += 1
    res['traces'] += 1
    try:
        f()
        out = 'accepted'
    except PROGRAMMING as e:
        bad(tag, f'raised {e!r}')
        return
    except Exception as e:
        out = 'refused'
        why = e
    res['outcomes'].append((tag.split()[0], out))
    if accept and out != 'accepted':
        bad(tag, f'a sufficient truncation was refused: {why!r}')
    if not accept and out != 'refused':
        bad(tag, 'a truncation the function cannot serve was accepted')


def levels(level):
    return {t: i < level for i, t in enumerate(TAGS)}


def run_case(case):
    res = {'viol': [], 'samples': [], 'outcomes': [], 'states': 0, 'transitions': 0, 'traces': 0, 'cases': 1}

    def bad(key, what):
        res['viol'].append({'key': key, 'what': what, 'case': case})
    try:
        src = source(case)
        ns = symt.load_generated(src)
    except Exception as e:
        bad(f'{case} generation', f'generating or importing failed: {e!r}')
        return res
    names(case, src, ns, res, bad)
    A, N = symt.A, symt.N
    kind = case[0]
    if kind == 'w' and case[1] == 6:
        full = Guard(6, **refcc.flags(6))
        p1, p2 = ns['compute_optimized_vemx_paths'](A, N, full), ns['compute_optimized_vecc_paths'](A, N, full)
        for level in range(0, 7):
            for ans in refcc.ANSATZE:
                kw = dict(levels(level), cc_truncation_order=str(level))
                tr, an = Guard(level, **kw), refcc.ansatz(ans)
                t = tuple(refcc.amp('t', n) for n in range(1, 7))
                ok = 1 <= level <= 4            # quintuples need W_7, which does not exist
                guard(res, bad, f'W level={level} ansatz={ans}', ok, lambda: ns['compute_w_operators'](A, N, t, an, tr))
                if level:
                    q1, q2 = ns['compute_optimized_vemx_paths'](A, N, tr), ns['compute_optimized_vecc_paths'](A, N, tr)
                else:
                    q1, q2 = p1, p2
                guard(res, bad, f'W level={level} ansatz={ans} optimized', ok,
                      lambda: ns['compute_w_operators_optimized'](A, N, t, an, tr, q1, q2))
    elif kind == 'res':
        for p in range(case[1] + 1):
            for level in range(0, 7):
                for quad in (False, True):
                    kw = dict(levels(level), cc_truncation_order=str(level), quadratic=quad)
                    h = tuple(c07.h_atom(m, n) for m, n in c07.HN)
                    w = tuple(refcc.amp('w', k) for k in range(1, 9))
                    guard(res, bad, f'residual order={p} level={level} quadratic={quad}', level >= max(p, 1),
                          lambda: ns[f'calculate_order_{p}_residual'](A, N, Guard(level, **kw), h, w))
    elif kind == 'et':
        trunc, lhs = tuple(case[1]), case[2]
        H, CC, T_, eT, P = trunc
        for n in range(min(P, CC) + 1):
            for hz in ((0, 0, 0), (H, CC, 1)):
                for level in range(0, 7):
                    for opt in (False, True):
                        t, h, z, dz = etz_py.amp_args(H, CC, lhs)
                        fl = Guard(level, **etz_py.trunc_flags(*hz)._f)
                        a = (A, N, symt.Flags('ansatz', ground_state=True), fl) + ((t, h, z, dz) if lhs else (t, h, z))
                        if opt:
                            a += ((etz_py._Paths(), etz_py._Paths()),)
                        guard(res, bad, f'eT {"LHS" if lhs else "RHS"} n={n} level={level} optimized={opt}', level >= max(n, 1),
                              lambda: ns[f'compute_m0_n{n}_amplitude' + ('_optimized' if opt else '')](*a))
    elif kind == 'fcc' and case[2]:
        trunc = tuple(case[1])
        H, CC, S, P = trunc
        an = symt.Flags('ansatz', ground_state=True)
        from lib.fcc_tex import projections
        for om in projections(CC, P):
            sp = f'm{om[0]}_n{om[1]}'
            for level in range(0, 7):
                def fl():
                    return Guard(level, **fcc_py.flags(min(level, H), level)._f)
                h, t = fcc_py.args(H, CC)
                h = fcc_py.Args(h)
                # amplitudes above CC do not exist in this module; a larger runtime truncation is the same as CC
                guard(res, bad, f'fcc omega={om} level={level}', level >= 1,
                      lambda: ns[f'compute_{sp}_amplitude'](A, N, an, Guard(level, **fcc_py.flags(H, min(level, CC))._f), h, t))
                guard(res, bad, f'fcc-paths omega={om} level={level}', level >= 1,
                      lambda: ns[f'compute_{sp}_optimized_paths'](A, N, an, Guard(level, **fcc_py.flags(H, min(level, CC))._f)))
    if len(res['samples']) < 2:
        res['samples'].append(f'{case}: {res["states"]} functions closed under reference, {res["cases"] - 1} guarded calls')
    return res


def cases(tier):
    out = [('w', o) for o in range(7)] + [('dt', o) for o in range(7)] + [('res', o, r) for o in range(7) for r in range(3)]
    k = 3 if tier == 'quick' else 5
    et = {(h, c, 1, e, p) for h in range(1, k) for c in range(1, k) for e in range(1, k) for p in range(1, k)}
    et |= {(1, c, 1, 1, p) for c in range(1, 7) for p in range(1, 7)} | {(h, 1, 1, 1, 1) for h in range(1, 7)}
    et |= {(1, 2, 1, e, 2) for e in range(1, 9)}
    out += [('et', t, lhs) for t in sorted(et) for lhs in (False, True)]
    fc = {(h, c, s, p) for h in range(1, k) for c in range(1, k) for s in range(1, k) for p in range(1, k)}
    fc |= {(1, c, 1, p) for c in range(1, 7) for p in range(1, 7)} | {(h, 1, s, 1) for h in range(1, 7) for s in range(1, 7)}
    out += [('fcc', t, g) for t in sorted(fc) for g in (True, False)]
    return out


def main(chk, tier):
    chk.run(run_case, cases(tier), timeout=600)
    return chk.finish(True, f'every generated module of the lattice ({tier}): all functions x all names they load; all amplitude '
                            'functions x runtime truncation level 0..6')
