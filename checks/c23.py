"""C23: every printed equation is announced by its projection operator, under its rank heading, with its derivative.

A document is read as a sequence of events (preamble, heading of a rank, note, announcement of a projection with its
left-hand sides, end).  The model is the lattice of projection operators of the truncation, walked rank by rank; the
events have to be a walk through it that visits every projection exactly once.
"""
import re
from lib import latexp
from lib.fcc_tex import projections
from lib.harness import quiet

E = latexp.LatexError
RANKS = ('Linear', 'Quadratic', 'Cubic', 'Quartic', 'Quintic', 'Sextic')
EVENT = re.compile(r'\\(?:sub)*(?:section|paragraph)\*?\{(\w+)[ ~]+[Ee]quations\}'
                   r'|\\hat\{\\Omega\}\s*=\s*((?:\\(?:up|down)\{\w\})+|1)\s*(?=\n|$)')


def imports():
    global F, Z, X, W, make_trunc
    import latex_full_cc as F
    import latex_zhz as Z
    import latex_eT_zhz as X
    import latex_w_equations as W
    from lib.trunc import make_trunc


def generate(kind, trunc, ground, remove_f, path):
    t = make_trunc(list(trunc))
    with quiet():
        if kind == 'f':
            F.generate_full_cc_latex(t, only_ground_state=ground, remove_f_terms=remove_f, path=path)
        elif kind == 'z':
            Z.generate_z_t_symmetric_latex(t, only_ground_state=ground, remove_f_terms=remove_f, path=path)
        else:
            X.generate_eT_z_t_symmetric_latex(t, only_ground_state=ground, remove_f_terms=remove_f, path=path,
                                              lhs_rhs='RHS' if kind == 'eR' else 'LHS')


def expected(kind, trunc):
    if kind == 'f':
        H, CC, S, P = trunc
    elif kind == 'z':
        H, CC, P = trunc
    else:
        H, CC, T, eT, P = trunc
    om = projections(CC, P)
    return {o for o in om if o[0] == 0} if kind[0] == 'e' else set(om)


def omega_labels(s):
    return re.findall(r'\\(up|down)\{(\w)\}', s)


def check_equation(kind, om, ops, body):
    """messages about the left-hand sides of one announced equation"""
    m, n = om
    labs = {x for _, x in ops}
    out = []
    if kind == 'f':
        lhs = latexp.evaluate(latexp.between(body, r'LHS &=', r'\\ RHS'))
        for c, s, f in lhs:
            got = [x for t in f for x in t.up + t.low]
            if set(got) != labs or len(got) != m + n:
                out.append(f'left-hand side product with labels {"".join(got)}, projection has {"".join(sorted(labs))}')
            if m == 0 or n == 0:
                up = [x for t in f for x in t.up]
                if set(up) != (labs if n else set()):
                    out.append(f'left-hand side product with upper labels {"".join(up)}')
        if om != (0, 0) and not any(len(f) == 1 and f[0].d and f[0].name == 't' for _, _, f in lhs):
            out.append('no derivative of the amplitude itself')
        return out
    eq, _, rest = body.partition(r'\end{equation}')
    l, _, g = eq.partition('=')
    d = latexp.evaluate(l)
    g = latexp.evaluate(g.replace(r'\hat{G}', r'\bG'))
    sides = [('i dt/dtau', d, 't', ('i',)), ('G', g, 'G', ())]
    if kind != 'eL':
        sides.append(('i dz/dtau', latexp.evaluate(latexp.between(rest, r'LHS &=', r'\\ RHS')), 'z', ('i',)))
    for what, e, name, i in sides:
        if len(e) != 1 or e[0][0] != 1 or e[0][1] != i or len(e[0][2]) != 1:
            out.append(f'{what} is not a single term')
            continue
        t = e[0][2][0]
        if t.name != name or t.d != bool(i):
            out.append(f'{t} instead of {what}')
        if set(t.up + t.low) != labs or len(t.up + t.low) != m + n:
            out.append(f'{what} carries {"".join(t.up + t.low)}, projection has {"".join(sorted(labs))}')
        if name != 'z' and (len(t.up), len(t.low)) != (n, m):
            out.append(f'{what} has {len(t.up)} upper and {len(t.low)} lower labels')
    return out


def run_doc(case):
    kind, trunc, ground, remove_f = case[0], tuple(case[1]), bool(case[2]), bool(case[3])
    res = {'viol': [], 'samples': [], 'outcomes': [], 'states': 0, 'transitions': 0, 'traces': 1, 'cases': 1}
    head = f'{kind} {trunc} ground={ground} remove_f={remove_f}'

    def bad(key, what):
        res['viol'].append({'key': f'{kind} {key}', 'what': f'{head}: {what}', 'case': case})
    try:
        generate(kind, trunc, ground, remove_f, 'd.tex')
    except NotImplementedError as e:
        # the limits of the generators: full CC condenses linked terms for ranks 2 and 3 only, the others have no excited states
        if (min(trunc[1], trunc[-1]) < 4) if kind == 'f' else ground:
            bad('generation', f'refused: {e!r}')
        res['outcomes'].append('refused')
        return res
    except Exception as e:
        bad('generation', f'failed: {e!r}')
        return res
    tex = latexp.strip_comments(open('d.tex').read())
    pre, _, body = tex.partition(r'\clearpage')
    if not body:
        bad('no equations', 'no \\clearpage between the definitions and the equations')
        return res
    # ---- preamble: operators that the equations use
    m = re.search(r'\\bs\(q\)\s*=([^\n]*)', pre)
    ann = bool(m and re.search(r'\\bs_\{i\}', m.group(1)))
    cre = bool(m and re.search(r'\\bs\^\{i\}', m.group(1)))
    if not cre or ann == ground:
        bad(f'definition of s for ground={ground}', f'the document defines s(q) ={m and m.group(1)}')
    if kind != 'f' and bool(re.search(r'terms with a \$f\$ prefactor have been removed', tex)) != remove_f:
        bad(f'note for remove_f={remove_f}', 'the note about removed terms does not match the request')
    # ---- walk
    want = expected(kind, trunc)
    top = max(a + b for a, b in want)
    rank, seen, ends = 0, {}, []
    evs = list(EVENT.finditer(body))
    for i, e in enumerate(evs):
        res['transitions'] += 1
        end = evs[i + 1].start() if i + 1 < len(evs) else len(body)
        if e.group(1):
            name = e.group(1).capitalize()
            if name not in RANKS:
                bad(f'heading {name}', 'unknown heading')
                continue
            r = RANKS.index(name) + 1
            if r != rank + 1:
                bad(f'heading {name} after rank {rank}', f'heading of rank {r} follows rank {rank}')
            rank = r
            continue
        ops = omega_labels(e.group(2))
        om = (sum(o == 'up' for o, _ in ops), sum(o == 'down' for o, _ in ops))
        res['states'] += 1
        if len({x for _, x in ops}) != len(ops):
            bad(f'omega={om} labels', f'a label appears twice in {e.group(2)}')
        if sum(om) != rank:
            bad(f'omega={om} under rank {rank}', f'projection {e.group(2)} stands under the heading of rank {rank}')
        if om in seen:
            bad(f'omega={om} twice', f'projection {e.group(2)} announced twice')
        seen[om] = e.group(2)
        try:
            for w in check_equation(kind, om, ops, body[e.end():end]):
                bad(f'omega={om} {w}', f'projection {e.group(2)}: {w}')
        except (E, ValueError) as x:
            bad(f'omega={om} cannot be read: {x}', f'projection {e.group(2)}: {x!r}')
    for om in sorted(want ^ set(seen)):
        bad(f'omega={om} ' + ('missing' if om in want else 'not requested'),
            'projection ' + ('is not announced' if om in want else f'{seen[om]} is beyond the truncation'))
    if rank != top:
        bad(f'last rank {rank} of {top}', f'headings end at rank {rank}, projections at {top}')
    res['outcomes'].append((kind, len(seen)))
    if trunc[1] <= 2:
        res['samples'].append(f'{head}: {len(evs)} events, projections {sorted(seen)}')
    return res


def run_w(case):
    """the excited W operator documents name the order they were requested for"""
    n = case[1]
    res = {'viol': [], 'samples': [], 'outcomes': [], 'states': 1, 'transitions': 1, 'traces': 1, 'cases': 1}
    f = 'excited_state_w_equations_latex'      # the ground-state document does not name its rank
    try:
        with quiet():
            getattr(W, f)(n, path='w.tex')
    except Exception as e:
        res['viol'].append({'key': f'w {f} n={n}', 'what': f'failed: {e!r}', 'case': case})
        return res
    got = re.findall(r'maximum rank of W operator is:\s*(\d+)', open('w.tex').read())
    if got != [str(n)]:
        res['viol'].append({'key': f'w {f} rank', 'what': f'requested {n}, the document names {got}', 'case': case})
    return res


def run_case(case):
    return run_w(case) if case[0] == 'w' else run_doc(case)


def cases(tier):
    k = 3 if tier == 'quick' else 4
    R, B = range(1, k + 1), (True, False)
    out = set()
    for g in B:
        for f in B:
            out |= {('f', (1, c, 1, p), g, f) for c in range(1, 7) for p in range(1, 7)}
            out |= {('f', (h, c, s, p), g, f) for h in R for c in R for s in range(1, 3) for p in R}
    for f in B:
        out |= {('z', (h, c, p), True, f) for h in (R if tier == 'quick' else range(1, 7)) for c in range(1, 7) for p in range(1, 7)}
        for kind in ('eR', 'eL'):
            out |= {(kind, (1, c, 1, 1, p), True, f) for c in range(1, 7) for p in range(1, 7)}
            out |= {(kind, (h, c, 1, e, p), True, f) for h in (1, 2) for c in R for e in R for p in R}
    return sorted(out) + [('w', n) for n in range(1, 5)]


def main(chk, tier):
    chk.run(run_case, cases(tier), timeout=600)
    return chk.finish(True, f'every document of the lattice ({tier}): full CC (ground and excited), z_t, eT_z_t (both sides), '
                            'CC and P in 1..6, with and without f terms; excited W documents of rank 1..4')
