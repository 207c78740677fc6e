"""C10: eT_z_t LaTeX equations print every Wick contraction exactly once, with consistent labels and coefficient."""
from fractions import Fraction
from math import factorial
from lib import latexp, ref_etz
from lib.harness import quiet


def imports():
    global G, make_trunc
    import latex_eT_zhz as G
    from lib.trunc import make_trunc


def generate(trunc, lhs, remove_f):
    with quiet():
        G.generate_eT_z_t_symmetric_latex(make_trunc(trunc), only_ground_state=True, remove_f_terms=remove_f,
                                          lhs_rhs='LHS' if lhs else 'RHS', path='e.tex')
    return open('e.tex').read()


def classify(syms, tensors, n, lhs):
    """class (hm, hn, zm, eh, ez, a, b) of one printed product; raises LatexError if its labels do not close"""
    E = latexp.LatexError
    ts = [x for x in tensors if x.name == ('s' if lhs else 't') and not x.d]
    hs = [x for x in tensors if (x.name == 't' and x.d if lhs else x.name == 'h')]
    zs = [x for x in tensors if x.name == 'z']
    if len(ts) + len(hs) + len(zs) != len(tensors):
        raise E('unexpected factor')
    if len(zs) != 1:
        raise E('not exactly one z')
    z = zs[0]
    if lhs:
        if z.d:
            if hs:
                raise E('two derivatives in one term')
            h = latexp.Tensor('t', True, (), ())
        else:
            if len(hs) != 1:
                raise E('no derivative in the term')
            h = hs[0]
        if syms.count('i') != 1:
            raise E('derivative without its factor i')
    else:
        if len(hs) != 1 or z.d:
            raise E('not exactly one h')
        h = hs[0]
    if z.low:
        raise E('z with annihilation labels')
    for t in ts:
        if t.up or len(t.low) != 1:
            raise E(f't must carry one annihilation label, has {t.up} {t.low}')
    lows = [t.low[0] for t in ts] + list(h.low)
    ups = list(h.up) + list(z.up)
    if len(set(lows)) != len(lows):
        raise E('an annihilation label is used twice')
    if len(set(ups)) != len(ups):
        raise E('a creation label is used twice')
    a = sum(t.low[0] in h.up for t in ts)
    b = sum(t.low[0] in z.up for t in ts)
    if a + b != len(ts):
        raise E('a t label is contracted with nothing')
    if any(x not in z.up for x in h.low):
        raise E('an annihilation label of h is not contracted with z')
    eh = sum(x not in lows for x in h.up)
    ez = sum(x not in lows for x in z.up)
    if eh + ez != n:
        raise E(f'{eh + ez} free labels for a projection of rank {n}')
    nc = len(ts) + len(h.low)
    if syms.count('fbar') != nc or syms.count('f'):
        raise E(f'{nc} contractions but fbar power {syms.count("fbar")}, f power {syms.count("f")}')
    extra = [s for s in syms if s not in ('fbar', 'i')]
    if extra:
        raise E(f'unexpected symbols {extra}')
    return (len(h.up), len(h.low), len(z.up), eh, ez, a, b)


def run_case(case):
    trunc, lhs, remove_f = tuple(case[0]), case[1], case[2]
    H, CC, T_, eT, Pj = trunc
    res = {'viol': [], 'samples': [], 'outcomes': [], 'states': 0, 'transitions': 0, 'traces': 0, 'cases': 1}
    side = 'LHS' if lhs else 'RHS'
    head = f'{side} {trunc} remove_f={remove_f}'

    def bad(key, what):
        res['viol'].append({'key': key, 'what': what, 'case': case})
    try:
        tex = generate(trunc, lhs, remove_f)
    except Exception as e:
        bad(f'{head} generation', f'generation failed: {e!r}')
        return res
    if not tex.rstrip().endswith(r'\end{document}'):
        bad(f'{head} end', 'file does not end the document')
    secs = latexp.sections(tex)
    got_om = [latexp.omega_mn(o) for o, _ in secs]
    want_om = [(0, n) for n in range(min(CC, Pj) + 1)]
    if sorted(got_om) != want_om:
        bad(f'{head} projections', f'equations for {got_om}, expected {want_om}')
        return res
    for (om, n), (_, body) in zip(got_om, secs):
        tag = f'{head} n={n}'
        tm, st, tr = ref_etz.terms(n, H, CC, eT, lhs)
        res['states'] += st
        res['transitions'] += tr
        want = {}
        for c, v in tm.items():
            a, b = c[5], c[6]
            # a printed product stands for all ways of distributing the a+b equal t's over h and z
            want[c] = v * factorial(a) * factorial(b) / factorial(a + b)
        try:
            if lhs:
                eq = latexp.evaluate(latexp.between(body, r'LHS &=', r'\end{split}'))
                main, first, fifth = eq, [], []
            else:
                eq = latexp.evaluate(latexp.between(body, r'RHS &=', r'\end{split}'))
                first = [x for x in eq if any(s.startswith('offdiag') for s in x[1])]
                fifth = [x for x in eq if any(t.d for t in x[2])]
                main = [x for x in eq if x not in first and x not in fifth]
                check_outer(n, body, first, fifth, lambda w: bad(f'{tag} {w}', w))
        except (latexp.LatexError, ValueError) as e:
            bad(f'{tag} parse', f'equation cannot be read: {e!r}')
            continue
        got = {}
        for c, s, f in main:
            try:
                k = classify(s, f, n, lhs)
            except latexp.LatexError as e:
                bad(f'{side} n={n} malformed term: {e}', f'{tag}: {e}: {show(c, s, f)}')
                continue
            if k in got:
                bad(f'{side} n={n} class={k} printed twice', f'{tag}: {show(c, s, f)}')
            got[k] = got.get(k, 0) + c
        res['traces'] += len(want)
        for k in sorted(set(got) | set(want)):
            x, y = got.get(k, 0), want.get(k, 0)
            if x != y:
                bad(f'{side} n={n} class={k} coefficient={x} theory={y}', f'{tag}: printed {x}, theory {y}')
        res['outcomes'].append((n, side, len(want)))
    res['samples'].append(f'{head}: {sum(1 for _ in secs)} equations')
    return res


def check_outer(n, body, first, fifth, bad):
    """the bare Hamiltonian term and the dt/dtau * z subtraction"""
    if len(first) != 1:
        bad(f'{len(first)} bare h terms instead of 1')
    else:
        c, s, f = first[0]
        if c != 1 or len(f) != 1 or f[0].name != 'h' or len(f[0].up) != n or f[0].low or len(set(f[0].up)) != n:
            bad(f'bare h term is {show(c, s, f)}')
    want = {(n - k, k): Fraction(-1) for k in range(n + 1)}
    got = {}
    for c, s, f in fifth:
        t = [x for x in f if x.name == 't' and x.d]
        z = [x for x in f if x.name == 'z' and not x.d]
        if len(t) != 1 or len(z) != 1 or len(f) != 2 or s != ('i',) or t[0].low or z[0].low:
            bad(f'subtraction term is {show(c, s, f)}')
            continue
        labs = t[0].up + z[0].up
        if len(set(labs)) != n or len(labs) != n:
            bad(f'labels of {show(c, s, f)}')
        k = (len(t[0].up), len(z[0].up))
        got[k] = got.get(k, 0) + c
    if got != want:
        bad(f'subtraction terms {sorted(got.items())}, expected one per split of {n} labels')
    # the left-hand side names the derivative of z with the labels of the projection
    lhs = latexp.evaluate(latexp.between(body, r'LHS &=', r'\\ RHS'))
    if len(lhs) != 1 or lhs[0][0] != 1 or lhs[0][1] != ('i',) or len(lhs[0][2]) != 1:
        bad('left-hand side is not i dz/dtau')
    else:
        z = lhs[0][2][0]
        if z.name != 'z' or not z.d or len(z.up) != n or z.low:
            bad(f'left-hand side is {z}')


def show(c, s, f):
    return f'{c} {" ".join(s)} ' + ' '.join(
        f'{"d" if x.d else ""}{x.name}^{{{"".join(x.up)}}}_{{{"".join(x.low)}}}' for x in f)


def lattice(tier):
    if tier == 'quick':
        s = {(h, c, 1, e, p) for h in range(1, 7) for c in range(1, 7) for e in range(1, 6) for p in range(1, 7)}
        s |= {(h, c, 1, e, p) for h in (1, 2, 6) for c in (1, 2, 3, 4) for e in (6, 7, 8) for p in (1, 2, 4)}
        s |= {(h, c, 1, 6, c) for h in (2, 6) for c in (5, 6)}
    else:
        s = {(h, c, 1, e, p) for h in range(1, 7) for c in range(1, 7) for e in range(1, 9) for p in range(1, 7)}
    return sorted(s, key=lambda t: (sum(t), t))


def main(chk, tier):
    lat = lattice(tier)
    chk.run(run_case, [(t, lhs, False) for t in lat for lhs in (False, True)], timeout=600)
    # ground-state terms carry no f, so the removal of f terms must not change anything
    chk.run(run_case, [(t, lhs, True) for t in lat[::7] for lhs in (False, True)], timeout=600)
    # excited states are refused
    chk.run(refused, [(t, lhs) for t in lat[::11] for lhs in (False, True)])
    return chk.finish(True, f'truncation lattice ({tier}), both sides, every projection')


def refused(case):
    trunc, lhs = case
    res = {'viol': [], 'cases': 1, 'outcomes': ['refused']}
    try:
        with quiet():
            G.generate_eT_z_t_symmetric_latex(make_trunc(tuple(trunc)), only_ground_state=False, remove_f_terms=False,
                                              lhs_rhs='LHS' if lhs else 'RHS', path='x.tex')
        res['viol'].append({'key': f'excited {trunc} {lhs}', 'what': 'excited equations were written', 'case': case})
    except NotImplementedError:
        pass
    except Exception as e:
        res['viol'].append({'key': f'excited {trunc} {lhs}', 'what': f'raised {e!r}', 'case': case})
    return res
