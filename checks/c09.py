"""C09: the z_t (zhz) LaTeX prints every contraction of projector * H * Z once, with exact coefficient.

Model: a state is (projector legs not yet paired, Z operator chosen, legs of Z handed to h).  For a projector with m
creation and n annihilation legs, Z^a (creation legs only, ground state) gives a - k legs to the projector and k legs to
h; what is left of the projector must pair with h = h^{n-a+k}_{m+k}.  Every pairing is counted leg by leg, the exact
coefficient of a printed term is
    (number of ways to pick the k paired legs on h and on z and to match them) / (h.m! h.n! z.m!).
"""
from fractions import Fraction
from math import comb, factorial
from lib import latexp
from lib.harness import quiet

E = latexp.LatexError


def imports():
    global G, make_trunc
    import latex_zhz as G
    from lib.trunc import make_trunc


def generate(trunc, ground, remove_f, path):
    with quiet():
        G.generate_z_t_symmetric_latex(make_trunc(list(trunc)), only_ground_state=ground, remove_f_terms=remove_f,
                                       path=path)


def reference(om, H, CC):
    """{(h.m, h.n, z.m, k): coefficient}, states, transitions"""
    m, n = om
    out, st, tr = {}, 1, 0
    for a in range(CC + 1):                    # z^a
        st += 1
        tr += 1
        for k in range(a + 1):                 # k legs of z pair with h, a - k with the projector
            tr += 1
            left = n - (a - k)
            if left < 0:
                continue
            st += 1
            hm, hn = left, m + k
            if hm + hn > H or (hm + hn >= 3 and hm):       # h of rank 3 and more has no creation part
                continue
            ways = comb(hn, k) * comb(a, k) * factorial(k)
            out[hm, hn, a, k] = Fraction(ways, factorial(hm) * factorial(hn) * factorial(a))
    return out, st, tr


def show(c, s, f):
    return f'{c} {" ".join(s)} ' + ' '.join(
        f'{"d" if x.d else ""}{x.name}^{{{"".join(x.up)}}}_{{{"".join(x.low)}}}' for x in f)


def classify(s, f, om):
    m, n = om
    h = [x for x in f if x.name == 'h' and not x.d]
    z = [x for x in f if x.name == 'z' and not x.d]
    if len(h) != 1 or len(z) != 1 or len(f) != 2:
        raise E('not one h and one z')
    h, z = h[0], z[0]
    if z.low:
        raise E('z with annihilation labels in the ground state')
    ups, lows = h.up + z.up, h.low
    if len(set(ups)) != len(ups) or len(set(lows)) != len(lows):
        raise E('a label appears twice')
    if set(h.up) & set(h.low):
        raise E('h is contracted with itself')
    k = len(set(h.low) & set(z.up))
    fu = [l for l in ups if l not in lows]
    fl = [l for l in lows if l not in ups]
    if len(fu) != n or len(fl) != m:
        raise E(f'free labels {"".join(fu)}/{"".join(fl)} do not match the projection')
    if sorted(s) != ['fbar'] * k:
        raise E(f'powers of f and fbar {s} with {k} contractions')
    return (len(h.up), len(h.low), len(z.up), k), (frozenset(fu), frozenset(fl))


def run_case(case):
    trunc, ground, remove_f = tuple(case[0]), bool(case[1]), bool(case[2])
    H, CC, Pj = trunc
    res = {'viol': [], 'samples': [], 'outcomes': [], 'states': 0, 'transitions': 0, 'traces': 0, 'cases': 1}
    head = f'{trunc} ground={ground} remove_f={remove_f}'

    def bad(key, what):
        res['viol'].append({'key': key, 'what': what, 'case': case})
    try:
        generate(trunc, ground, remove_f, 'z.tex')
    except NotImplementedError as e:
        if ground:
            bad(f'{head} generation', f'refused: {e!r}')
        res['outcomes'].append('refused')
        return res
    except Exception as e:
        bad(f'{head} generation', f'generation failed: {e!r}')
        return res
    if not ground:
        bad(f'excited state {trunc} is not refused', 'excited z_t equations are not implemented, yet a file was written')
        return res
    tex = open('z.tex').read()
    if not tex.rstrip().endswith(r'\end{document}'):
        bad(f'{head} end', 'the document is not closed')
    secs = latexp.sections(tex)
    got_om = [latexp.omega_mn(o) for o, _ in secs]
    want_om = sorted((m, n) for m in range(CC + 1) for n in range(CC + 1 - m) if m + n <= Pj)
    if sorted(got_om) != want_om:
        bad(f'{head} projections', f'equations for {sorted(got_om)}, expected {want_om}')
        return res
    for om, (_, body) in zip(got_om, secs):
        m, n = om
        tag = f'{head} omega={om}'
        want, st, tr = reference(om, H, CC)
        res['states'] += st
        res['transitions'] += tr
        res['traces'] += len(want)
        try:
            eq = latexp.evaluate(latexp.between(body, r'RHS &=', r'\end{split}'))
            lhs = latexp.evaluate(latexp.between(body, r'LHS &=', r'\\ RHS'))
            check_g(om, body)
        except (E, ValueError) as e:
            bad(f'omega={om} equation cannot be read: {e}', f'{tag}: {e!r}')
            continue
        first = [x for x in eq if len(x[2]) == 1 and x[2][0].name == 'h']
        fifth = [x for x in eq if any(t.d for t in x[2])]
        main = [x for x in eq if x not in first and x not in fifth]
        for w in outer(om, lhs, first, fifth):
            bad(f'omega={om} {w}', f'{tag}: {w}')
        got, free = {}, {}
        for c, s, f in main:
            off = [x for x in s if x.startswith('offdiag')]
            if len(off) != 1:
                bad(f'omega={om} H*Z term without off-diagonal restriction {show(c, s, f)}', tag)
            s = tuple(x for x in s if not x.startswith('offdiag'))
            try:
                k, fr = classify(s, f, om)
            except E as e:
                bad(f'omega={om} malformed term ({e}) {show(c, s, f)}', f'{tag}: {e}: {show(c, s, f)}')
                continue
            free.setdefault(fr, show(c, s, f))
            if k in got:
                bad(f'omega={om} {k} printed twice', f'{tag}: {show(c, s, f)}')
            got[k] = got.get(k, 0) + c
        if len(free) > 1:
            bad(f'omega={om} free labels differ between terms', f'{tag}: {list(free.values())}')
        for k in sorted(set(got) | set(want)):
            x, y = got.get(k, 0), want.get(k, 0)
            if x != y:
                bad(f'omega={om} h^{k[0]}_{k[1]} z^{k[2]} ({k[3]} contractions) coefficient={x} theory={y}',
                    f'{tag}: printed {x}, theory {y}')
        res['outcomes'].append((om, len(want)))
    res['samples'].append(f'{head}: {len(secs)} equations')
    return res


def check_g(om, body):
    """i dt/dtau = G with the labels of the projection"""
    m, n = om
    eq = body.split(r'\end{equation}', 1)[0]
    l, _, g = eq.partition('=')
    d = latexp.evaluate(l)
    if len(d) != 1 or d[0][0] != 1 or d[0][1] != ('i',) or len(d[0][2]) != 1 or not d[0][2][0].d or d[0][2][0].name != 't':
        raise E('left of G is not i dt/dtau')
    g = latexp.evaluate(g.replace(r'\hat{G}', r'\bG'))
    if len(g) != 1 or g[0][0] != 1 or g[0][1] or len(g[0][2]) != 1 or g[0][2][0].name != 'G':
        raise E('dt/dtau is not a single G')
    for x in (d[0][2][0], g[0][2][0]):
        if len(x.up) != n or len(x.low) != m or len(set(x.up + x.low)) != m + n:
            raise E(f'labels of {x} do not match the projection')
    if (d[0][2][0].up, d[0][2][0].low) != (g[0][2][0].up, g[0][2][0].low):
        raise E('dt/dtau and G carry different labels')


def outer(om, lhs, first, fifth):
    """messages about i dz/dtau, the bare h and the subtraction of dt/dtau z"""
    m, n = om
    out = []
    ext_u = ext_l = None
    if len(first) != 1:
        out.append(f'{len(first)} bare h terms instead of 1')
    else:
        c, s, f = first[0]
        h = f[0]
        if c != 1 or len(s) != 1 or not s[0].startswith('offdiag'):
            out.append(f'bare h term is {show(c, s, f)}')
        if len(h.up) != n or len(h.low) != m or len(set(h.up + h.low)) != m + n:
            out.append(f'labels of bare h term {show(c, s, f)}')
        ext_u, ext_l = set(h.up), set(h.low)
    if len(lhs) != 1 or lhs[0][0] != 1 or lhs[0][1] != ('i',) or len(lhs[0][2]) != 1:
        out.append('left-hand side is not i dz/dtau')
    else:
        z = lhs[0][2][0]
        if z.name != 'z' or not z.d or len(set(z.up + z.low)) != m + n or len(z.up + z.low) != m + n:
            out.append(f'left-hand side is {z}')
        elif ext_u is not None and set(z.up + z.low) != ext_u | ext_l:
            out.append('left-hand side and bare h carry different labels')
    want = {(n - k, m, k): Fraction(-1) for k in range(n + 1)}
    got = {}
    for c, s, f in fifth:
        t = [x for x in f if x.name == 't' and x.d]
        z = [x for x in f if x.name == 'z' and not x.d]
        if len(t) != 1 or len(z) != 1 or len(f) != 2 or s != ('i',) or z[0].low:
            out.append(f'subtraction term is {show(c, s, f)}')
            continue
        up, low = t[0].up + z[0].up, t[0].low
        if len(set(up)) != len(up) or set(up) & set(low) or \
                (ext_u is not None and (set(up) != ext_u or set(low) != ext_l)):
            out.append(f'labels of subtraction term {show(c, s, f)} do not match the projection')
        k = (len(t[0].up), len(t[0].low), len(z[0].up))
        got[k] = got.get(k, 0) + c
    if got != want:
        out.append(f'subtraction terms {sorted(got.items())}, expected one per split of {n} labels')
    return out


def main(chk, tier):
    cases = [((h, c, p), g, f) for h in range(1, 7) for c in range(1, 7) for p in range(1, 7)
             for g, f in ((True, False), (True, True))]
    cases += [((h, c, p), False, f) for h in (1, 2, 3) for c in (1, 2, 3) for p in (1, 2, 3) for f in (False, True)]
    chk.run(run_case, cases, timeout=300)
    return chk.finish(True, 'all truncations H, CC, P in 1..6 (the whole supported range), with and without f terms, '
                            'ground state; excited state refused for ranks 1..3')
