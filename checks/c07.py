"""C07: generated residual module computes the projected H*W at every order / truncation / W availability."""
import itertools as it
from fractions import Fraction
from math import factorial
from lib import symt, refcc
from lib.harness import quiet

HN = [(0, 0), (0, 1), (1, 0), (1, 1), (0, 2), (2, 0)]       # (external, contracted) in h_args order


def imports():
    global G
    import code_residual_equations as G


def generate(order, hrank):
    with quiet():
        G.generate_residual_equations_file(order, hrank, path='r.py')
    return open('r.py').read()


def h_atom(m, n):
    # axes: a, b, contracted..., external...
    g = (('e', 0), ('e', 1)) + (('k', 0),) * n + (('x', 0),) * m
    return symt.T.atom(f'h{m}{n}', ('A', 'A') + ('N',) * (m + n), g)


def reference(p, hrank, quadratic, avail):
    """explore: choose h (m external, n contracted), then attach w of rank n+p-m"""
    want, st, tr = {}, 1, 0
    for m, n in HN:
        tr += 1
        if m + n > hrank or m > p:
            continue
        if max(m, n) >= 2 and not quadratic:
            continue
        w = n + p - m
        if w and w not in avail:
            continue
        st += 1
        c = Fraction(1, factorial(m) * factorial(n) * factorial(p - m))
        ext = tuple(('N', f'x{i}') for i in range(p))
        con = tuple(('N', f'k{i}') for i in range(n))
        hg = (('e', 0), ('e', 1)) + (('k', 0),) * n + (('x', 0),) * m
        out = (('A', 'a'), ('A', 'b')) + ext
        if w == 0:
            fs = ((f'h{m}{n}', hg, (('A', 'a'), ('A', 'b')) + con + ext[:m]),)
        else:
            fs = ((f'h{m}{n}', hg, (('A', 'a'), ('A', 'c')) + con + ext[:m]),
                  (f'w{w}', (('e', 0), ('e', 1)) + (('v', 0),) * w, (('A', 'c'), ('A', 'b')) + con + ext[m:]))
        want[symt.canon(fs, out, 'sym')] = c
    return want, st, tr


def run_case(case):
    order, hrank = case
    res = {'viol': [], 'samples': [], 'outcomes': [], 'states': 0, 'transitions': 0, 'traces': 0, 'cases': 0}

    def bad(key, what):
        res['viol'].append({'key': key, 'what': what, 'case': case})
    try:
        src = generate(order, hrank)
        ns = symt.load_generated(src)
    except Exception as e:
        bad(f'max_order={order} hrank={hrank} generation', f'{e!r}')
        return res
    for p in range(order + 1):
        for quadratic in (True, False):
            for level in range(1, 7):
                # W operators supplied, the rest None: w_1 .. w_n (as a truncated W module returns them), and for the
                # highest order every set with w_1
                sets = [tuple(range(1, n + 1)) for n in range(1, 9)]
                if p == order and level in (max(p, 1), 6):
                    sets += [(1,) + s for n in range(8) for s in it.combinations(range(2, 9), n)
                             if all(x in s for x in range(p + 3, 9)) and (1,) + s not in sets]
                for avail in sets:
                    tag = f'order={p} hrank={hrank} quadratic={quadratic} level={level} w_available={avail}'
                    kw = refcc.flags(level)
                    kw['quadratic'] = quadratic
                    tr = symt.Flags('truncation', **kw)
                    h = tuple(h_atom(m, n) for m, n in HN)
                    w = tuple(refcc.amp('w', k) if k in avail else None for k in range(1, 9))
                    res['cases'] += 1
                    try:
                        g = ns[f'calculate_order_{p}_residual'](symt.A, symt.N, tr, h, w)
                    except AssertionError:
                        if level >= max(p, 1):
                            bad(tag, 'refused an order inside the truncation')
                        res['outcomes'].append('refused')
                        continue
                    except Exception as e:
                        bad(tag, f'raised {e!r}')
                        continue
                    if level < max(p, 1):
                        bad(tag, 'computed an order beyond the truncation')
                        continue
                    want, st, trn = reference(p, hrank, quadratic, avail)
                    res['states'] += st
                    res['transitions'] += trn
                    res['traces'] += len(want)
                    if not isinstance(g, symt.T) or g.kinds != ('A', 'A') + ('N',) * p:
                        bad(tag, f'wrong result {g!r}')
                        continue
                    for x, nm in list(zip(h, HN)):
                        if x.value() != h_atom(*nm).value():
                            bad(tag, 'a Hamiltonian tensor was modified')
                    for key, x, y in refcc.diff(g.value('sym'), want)[:5]:
                        names = '*'.join(f[0] for f in key[0])
                        have = f'W_{p + 2} available' if p + 2 in avail else f'W={avail}'
                        bad(f'order={p} quadratic={quadratic} {have} term={names} coefficient={x} theory={y}',
                            f'{tag}: {refcc.show(key)} has coefficient {x}, theory {y}')
                    res['outcomes'].append((p, hrank, quadratic, len(want)))
                    if len(res['samples']) < 2:
                        res['samples'].append(f'{tag}: {len(want)} terms equal')
    return res


def main(chk, tier):
    hi = 6
    chk.run(run_case, [(o, r) for o in range(0, hi + 1) for r in (0, 1, 2)])
    return chk.finish(True, 'max order 0..6 x H rank 0..2 x quadratic flag x level 1..6 x sets of available W (all W_1..W_n; for the '
                            'highest order all sets with W_1)')
