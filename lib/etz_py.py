"""driver for the generated eT_z_t Python modules (shared by C11, C12, C15)"""
import os
from lib import symt, ref_etz
from lib.harness import quiet

HTAG = ['', 'linear', 'quadratic', 'cubic', 'quartic', 'quintic', 'sextic']
TTAG = ['', 'singles', 'doubles', 'triples', 'quadruples', 'quintuples', 'sextuples']


def imports():
    global G, make_trunc
    import code_eT_zhz as G
    from lib.trunc import make_trunc


def generate(trunc, lhs, remove_f=False, ground=True):
    with quiet():
        G.generate_eT_zhz_python(make_trunc(trunc), only_ground_state=ground, remove_f_terms=remove_f,
                                 lhs_rhs='LHS' if lhs else 'RHS', path='e.py')
    s = open('e.py').read()
    os.remove('e.py')
    return s


class Args(dict):
    def __missing__(self, k):
        raise symt.SymError(f'no tensor {k} exists in this family')


def amp_args(H, CC, lhs):
    t = Args({(0, 1): symt.T.atom('t', ('N',))})
    if lhs:
        h = Args({(m, 0): symt.T.atom(f'h{m}0', ('N',) * m) for m in range(1, H + 1)})
    else:
        h = Args({(m, n): symt.T.atom(f'h{m}{n}', ('A', 'A') + ('N',) * (m + n))
                  for m in range(H + 1) for n in range(H + 1 - m)})
    z = Args({(m, 0): symt.T.atom(f'z{m}', ('A',) + ('N',) * m) for m in range(CC + 1)})
    dz = Args({(m, 0): symt.T.atom(f'dz{m}', ('A',) + ('N',) * m) for m in range(CC + 1)})
    return t, h, z, dz


def trunc_flags(hl, zl, tl):
    d = {f'h_at_least_{HTAG[i]}': i <= hl for i in range(1, 7)}
    d.update({f'z_at_least_{HTAG[i]}': i <= zl for i in range(1, 7)})
    d.update({f't_{TTAG[i]}': i <= tl for i in range(1, 7)})
    return symt.Flags('truncation', **d)


def evaluate(ns, n, trunc, lhs, levels, optimized, ground=True):
    H, CC, T_, eT, P = trunc
    t, h, z, dz = amp_args(H, CC, lhs)
    fl = trunc_flags(*levels)
    an = symt.Flags('ansatz', ground_state=ground)
    name = f'compute_m0_n{n}_amplitude' + ('_optimized' if optimized else '')
    if name not in ns:
        raise symt.SymError(f'function {name} missing')
    a = (symt.A, symt.N, an, fl) + ((t, h, z, dz) if lhs else (t, h, z))
    if optimized:
        a = a + ((_Paths(), _Paths()),)
    r = ns[name](*a)
    for d in (t, h, z, dz):
        for x in d.values():
            if len(x.terms) != 1 or x.terms[0][0] != 1:
                raise symt.SymError('an input tensor was modified')
    return r


class _Paths:
    """the eT modules take an (unused) container of optimised paths"""
    def __getitem__(self, k):
        return self

    def __iter__(self):
        return iter(())


_TCACHE = {}


def reference(n, trunc, lhs, levels):
    H, CC, T_, eT, P = trunc
    hl, zl, tl = levels
    key = (n, H, CC, eT, lhs)
    if key not in _TCACHE:
        tm, st, tr = ref_etz.terms(n, H, CC, eT, lhs)
        _TCACHE[key] = [(c, ref_etz.mono(c, lhs), v) for c, v in tm.items()], st, tr
    lst, st, tr = _TCACHE[key]
    want, cls = {}, {}
    for c, m, v in lst:
        hm, hn, zm, eh, ez, a, b = c
        if max(hm, hn) > hl or zm > zl or (a + b > 0 and tl < 1):
            continue
        if lhs and hm == hn == 0 and a + b == 0:
            continue        # d z_n / dtau itself is what the equation is solved for
        want[m] = want.get(m, 0) + v
        cls[m] = c
    return want, cls, st, tr


def check_case(case, lhs, optimized_list=(False,)):
    trunc, excited = tuple(case[:5]), len(case) > 5
    H, CC, T_, eT, P = trunc
    res = {'viol': [], 'samples': [], 'outcomes': [], 'states': 0, 'transitions': 0, 'traces': 0, 'cases': 1}
    side = 'LHS' if lhs else 'RHS'

    def bad(key, what):
        res['viol'].append({'key': key, 'what': what, 'case': case})
    try:
        ns = symt.load_generated(generate(trunc, lhs, ground=not excited))
    except Exception as e:
        bad(f'{side} {trunc} generation', f'generating or importing failed: {e!r}')
        return res
    top = min(P, CC)
    fn = sorted(k for k in ns if k.startswith('compute_m') and k.endswith('_amplitude'))
    missing = {f'compute_m0_n{n}_amplitude' for n in range(top + 1)} - set(fn)
    if missing or len(fn) != top + 1 and not excited:
        bad(f'{side} {trunc} functions', f'amplitude functions {fn}, expected n=0..{top}')
    for n in range(top + 1):
        for hl in range(H + 1):
            for zl in range(CC + 1):
                for tl in (0, 1):
                    for opt in optimized_list:
                        tag = f'{side} {trunc} n={n} h_level={hl} z_level={zl} t_level={tl} optimized={opt}'
                        try:
                            g = evaluate(ns, n, trunc, lhs, (hl, zl, tl), opt)
                        except Exception as e:
                            bad(tag, f'raised {e!r}')
                            continue
                        want, cls, st, tr = reference(n, trunc, lhs, (hl, zl, tl))
                        res['states'] += st
                        res['transitions'] += tr
                        res['traces'] += len(want)
                        if not isinstance(g, symt.T) or g.kinds != ('A',) + ('N',) * n:
                            bad(tag, f'wrong result shape')
                            continue
                        got = g.value('sym')
                        if got != want:
                            for k in sorted(set(got) | set(want), key=repr):
                                x, y = got.get(k, 0), want.get(k, 0)
                                if x != y:
                                    names = '*'.join(f[0] for f in k[0])
                                    bad(f'{side} n={n} term={names} class={cls.get(k)} coefficient={x} theory={y}',
                                        f'{tag}: coefficient {x}, theory {y}')
                        res['outcomes'].append((n, len(want)))
    if excited:
        # its ground state branch is judged above; the theory of the other branch is not fixed by the documentation
        res['samples'].append(f'{side} {trunc} generated for excited states: ground state branch of n=0..{top}')
        return res
    # excited (hot band) amplitudes are declared unimplemented: must be refused, never silently zero
    for n in range(top + 1):
        for opt in optimized_list:
            try:
                evaluate(ns, n, trunc, lhs, (H, CC, 1), opt, ground=False)
                bad(f'{side} {trunc} n={n} hot band', 'hot band amplitude computed instead of refused')
            except NotImplementedError:
                pass
            except Exception as e:
                bad(f'{side} {trunc} n={n} hot band', f'raised {e!r} instead of NotImplementedError')
    res['samples'].append(f'{side} {trunc}: n=0..{top}, all h/z/t truncation levels')
    return res
