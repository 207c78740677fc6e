"""C04: generated full-CC Python modules compute every allowed pairing of H with the amplitudes."""
from lib import fcc_py as F, symt
from lib.fcc_tex import name, projections


def imports():
    F.imports()


def untouched(d):
    for x in d.values():
        if len(x.terms) != 1 or x.terms[0][0] != 1:
            raise symt.SymError('an input tensor was modified')


def run_case(case):
    trunc = tuple(case[0])
    H, CC, S, Pj = trunc
    res = {'viol': [], 'samples': [], 'outcomes': [], 'states': 0, 'transitions': 0, 'traces': 0, 'cases': 1}

    def bad(key, what):
        res['viol'].append({'key': key, 'what': what, 'case': case})
    try:
        ns = symt.load_generated(F.generate(trunc, case[1]))
    except Exception as e:
        bad(f'{trunc} generation', f'generating or importing failed: {e!r}')
        return res
    oms = projections(CC, Pj)
    fn = sorted(k for k in ns if k.startswith('compute_m') and k.endswith('_amplitude'))
    if fn != sorted(f'compute_m{m}_n{n}_amplitude' for m, n in oms):
        bad(f'{trunc} functions', f'amplitude functions {fn}')
    an = symt.Flags('ansatz', ground_state=True)
    for om in oms:
        ref, st, tr = F.reference(om, trunc)
        res['states'] += st
        res['transitions'] += tr
        kinds = ('A', 'A') + ('N',) * sum(om)
        for hl in range(H + 1):
            for tl in range(CC + 1):
                tag = f'{trunc} omega={om} h_level={hl} t_level={tl}'
                total = {}
                for g in F.GROUPS + ('all',):
                    h, t = F.args(H, CC)
                    try:
                        if g == 'all':
                            R = ns[f'compute_m{om[0]}_n{om[1]}_amplitude'](symt.A, symt.N, an, F.flags(hl, tl), h, t)
                        else:
                            R = symt.zeros((symt.A, symt.A) + (symt.N,) * sum(om))
                            ns[f'add_m{om[0]}_n{om[1]}_{F.FUNC[g]}_terms'](R, an, F.flags(hl, tl), h, t)
                        untouched(h), untouched(t)
                        if not isinstance(R, symt.T) or R.kinds != kinds:
                            raise symt.SymError('wrong shape of the result')
                        got = R.value('sym')
                    except Exception as e:
                        bad(f'omega={om} group={g} raised {e!r}', f'{tag}: {e!r}')
                        continue
                    if g == 'all':
                        want, nm = total, {}
                    else:
                        want, nm = F.expected(ref, g, hl, tl)
                        for k, v in want.items():
                            total[k] = total.get(k, 0) + v
                        res['traces'] += len(want)
                    for k in sorted(set(got) | set(want), key=repr):
                        x, y = got.get(k, 0), want.get(k, 0)
                        if x != y:
                            what = name(nm[k]) if k in nm else '*'.join(f[0] for f in k[0])
                            bad(f'omega={om} group={g} term={what} coefficient={x} expected={y}', f'{tag}: {x} instead of {y}')
                res['outcomes'].append((om, len(total)))
        # hot band amplitudes are refused
        h, t = F.args(H, CC)
        try:
            ns[f'compute_m{om[0]}_n{om[1]}_amplitude'](symt.A, symt.N, symt.Flags('ansatz', ground_state=False),
                                                      F.flags(H, CC), h, t)
            bad(f'{trunc} omega={om} hot band', 'hot band amplitude computed instead of refused')
        except NotImplementedError:
            pass
        except Exception as e:
            bad(f'{trunc} omega={om} hot band', f'raised {e!r} instead of NotImplementedError')
    res['samples'].append(f'{trunc}: {len(oms)} projections, all h/t truncation levels')
    return res


def lattice(tier):
    s = {(h, c, e, p) for h in range(1, 4) for c in range(1, 4) for e in range(1, 4) for p in range(1, 4)}
    s |= {(h, c, e, p) for h in range(1, 7) for c in range(1, 3) for e in range(1, 4) for p in range(1, 3)}
    s |= {(2, c, 2, p) for c in range(1, 7) for p in range(1, 7)} | {(h, 1, e, 1) for h in range(1, 7) for e in range(1, 7)}
    s |= {(h, c, e, p) for h in range(1, 7) for c in range(1, 5) for e in range(1, 4) for p in range(1, 5)}
    s |= {(h, c, e, p) for h in range(1, 4) for c in range(5, 7) for e in range(1, 4) for p in range(1, 7)}
    if tier != 'quick':
        s |= {(h, c, e, p) for h in range(1, 7) for c in range(1, 7) for e in range(1, 4) for p in range(1, 7)}
        s |= {(h, c, 4, p) for h in range(1, 7) for c in range(1, 5) for p in range(1, 5)}
        s |= {(h, c, e, p) for h in range(1, 7) for c in (1, 2) for e in (5, 6) for p in (1, 2, 3)}
    return sorted(s, key=lambda t: (sum(t), t))


def main(chk, tier):
    lat = lattice(tier)
    chk.run(run_case, [(t, True) for t in lat] + [(t, False) for t in lat[::9]], timeout=800)
    return chk.finish(True, f'truncation lattice ({tier}), every projection, every runtime truncation level')
