"""C14: removing f terms removes exactly the terms with a factor f and nothing else.

A differential exploration: every document of the lattices is generated with and without f terms; every equation
without is compared term by term with the f-free terms of the equation with (full cc, ground and excited).  The z_t and
eT_z_t equations of the ground state have no f terms, so they have to be the same.
"""
import itertools as it
from collections import Counter
from lib import fcc_tex, latexp, ops, ref_fcc

NOTE = 'have been removed'
E = latexp.LatexError


def imports():
    ops.imports()
    fcc_tex.imports()


def document(kind, t, ground, rf, side):
    """text, or the name of the exception"""
    a = (t, ground, rf) + ((side,) if side else ())
    out, text = ops.perform((kind, a))
    return text if out == 'file' else (None if out.startswith('raised') else out)


def terms(body, om):
    raw = body.split(r'\\ RHS &=', 1)[1].split(r'\end{split}', 1)[0]
    out = Counter()
    for c, s, f in latexp.evaluate(raw):
        term, powers, ext = fcc_tex.classify(s, f, om)
        out[term, powers, c] += 1
    return out


def canonical(part):
    """printed products of one side of an equation; sums are unordered"""
    return Counter((c, tuple(sorted(s)), tuple(sorted(f))) for c, s, f in latexp.evaluate(part))


def run_case(case):
    kind, t, ground, side = case[0], tuple(case[1]), bool(case[2]), case[3]
    res = {'viol': [], 'samples': [], 'outcomes': [], 'states': 0, 'transitions': 0, 'traces': 0, 'cases': 1}

    def bad(key, what):
        if len(res['viol']) < 10:
            res['viol'].append({'key': key, 'what': what, 'case': case})
    head = f'{kind} {t} ground={ground} {side or ""}'
    docs = {rf: document(kind, t, ground, rf, side) for rf in (False, True)}
    if docs[True] is None or docs[False] is None:
        if docs[True] is not docs[False]:
            bad(f'{head} refused with one setting only', str({k: v is not None for k, v in docs.items()}))
        res['outcomes'].append('refused')
        return res
    for rf in docs:
        if kind != 'fccL' and (NOTE in docs[rf]) != rf:
            bad(f'{head} remove_f={rf}: note on removed terms', 'present without removal' if not rf else 'missing')
    secs = {rf: {latexp.omega_mn(o): b for o, b in latexp.sections(d)} for rf, d in docs.items()}
    if sorted(secs[True]) != sorted(secs[False]):
        bad(f'{head} equations', f'{sorted(secs[True])} without f, {sorted(secs[False])} with f')
        return res
    for om in sorted(secs[True]):
        b = {rf: secs[rf][om] for rf in secs}
        res['states'] += 2
        res['transitions'] += 1
        res['traces'] += 1
        try:
            if kind == 'fccL':
                l = {rf: canonical(latexp.between(x, r'LHS &=', r'\\ RHS')) for rf, x in b.items()}
                if l[True] != l[False]:
                    bad(f'{head} omega={om} left-hand side changes', '')
                got = {rf: terms(x, om) for rf, x in b.items()}
                want = Counter({k: v for k, v in got[False].items() if k[1][0] == 0})
                have = Counter(got[True])
                # known finding of C01: long connected groups lose terms, so they cannot be compared
                full = ref_fcc.terms(om, t[0], t[1], t[2], ground, False)[0]
                if sum(ref_fcc.group(x, om) == 'connected' for x in full) >= 14:
                    want = Counter({k: v for k, v in want.items() if ref_fcc.group(k[0], om) != 'connected'})
                    have = Counter({k: v for k, v in have.items() if k[1][0] or ref_fcc.group(k[0], om) != 'connected'})
                for k in sorted(set(want) | set(have)):
                    if want[k] != have[k]:
                        bad(f'{"ground" if ground else "excited"} omega={om} {fcc_tex.name(k[0])} with f^{k[1][0]} '
                            f'coefficient {k[2]}: {have[k]} instead of {want[k]} times after removal', head)
                res['outcomes'].append((om, len(want), len(got[False])))
            else:
                cut = r'\\ RHS &=' in b[False]
                for part in (('LHS &=', r'\\ RHS'), ('RHS &=', r'\end{split}')) if cut else (('LHS &=', r'\end{split}'),):
                    l = {rf: canonical(latexp.between(x, *part)) for rf, x in b.items()}
                    l[False] = Counter({k: v for k, v in l[False].items() if 'f' not in k[1]})
                    if l[True] != l[False]:
                        bad(f'{head} omega={om} {part[0][:3]} changes by the removal',
                            str(list((l[True] - l[False]).items())[:2] + list((l[False] - l[True]).items())[:2]))
                res['outcomes'].append((om, sum(l[True].values())))
        except (E, ValueError, IndexError) as e:
            bad(f'{head} omega={om} equation cannot be read: {e}', repr(e))
    res['samples'].append(f'{head}: {len(secs[True])} equations')
    return res


def main(chk, tier):
    cases = [('fccL', t, g, None) for t in fcc_tex.lattice(tier) + fcc_tex.refused(tier) for g in (True, False)]
    cases += [('ztL', t, True, None) for t in it.product(range(1, 7), repeat=3)]
    r = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)
    et = {(h, c, 1, e, p) for h, c, e, p in it.product(r, repeat=4)}
    cases += [('eTL', t, True, s) for t in sorted(et) for s in ('RHS', 'LHS')]
    chk.run(run_case, cases, timeout=800)
    return chk.finish(True, f'{len(cases)} truncations (full cc ground and excited, z_t, eT_z_t both sides), with and without '
                            'f terms, every equation')
