"""C11: generated eT_z_t RHS Python computes every Wick contraction of e^T H Z exactly once."""
from lib import etz_py


def imports():
    etz_py.imports()


def run_case(case):
    return etz_py.check_case(case, False)


def lattice(tier):
    """(H, CC, T, eT, P)"""
    if tier == 'quick':
        s = {(h, c, 1, e, p) for h in range(1, 7) for c in range(1, 7) for e in range(1, 5) for p in range(1, 7)}
        s |= {(h, c, 1, 5, p) for h in (1, 2, 3, 6) for c in range(1, 5) for p in (1, 2, 3, 4)}
        s |= {(h, c, 1, 5, p) for h in (2, 6) for c in (5, 6) for p in (1, 2, 6)}       # up to seven contractions
        s |= {(h, c, 1, e, p) for h in (1, 2, 6) for c in (1, 2, 3) for e in (6, 7, 8) for p in (1, 2, 3)}
        s |= {(h, c, 1, 6, 1) for h in (1, 2) for c in (4, 5, 6)} | {(1, 4, 1, 8, 1), (2, 5, 1, 7, 1)}
    else:
        s = {(h, c, 1, e, p) for h in range(1, 7) for c in range(1, 7) for e in range(1, 7) for p in range(1, 7)}
        s |= {(h, c, 1, e, p) for h in range(1, 7) for c in range(1, 5) for e in (7, 8) for p in range(1, 7)}
    # modules generated for excited states: their ground state branch computes the same equations
    ex = {(h, c, 1, e, p) for h in range(1, 4) for c in range(1, 4) for e in range(1, 4) for p in range(1, 4)}
    if tier != 'quick':
        ex |= {(h, c, 1, e, p) for h in range(1, 7) for c in range(1, 5) for e in range(1, 5) for p in range(1, 5)}
    heavy = {t for t in s if t[1] >= 5 and t[3] >= 6}       # started first, for the sake of the running time
    return sorted(heavy, reverse=True) + sorted(s - heavy, key=lambda t: (sum(t), t)) + [t + ('excited',) for t in sorted(ex)]


def main(chk, tier):
    chk.run(run_case, lattice(tier), timeout=600)
    return chk.finish(True, f'truncation lattice ({tier}); every amplitude; every h/z/t truncation level')
