"""Reference model: explicit-state exploration of Wick contractions of  <0| b^n  T^k/k!  H  Z |0>.

T = sum_i t_i b_i (annihilation, rank 1), H = sum h^m_n/(m! n!) (m creation, n annihilation legs),
Z = sum z^m/m! (m creation legs).  Everything to the left annihilates, so every creation leg of h and
z has to be consumed: a leg of h by an omega leg or a t leg; a leg of z by an omega, a t or an h
annihilation leg.  A state is (what is still to be placed, free legs left on h and z); a transition
lets the next annihilation leg choose its partner (weight = number of equivalent legs).  The number of
weighted paths to the final state is the number of contractions, hence the coefficient.
"""
from fractions import Fraction
from functools import lru_cache
from math import factorial
from lib import symt


class Class(tuple):
    """(hm, hn, zm, eh, ez, a, b): legs of h to omega eh, z to omega ez, t's on h a, t's on z b"""


def pruned_h(H):
    return [(m, n) for m in range(H + 1) for n in range(H + 1 - m) if m + n < 3 or m == 0]


@lru_cache(maxsize=None)
def wick(nomega, k, hm, hn, zm):
    """explore; returns (dict (eh, ez, a, b) -> number of contractions, states, transitions)"""
    if nomega + k + hn != hm + zm:
        return {}, 1, 0
    # legs to place in order: omega legs, t legs, h annihilation legs
    start = (0, hm, zm, 0, 0, 0, 0)
    layer = {start: 1}
    states, trans = 1, 0
    plan = ['o'] * nomega + ['t'] * k + ['h'] * hn
    for leg in plan:
        nxt = {}
        for (i, fh, fz, eh, ez, a, b), w in layer.items():
            if fh and leg != 'h':
                s = (i + 1, fh - 1, fz, eh + (leg == 'o'), ez, a + (leg == 't'), b)
                nxt[s] = nxt.get(s, 0) + w * fh
                trans += 1
            if fz:
                s = (i + 1, fh, fz - 1, eh, ez + (leg == 'o'), a, b + (leg == 't'))
                nxt[s] = nxt.get(s, 0) + w * fz
                trans += 1
        states += len(nxt)
        layer = nxt
    out = {}
    for (i, fh, fz, eh, ez, a, b), w in layer.items():
        if fh == fz == 0:
            out[(eh, ez, a, b)] = out.get((eh, ez, a, b), 0) + w
    return out, states, trans


def terms(n, H, CC, eT, lhs):
    """all classes with coefficient; per omega rank n.  lhs: h plays dT/dtau (creation legs only)"""
    out, st, tr = {}, 0, 0
    for hm, hn in pruned_h(H):
        if lhs and hn:
            continue
        for zm in range(CC + 1):
            for k in range(eT + 1):
                r, s, t = wick(n, k, hm, hn, zm)
                st += s
                tr += t
                for (eh, ez, a, b), w in r.items():
                    c = Fraction(w, factorial(n) * factorial(k) * factorial(hm) * factorial(hn) * factorial(zm))
                    out[(hm, hn, zm, eh, ez, a, b)] = c
    return out, st, tr


def mono(cls, lhs):
    hm, hn, zm, eh, ez, a, b = cls
    ext = [('N', f'x{i}') for i in range(eh + ez)]
    th = [('N', f'p{i}') for i in range(a)]
    tz = [('N', f'q{i}') for i in range(b)]
    hz = [('N', f'r{i}') for i in range(hn)]
    fs = [('t', (('v', 0),), (l,)) for l in th + tz]
    hl = ext[:eh] + th + hz
    zl = ext[eh:] + tz + hz
    if lhs:
        if hm + hn:
            fs.append((f'h{hm}{hn}', (('v', 0),) * len(hl), tuple(hl)))
            zn, out = f'z{zm}', (('A', 'c'),)
        else:
            zn, out = f'dz{zm}', (('A', 'c'),)
    else:
        fs.append((f'h{hm}{hn}', (('e', 0), ('e', 1)) + (('v', 0),) * len(hl), (('A', 'a'), ('A', 'c')) + tuple(hl)))
        zn, out = f'z{zm}', (('A', 'a'),)
    fs.append((zn, (('e', 0),) + (('v', 0),) * zm, (('A', 'c'),) + tuple(zl)))
    return symt.canon(tuple(fs), out + tuple(ext), 'sym')
