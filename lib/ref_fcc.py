"""Reference model of the full-CC equations: explicit-state exploration of how the legs of a projector Omega, the
Hamiltonian h and up to S amplitudes t can be paired.

A state is (free creation / annihilation legs of Omega and of h, amplitudes placed so far, in non-decreasing order, so
every multiset of amplitudes is reached exactly once).  A transition places one more amplitude t with
(m_o, m_h, n_o, n_h): m_o of its creation legs pair with annihilation legs of Omega, m_h with those of h, n_o / n_h of
its annihilation legs with creation legs of Omega / h.  A state is final (a term of the equation) when the legs that
Omega and h have left pair off with each other.  Pairings of an operator with itself and of two t's do not exist.
"""
from collections import namedtuple
from fractions import Fraction
from functools import lru_cache
from math import factorial

T = namedtuple('T', 'm_o m_h n_o n_h')
Term = namedtuple('Term', 'h t f fbar')         # h = (m, n); t sorted tuple of T; powers of f and fbar


@lru_cache(maxsize=None)
def amplitudes(CC, ground):
    out = []
    for mo in range(CC + 1):
        for mh in range(CC + 1 - mo):
            for no in range(0 if ground else CC, -1, -1):
                for nh in range(0 if ground else CC, -1, -1):
                    if 1 <= mo + mh + no + nh <= CC:
                        out.append(T(mo, mh, no, nh))
    return sorted(out)


def terms(omega, H, CC, S, ground, remove_f):
    """(set of Term, states, transitions)"""
    amps = amplitudes(CC, ground)
    out = set()
    states = trans = 0
    om, on = omega
    for hm in range(H + 1):
        for hn in range(H + 1 - hm):
            stack = [(om, on, hm, hn, 0, ())]
            while stack:
                o_m, o_n, h_m, h_n, lo, ts = stack.pop()
                states += 1
                if h_m == o_n and h_n == o_m and not (remove_f and o_m):
                    out.add(Term((hm, hn), ts, o_m, o_n))
                if len(ts) == S:
                    continue
                for i in range(lo, len(amps)):
                    a = amps[i]
                    if a.m_o <= o_n and a.m_h <= h_n and a.n_o <= o_m and a.n_h <= h_m:
                        trans += 1
                        stack.append((o_m - a.n_o, o_n - a.m_o, h_m - a.n_h, h_n - a.m_h, i, ts + (a,)))
    return out, states, trans


def prefactor(term):
    """documented rule: 1 for a bare h, else x!/(m! n! k!), x = number of distinct t's contracting with h, k = number of t"""
    if not term.t:
        return Fraction(1)
    x = len({a for a in term.t if a.m_h or a.n_h})
    return Fraction(factorial(x), factorial(term.h[0]) * factorial(term.h[1]) * factorial(len(term.t)))


def group(term, omega):
    """'connected', 'linked' or 'unlinked'"""
    disc = [a for a in term.t if not a.m_h and not a.n_h]
    if not disc:
        return 'connected'
    if any(a.m_o == omega[1] and a.n_o == omega[0] for a in disc):
        return 'unlinked'
    return 'linked'


@lru_cache(maxsize=None)
def lhs_products(up, low, CC=None):
    """multisets of amplitudes t^m_n whose creation legs sum to `up` and annihilation legs to `low`"""
    out = set()
    st = [0]

    def rec(u, l, ts):
        st[0] += 1
        if u == l == 0:
            out.add(ts)
            return
        for a in range(u + 1):
            for b in range(l + 1):
                if a + b and (not ts or (a, b) >= ts[-1]):
                    rec(u - a, l - b, ts + ((a, b),))
    rec(up, low, ())
    return out, st[0]
