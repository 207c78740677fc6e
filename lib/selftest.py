"""Self-test of the oracles (needs nothing of /repo).  Each one is compared, exhaustively on a small range, with something
computed in a different way: symbolic tensors with numpy arrays, Wick contractions with matrices of boson operators, ..."""
import itertools
from fractions import Fraction
from math import factorial
import numpy as np
from lib import symt, refcc, ref_etz, ref_fcc, latexp


def symbolic_tensors():
    """canonical forms are equal exactly when the tensors are: all labelings of x_?? x_?? y_? by four letters, and all
    choices of up to two output labels, with integer arrays (x symmetric)"""
    rng = np.random.default_rng(1)
    d = 4
    x = rng.integers(1, 1000, (d, d))
    x = x + x.T
    y = rng.integers(1, 1000, d)
    n = 0
    groups = {}
    for labs in itertools.product('ijkl', repeat=5):
        if sorted(set(labs)) != list('ijkl')[:len(set(labs))]:
            continue
        letters = sorted(set(labs))
        for k in (0, 1, 2):
            for out in itertools.permutations(letters, k):
                v = np.einsum(f'{labs[0]}{labs[1]},{labs[2]}{labs[3]},{labs[4]}->{"".join(out)}', x, x, y)
                g = [('N', c) for c in labs]
                f = (('x', (('v', 0),) * 2, tuple(g[:2])), ('x', (('v', 0),) * 2, tuple(g[2:4])), ('y', (('v', 0),), (g[4],)))
                for mode in ('pos', 'sym'):
                    w = v + v.T if mode == 'sym' and k == 2 else v
                    key = symt.canon(f, tuple(('N', c) for c in out), mode)
                    groups.setdefault((mode, k), {}).setdefault(key, set()).add(w.tobytes())
                    n += 1
    for (mode, k), m in groups.items():
        vals = [v for s in m.values() for v in s]
        assert all(len(s) == 1 for s in m.values()), f'{mode}: one canonical form, several values'
        assert len(vals) == len(set(vals)), f'{mode}: several canonical forms, one value'
    return n


def exponential():
    """W_n with scalar amplitudes is the n-th Taylor coefficient of exp(sum t_k x^k/k!)"""
    n = 0
    for t in itertools.product((0, 1, 2, 5), repeat=3):
        # series of exp by the recursion n e_n = sum k a_k e_(n-k)
        a = [Fraction(0)] + [Fraction(t[k - 1], factorial(k)) if k <= 3 else Fraction(0) for k in range(1, 7)]
        e = [Fraction(1)]
        for m in range(1, 7):
            e.append(sum(k * a[k] * e[m - k] for k in range(1, m + 1)) / m)
        for m in range(1, 7):
            comps, _, _ = refcc.explore(m)
            s = Fraction(0)
            for c in comps:
                p = refcc.coefficient(c)
                for r in c:
                    p *= t[r - 1] if r <= 3 else 0
                s += p
            assert s == e[m], (t, m)
            n += 1
    return n


def wick():
    """one-mode boson matrices: <0| b^n T^k h Z |0> equals the number of contractions"""
    D = 14

    def ann(v):
        # basis b^dagger^n |0> (unnormalised): b maps n to n (n-1)
        return [(i + 1) * v[i + 1] for i in range(D - 1)] + [0]

    def cre(v):
        assert v[-1] == 0
        return [0] + v[:-1]
    n = 0
    for om, k, hm, hn, zm in itertools.product(range(4), range(4), range(4), range(4), range(5)):
        v = [1] + [0] * (D - 1)
        for _ in range(zm):
            v = cre(v)
        for _ in range(hn):
            v = ann(v)
        for _ in range(hm):
            v = cre(v)
        for _ in range(k + om):
            v = ann(v)
        r, _, _ = ref_etz.wick(om, k, hm, hn, zm)
        assert sum(r.values()) == v[0], (om, k, hm, hn, zm, r, v[0])
        for (eh, ez, a, b) in r:
            assert eh + ez == om and a + b == k and eh + a == hm and ez + b + hn == zm
        n += 1
    return n


def full_cc():
    """the explored terms equal those found by trying every multiset of amplitudes"""
    n = 0
    for om, on, H, CC, S, ground in itertools.product(range(3), range(3), (1, 2), (1, 2), (1, 2, 3), (True, False)):
        got, _, _ = ref_fcc.terms((om, on), H, CC, S, ground, False)
        amps = [ref_fcc.T(*q) for q in itertools.product(range(CC + 1), repeat=4)
                if 1 <= sum(q) <= CC and not (ground and q[2] + q[3])]
        want = set()
        for k in range(S + 1):
            for ts in itertools.combinations_with_replacement(sorted(amps), k):
                mo, mh, no, nh = (sum(c) for c in zip(*ts)) if ts else (0, 0, 0, 0)
                f, fbar = om - no, on - mo      # what the projector has left pairs with h
                h = (nh + fbar, mh + f)
                if f >= 0 and fbar >= 0 and sum(h) <= H:
                    want.add(ref_fcc.Term(h, ts, f, fbar))
        assert got == want, (om, on, H, CC, S, ground)
        n += len(want)
    # two by hand: <1|h exp(t1)> with linear h, and the prefactor of h_2 t_1 t_1
    assert ref_fcc.prefactor(ref_fcc.Term((0, 2), (ref_fcc.T(0, 1, 0, 0),) * 2, 0, 0)) == Fraction(1, 4)
    assert ref_fcc.lhs_products(2, 0)[0] == {((1, 0), (1, 0)), ((2, 0),)}
    return n


def latex():
    for s, want in [
        (r'\frac{1}{2!}\bh^{i}_{j}\bt^{j}', [(Fraction(1, 2), (), 2)]),
        (r'f^{2}\bh_{i} - \bar{f}(\bt^{i} + \frac{1}{3!}\bh_{0})', [(Fraction(1), ('f', 'f'), 1), (Fraction(-1), ('fbar',), 1),
                                                                (Fraction(-1, 6), ('fbar',), 1)]),
    ]:
        r = latexp.P(s).expr(())
        assert [(c, y, len(t)) for c, y, t in r] == want, (s, r)
    for bad in (r'\bh_{i} + ', r'\bh_{i} + + \bt^{i}', r'(\bh_{i}'):
        try:
            latexp.P(bad).expr(())
        except latexp.LatexError:
            continue
        raise AssertionError(f'{bad} accepted')
    return 5


def run():
    for f in (symbolic_tensors, exponential, wick, full_cc, latex):
        print(f'{f.__name__}: {f()} comparisons')
