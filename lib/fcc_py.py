"""driver for the generated full-CC Python modules (C04, C15)"""
import itertools
import os
from math import factorial
from lib import ref_fcc, symt
from lib.harness import quiet

HTAG = ['', 'linear', 'quadratic', 'cubic', 'quartic', 'quintic', 'sextic']
TTAG = ['', 'singles', 'doubles', 'triples', 'quadruples', 'quintuples', 'sextuples']
GROUPS = ('connected', 'linked', 'unlinked')
FUNC = {'connected': 'fully_connected', 'linked': 'linked_disconnected', 'unlinked': 'unlinked_disconnected'}


def imports():
    global G, make_trunc
    import code_full_cc as G
    from lib.trunc import make_trunc


def generate(trunc, ground=True):
    with quiet():
        G.generate_full_cc_python(make_trunc(list(trunc)), only_ground_state=ground, path='f.py')
    s = open('f.py').read()
    os.remove('f.py')
    return s


class Args(dict):
    def __missing__(self, k):
        raise symt.SymError(f'no tensor {k} exists at this truncation')


def args(H, CC):
    """h^m_n has its n contracted (lower) axes first, then m upper axes; ground state amplitudes t^m_0"""
    h = Args({(m, n): symt.T.atom(f'h{m}{n}', ('A', 'A') + ('N',) * (m + n),
                                  (('e', 0), ('e', 1)) + (('l', 0),) * n + (('u', 0),) * m)
              for m in range(H + 1) for n in range(H + 1 - m)})
    t = Args({(m, 0): symt.T.atom(f't{m}', ('A', 'A') + ('N',) * m) for m in range(1, CC + 1)})
    return h, t


def flags(hl, tl):
    d = {f'at_least_{HTAG[i]}': i <= hl for i in range(1, 7)}
    d.update({TTAG[i]: i <= tl for i in range(1, 7)})
    return symt.Flags('truncation', **d)


def mono(term, order):
    """canonical monomial of one term with its t's in the given order along the electronic chain"""
    hm, hn = term.h
    c = itertools.count()
    ext, low, fs = [], [], []
    hup = []
    for _ in range(term.fbar):
        l = ('N', next(c))
        hup.append(l)
        ext.append(l)
    tl = []
    for a in term.t:
        x = [('N', next(c)) for _ in range(a.m_h)]
        y = [('N', next(c)) for _ in range(a.m_o)]
        low += x
        ext += y
        tl.append(x + y)
    sf = [('A', f's{i}') for i in range(len(order) + 2)]
    fs.append((f'h{hm}{hn}', (('e', 0), ('e', 1)) + (('l', 0),) * hn + (('u', 0),) * hm, (sf[0], sf[1]) + tuple(low + hup)))
    for pos, i in enumerate(order):
        n = len(tl[i])
        fs.append((f't{n}', (('e', 0), ('e', 1)) + (('v', 0),) * n, (sf[pos + 1], sf[pos + 2]) + tuple(tl[i])))
    out = (sf[0], sf[len(order) + 1]) + tuple(ext)
    return symt.canon(tuple(fs), out, 'sym')


_REF = {}


def reference(om, trunc):
    """per connectivity group: list of (h level, t level, {monomial: coefficient}, name)"""
    H, CC, S, P = trunc
    key = (om, H, CC, S)
    if key in _REF:
        return _REF[key]
    terms, st, tr = ref_fcc.terms(om, H, CC, S, True, True)
    out = {g: [] for g in GROUPS}
    for t in terms:
        d = {}
        k = len(t.t)
        p = ref_fcc.prefactor(t)
        if k == 0:
            d[mono(t, ())] = p
            lev = (0, 0)
        else:
            lev = (max(t.h), max(a.m_o + a.m_h for a in t.t))
            if k == 1:
                d[mono(t, (0,))] = p * factorial(sum(om))
            else:
                for o in itertools.permutations(range(k)):
                    m = mono(t, o)
                    d[m] = d.get(m, 0) + p
        out[ref_fcc.group(t, om)].append((lev, d, t))
    _REF[key] = out, st, tr
    return _REF[key]


def expected(ref, g, hl, tl):
    want, nm = {}, {}
    for lev, d, t in ref[g]:
        if lev[0] <= hl and lev[1] <= tl:
            for m, c in d.items():
                want[m] = want.get(m, 0) + c
                nm[m] = t
    return want, nm
