"""Reference model of the exponential (W) ansatz on the electronic chain.

A state is a partial product of amplitudes t_{n1} t_{n2} ... (a composition prefix); a transition
appends one more amplitude.  Complete states (sum of ranks == order) are the terms of W_order.
"""
from fractions import Fraction
from math import factorial
from lib import symt

LEVELS = ['singles', 'doubles', 'triples', 'quadruples', 'quintuples', 'sextuples']


def explore(order):
    """BFS over composition prefixes; returns (complete compositions, states, transitions)"""
    frontier, seen, done, trans = [()], {()}, [], 0
    while frontier:
        nxt = []
        for p in frontier:
            left = order - sum(p)
            if left == 0:
                done.append(p)
                continue
            for n in range(1, left + 1):
                trans += 1
                q = p + (n,)
                assert q not in seen
                seen.add(q)
                nxt.append(q)
        frontier = nxt
    return done, len(seen), trans


def coefficient(comp):
    c = Fraction(1, factorial(len(comp)))
    for n in comp:
        c /= factorial(n)
    return c


def linked(comp):
    return sum(1 for n in comp if n > 1) <= 1


def allowed(comp, ansatz):
    """which products enter for an ansatz"""
    if len(comp) == 1:
        return True
    if ansatz == 'VECI':
        return False
    if ansatz == 'VE_MIXED':
        return linked(comp)
    return True


def chain(names, ranks, order):
    """raw einsum of a product along the electronic chain a-c-d-..-b"""
    f, v = [], 0
    prev = ('A', 'a')
    for i, (nm, r) in enumerate(zip(names, ranks)):
        nxt = ('A', 'b') if i == len(ranks) - 1 else ('A', f's{i}')
        labs = (prev, nxt) + tuple(('N', f'x{v + j}') for j in range(r))
        v += r
        f.append((nm, (('e', 0), ('e', 1)) + (('v', 0),) * r, labs))
        prev = nxt
    out = (('A', 'a'), ('A', 'b')) + tuple(('N', f'x{j}') for j in range(order))
    return tuple(f), out


def tname(n):
    return f't{n}'


def amp(prefix, n):
    return symt.T.atom(f'{prefix}{n}', ('A', 'A') + ('N',) * n)


def flags(level):
    """level = highest amplitude rank kept"""
    d = {lv: (i + 1 <= level) for i, lv in enumerate(LEVELS)}
    d['cc_truncation_order'] = LEVELS[level - 1]
    return d


ANSATZE = ('VECI', 'VE_MIXED', 'VECC')


def ansatz(name):
    return symt.Flags('ansatz', **{a: a == name for a in ANSATZE})


def w_value(order, level, ans):
    d = {}
    comps, st, tr = explore(order)
    n = 0
    for c in comps:
        if allowed(c, ans) and max(c) <= level:
            f, o = chain([tname(x) for x in c], c, order)
            k = symt.canon(f, o, 'sym')
            d[k] = d.get(k, 0) + coefficient(c)
            n += 1
    return d, st, tr, n


def dt_disconnected(order, ans):
    d, n = {}, 0
    comps, st, tr = explore(order)
    for c in comps:
        if len(c) < 2 or not allowed(c, ans):
            continue
        for j in range(len(c)):     # exactly one factor differentiated
            tr += 1
            n += 1
            names = [('dt' if i == j else 't') + str(x) for i, x in enumerate(c)]
            f, o = chain(names, c, order)
            k = symt.canon(f, o, 'sym')
            d[k] = d.get(k, 0) + coefficient(c)
    return d, st + n, tr, n


def diff(got, want):
    """human readable difference of two value dicts, [] if equal"""
    out = []
    for k in sorted(set(got) | set(want), key=repr):
        g, w = got.get(k, 0), want.get(k, 0)
        if g != w:
            out.append((k, g, w))
    return out


def show(k):
    fs, o = k[0], k[1]
    return ' '.join(f"{n}[{','.join(f'{g[0]}{g[1]}:{l}' for g, l in ls)}]" for n, ls in fs) + f' -> {o}'
