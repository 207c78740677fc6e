"""C08: the W operator LaTeX lists every product of amplitudes of the exponential once, with its exact coefficient."""
import re
from fractions import Fraction
from math import factorial
from lib.harness import quiet
from lib.latexp import frac_value, tokenize
from lib.ref_fcc import lhs_products


def imports():
    global G
    import latex_w_equations as G


class Bad(Exception):
    pass


TERM = re.compile(r'\s*(?:\\frac\{(?P<num>[^{}]*)\}\{(?P<den>[^{}]*)\})?(?P<rest>.*)', re.S)
SCR = r'((?:[\^_](?:\{\d+\}|\d))+)'
FACT = re.compile(r'\s*(?:\(\s*\\bt' + SCR + r'\s*\)\s*\^(\{\d+\}|\d)|\\bt' + SCR + r')', re.S)


def scripts(s):
    up = low = 0
    seen = set()
    for w, v in re.findall(r'([\^_])(\{\d+\}|\d)', s):
        if w in seen:
            raise Bad(f'double script {s}')
        seen.add(w)
        if w == '^':
            up = int(v.strip('{}'))
        else:
            low = int(v.strip('{}'))
    return up, low


def products(s):
    """{multiset of (m, n): coefficient} of a sum of products"""
    out = {}
    for t in s.split('+'):
        m = TERM.match(t)
        c = Fraction(1)
        if m.group('num') is not None:
            c = frac_value(tokenize(m.group('num'))) / frac_value(tokenize(m.group('den')))
        rest, fs = m.group('rest').strip(), []
        if not rest:
            raise Bad(f'empty term in {s!r}')
        while rest:
            f = FACT.match(rest)
            if not f:
                raise Bad(f'cannot read {rest!r}')
            if f.group(1):
                fs += [scripts(f.group(1))] * int(f.group(2).strip('{}'))
            else:
                fs.append(scripts(f.group(3)))
            rest = rest[f.end():].strip()
        k = tuple(sorted(fs))
        if k in out:
            raise Bad(f'{k} printed twice')
        out[k] = c
    return out


EQ = re.compile(r'(?:\\bW|\\textbf\{W\})' + SCR + r'\s*&?=\s*(.*?)\s*(?:\\\\\s*$|$)', re.S)


def equations(body):
    """[(up, low), symmetrised, text]"""
    starts = [m.start() for m in re.finditer(r'(?:\\bW|\\textbf\{W\})(?=[\^_])', body)]
    ends = starts[1:] + [len(body)]
    out = []
    for a, b in zip(starts, ends):
        m = EQ.match(body[a:b].strip())
        if not m:
            raise Bad(f'cannot read {body[a:b]!r}')
        rhs = m.group(2).strip()
        rhs = re.sub(r'\\\\\s*$', '', rhs).strip()
        sym = rhs.startswith(r'\hat{S}(')
        if sym:
            if not rhs.endswith(')'):
                raise Bad(f'unbalanced {rhs!r}')
            rhs = rhs[len(r'\hat{S}('):-1]
        out.append((scripts(m.group(1)), sym, rhs))
    return out


def reference(m, n):
    """coefficient of each product in exp(T): 1 / prod(multiplicity!)"""
    prods, st = lhs_products(m, n)
    out = {}
    for p in prods:
        c = Fraction(1)
        for x in set(p):
            c /= factorial(p.count(x))
        out[p] = c
    return out, st


def run_case(case):
    kind, order, before = case
    res = {'viol': [], 'samples': [], 'outcomes': [], 'states': 0, 'transitions': 0, 'traces': 0, 'cases': 1}
    head = f'{kind} max_order={order} file={before}'

    def bad(key, what):
        res['viol'].append({'key': key, 'what': what, 'case': case})
    own = '\\documentclass{book}\n\\newcommand{\\bt}{t}\n\\begin{document}\n'
    try:
        gen = G.ground_state_w_equations_latex if kind == 'ground' else G.excited_state_w_equations_latex
        with quiet():
            if before == 'own header':
                open('w.tex', 'w').write(own + 'old text\n\\end{document}')
            elif before == 'long file':
                open('w.tex', 'w').write(''.join(f'line {i}\n' for i in range(100)))
            elif before == 'same':
                gen(order, path='w.tex')
            elif before == 'other':
                gen(order + 1 if order < 3 else 1, path='w.tex')
            gen(order, path='w.tex')
        text = open('w.tex').read()
    except Exception as e:
        bad(f'{head} generation', f'{e!r}')
        return res
    if before == 'own header' and kind == 'excited':
        if not text.startswith(own) or 'old text' in text or not text.rstrip().endswith(r'\end{document}'):
            bad(f'{head} header', f'the header of an existing document is not kept: {text[:300]!r}')
    elif 'old text' in text or 'line 3' in text:
        bad(f'{head} leftovers', 'text of the previous file is left over')
    if text.count(r'\begin{document}') != text.count(r'\end{document}') or text.count(r'\begin{document}') > 1:
        bad(f'{head} document', 'the document is not opened and closed once')
    if kind == 'ground' and not text.rstrip().endswith(r'\end{document}'):
        bad(f'{head} document', 'the document is not closed')
    env = 'align' if kind == 'ground' else 'equation'
    try:
        if text.count(rf'\begin{{{env}}}') != 1 or text.count(rf'\end{{{env}}}') != 1:
            raise Bad('not exactly one equation environment')
        body = text.split(rf'\begin{{{env}}}')[1].split(rf'\end{{{env}}}')[0]
        eqs = equations(body)
    except Bad as e:
        bad(f'{head} parse', str(e))
        return res
    want = [(0, 0)] + [(n, 0) for n in range(1, order + 1)]
    if kind == 'excited':
        want = [(0, 0)] + [(i, n - i) for n in range(1, order + 1) for i in range(n, 0, -1)]
    if sorted(e[0] for e in eqs) != sorted(want):
        bad(f'{head} operators', f'W operators {[e[0] for e in eqs]}')
    for (m, n), sym, rhs in eqs:
        tag = f'{kind} W^{m}_{n}'
        if (m, n) == (0, 0):
            if rhs != '1' or sym:
                bad(f'{tag} is {rhs}', head)
            continue
        if sym != (m + n > 1):
            bad(f'{tag} symmetrised={sym}', head)
        try:
            got = products(rhs)
        except (Bad, ValueError) as e:
            bad(f'{tag} parse {e}', head)
            continue
        ref, st = reference(m, n)
        if kind == 'excited' and n:
            ref = {k: v for k, v in ref.items() if len(k) > 1}   # mixed operators list products only
        res['states'] += st
        res['transitions'] += st
        res['traces'] += len(ref)
        for k in sorted(set(got) | set(ref)):
            if got.get(k, 0) != ref.get(k, 0):
                bad(f'{tag} product {k} coefficient={got.get(k, 0)} theory={ref.get(k, 0)}', head)
        res['outcomes'].append((kind, m, n, len(ref)))
    res['samples'].append(f'{head}: {len(eqs)} operators')
    return res


def main(chk, tier):
    g = 14 if tier == 'quick' else 24
    cases = [('ground', o, b) for o in range(1, g + 1) for b in ('new', 'same', 'own header', 'long file')]
    cases += [('excited', o, b) for o in range(1, 5) for b in ('new', 'same', 'other', 'own header', 'long file')]
    chk.run(run_case, cases, timeout=800)
    return chk.finish(True, f'ground orders 1..{g}, excited orders 1..4, every kind of file already at the path')
