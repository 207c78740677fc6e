"""C13: every generated LaTeX document is well formed.

A push-down automaton (braces, environments, \\left ... \\right, parentheses of equations) runs over the whole document of
every configuration of the lattice; scripts are checked for repetition and every command used after \\begin{document} has
to be defined by the document's own preamble or by the packages it loads.
"""
import itertools as it
import re
from lib import fcc_tex, ops

BASE = set('''begin end section subsection subsubsection paragraph newpage clearpage pagebreak vspace hspace noindent textbf textit emph
frac sum bar hat tilde left right Big big Bigg bigg cdots ldots dots quad qquad equiv approx ket text sqrt cdot times prod
alpha beta gamma delta epsilon varepsilon tau lambda chi psi phi Psi Phi Omega Gamma Delta label ref item dagger mathrm mathbf
underbrace overbrace limits nonumber displaystyle int infty le ge neq exp ln hline centering title author date maketitle'''.split())
PACKAGES = {'amsmath': {'text', 'intertext', 'tag', 'dfrac', 'tfrac', 'binom', 'boldsymbol', 'operatorname'},
            'physics': {'dv', 'pdv', 'ket', 'bra', 'mel', 'braket', 'expval', 'qty', 'abs', 'norm', 'comm', 'dd', 'tr', 'Tr'},
            'simplewick': {'contraction', 'acontraction', 'bcontraction'},
            'bm': {'bm'}, 'dsfont': {'mathds'}, 'amssymb': {'mathbb', 'mathfrak'}, 'color': {'color', 'colorbox', 'textcolor'}}
NEEDS = {'ket': 'physics', 'bra': 'physics', 'mel': 'physics', 'dv': 'physics', 'text': 'amsmath'}
MATH = ('equation', 'align', 'split', 'equation*', 'align*')
MATHENV = {'env ' + e for e in MATH + ('gather', 'gather*', 'multline', 'multline*')}


def imports():
    ops.imports()


TOK = re.compile(r'\\begin\{[^}]*\}|\\end\{[^}]*\}|\\[A-Za-z]+\*?|\\.|[{}()^_]|\n[ \t]*\n|\s+|[^\\{}()^_\s]+', re.S)


def problems(tex, fragment=False):
    """messages about a whole document"""
    out = []
    src = re.sub(r'(?<!\\)%[^\n]*', '%', tex)        # a comment line is not a blank line
    pre, sep, body = src.partition(r'\begin{document}')
    if not sep:
        if not fragment:
            return ['no \\begin{document}']
        pre, body = '', src
    elif not fragment or r'\end{document}' in body:
        if body.count(r'\end{document}') != 1 or body.split(r'\end{document}')[1].strip(' \n%'):
            out.append('\\end{document} is not the single last command')
        if r'\documentclass' not in pre:
            out.append('no document class')
    defined = set(re.findall(r'\\(?:newcommand|renewcommand|providecommand|NewDocumentCommand|DeclareMathOperator)\*?\s*\{?\\'
                             r'([A-Za-z]+)', pre))
    packages = set()
    for m in re.findall(r'\\usepackage(?:\[[^\]]*\])?\{([^}]*)\}', pre):
        packages |= {x.strip() for x in m.split(',')}
    known = BASE | defined
    for p in packages:
        known = known | PACKAGES.get(p, set())
    if not fragment:
        for c, p in NEEDS.items():
            if p not in packages and c not in defined:
                known.discard(c)
    else:
        known = known | {'bt', 'bW'}          # the fragment is meant to be pasted in a document that has them
    stack = []
    body = body.split(r'\end{document}')[0]
    frame = [(frozenset(), False)]          # per brace depth: scripts of the last atom, and whether a script is due
    amps = 0                # alignment tabs in the present row of a split environment
    dollar = False
    for m in TOK.finditer(body):
        t = m.group(0)
        where = body[max(0, m.start() - 40):m.end() + 20].replace('\n', ' ')
        top = stack[-1] if stack else ''
        env = next((x for x in reversed(stack) if x.startswith('env ')), '')
        maths = dollar or any(x in MATHENV for x in stack)
        if '$' in t and not t.startswith('\\'):
            dollar ^= t.count('$') % 2 == 1
        if not fragment:
            if t in ('^', '_') and not maths and '$' not in body:
                out.append(f'{t} outside an equation near {where!r}')
            n = 0 if t.startswith('\\') else t.count('&')
            if n or t == '\\\\':
                if 'left' in stack[stack.index(env) if env else 0:]:
                    return out + [f'a row ends between \\left and \\right near {where!r}']
                if n and (top == '{' or env not in ('env split', 'env align', 'env align*', 'env aligned', 'env array', 'env tabular')):
                    return out + [f'alignment tab outside an alignment near {where!r}']
                amps = amps + n if n else 0
                if amps > 1 and env == 'env split':
                    out.append(f'two alignment tabs in a row near {where!r}')
            if t.startswith(r'\begin{'):
                amps = 0
                if 'env ' + t[7:-1] in MATHENV and maths and t != r'\begin{split}':
                    out.append(f'{t} inside an equation near {where!r}')
                if t == r'\begin{split}' and not maths:
                    out.append(f'{t} outside an equation near {where!r}')
        if t.startswith(r'\begin{'):
            stack.append('env ' + t[7:-1])
        elif t.startswith(r'\end{'):
            if top != 'env ' + t[5:-1]:
                return out + [f'{t} closes {top or "nothing"} near {where!r}']
            stack.pop()
        elif t == '{':
            stack.append('{')
        elif t == '}':
            if top != '{':
                return out + [f'unbalanced }} near {where!r}']
            stack.pop()
        elif t == '(' and any(s.startswith('env') for s in stack):
            stack.append('(')
        elif t == ')' and any(s.startswith('env') for s in stack):
            if top != '(':
                return out + [f'unbalanced ) near {where!r}']
            stack.pop()
        elif t == r'\left':
            stack.append('left')
        elif t == r'\right':
            # the parenthesis that belongs to \left is still open
            if not (top == '(' and len(stack) > 1 and stack[-2] == 'left'):
                return out + [f'\\right without \\left near {where!r}']
            del stack[-2]
        elif t.startswith('\n') and t.count('\n') > 1 and not fragment:
            if any(s in ('env ' + e for e in MATH) for s in stack):
                out.append(f'blank line inside an equation near {where!r}')
        elif re.fullmatch(r'\\[A-Za-z]+\*?', t) and t[1:].rstrip('*') not in known:
            out.append(f'command {t} is not defined')
        # double scripts: an atom carries at most one ^ and one _ (each followed by one token or one group)
        if t in ('^', '_'):
            if t in frame[-1][0]:
                return out + [f'double script {t} near {where!r}']
            frame[-1] = (frame[-1][0] | {t}, True)
        elif t == '{':
            frame.append((frozenset(), False))
        elif t == '}':
            frame.pop()
            seen, script = frame[-1]
            frame[-1] = (seen if script else frozenset(), False)
        elif not t.isspace() and not t.startswith('%'):
            seen, script = frame[-1]
            single = len(t) == 1 or t.startswith('\\')
            if script and not single and t[:2].isdigit():       # x^10 is typeset as x^{1}0
                out.append(f'script of several digits without braces near {where!r}')
            frame[-1] = (seen if script and single else frozenset(), False)
    if stack:
        out.append(f'not closed at the end: {stack}')
    return out


def run_case(case):
    req = (case[0], tuple(tuple(x) if isinstance(x, (list, tuple)) else x for x in case[1]))
    res = {'viol': [], 'samples': [], 'outcomes': [], 'states': 0, 'transitions': 0, 'traces': 1, 'cases': 1}
    out, tex = ops.perform(req)
    if out != 'file':
        if out != 'raised NotImplementedError':
            res['viol'].append({'key': f'{req[0]}{req[1]}: {out}', 'what': tex, 'case': case})
        res['outcomes'].append('refused')
        return res
    n = len(TOK.findall(tex))
    res['states'] += n + 1
    res['transitions'] += n
    for p in problems(tex, req[0] == 'wLx')[:5]:
        res['viol'].append({'key': f'{req[0]}{req[1]} {p}', 'what': p, 'case': case})
    res['outcomes'].append((req[0], len(tex)))
    res['samples'].append(f'{req}: {n} tokens')
    return res


def main(chk, tier):
    cases = [('fccL', (t, g, f)) for t in fcc_tex.lattice(tier) for g, f in it.product((True, False), repeat=2)]
    cases += [('ztL', (t, True, f)) for t in it.product(range(1, 7), repeat=3) for f in (False, True)]
    r = (1, 2, 3) if tier == 'quick' else (1, 2, 3, 4)
    et = {(h, c, 1, e, p) for h, c, e, p in it.product(r, repeat=4)} | {(2, c, 1, 2, p) for c in range(1, 7) for p in range(1, 7)}
    et |= {(2, 2, 1, e, 2) for e in range(1, 9)} | {(h, 2, 1, 2, 2) for h in range(1, 7)} | {(2, 6, 1, 6, 2), (6, 6, 1, 3, 2)}
    cases += [('eTL', (t, True, f, s)) for t in sorted(et) for s in ('RHS', 'LHS') for f in (False, True)]
    cases += [('wL', (n,)) for n in range(0, 13)] + [('wLx', (n,)) for n in range(0, 5)]
    chk.run(run_case, cases, timeout=600)
    return chk.finish(True, f'{len(cases)} documents: the lattices of full cc (ground and excited), z_t (all), eT_z_t, W')
