"""A small evaluator for the LaTeX that the generators write.

An equation is evaluated to a list of products (coefficient, symbols, tensors):
  coefficient  Fraction
  symbols      sorted tuple of scalar symbols, e.g. ('f', 'fbar', 'i', 'offdiag')
  tensors      tuple of Tensor(name, d, up, low), d = True under a time derivative
Sums are expanded, parentheses multiplied out; colours, line breaks, comments and alignment marks carry no meaning.
"""
import re
from collections import namedtuple
from fractions import Fraction
from math import factorial

Tensor = namedtuple('Tensor', 'name d up low')


class LatexError(Exception):
    pass


TENSORS = {r'\bh': 'h', r'\bt': 't', r'\bs': 's', r'\bz': 'z', r'\bw': 'w', r'\bc': 'c', r'\bd': 'd', r'\bG': 'G'}
SKIP = {r'\,', r'\sum', r'\quad', r'\qquad', '&', r'\\', '~', r'\displaystyle', r'\nonumber', r'\;', r'\:', r'\!'}

TOKEN = re.compile(r'\\[a-zA-Z]+|\\.|[{}()^_+\-*/&!,=|]|[0-9]+|[a-zA-Z]|\s+|.', re.S)


def strip_comments(s):
    return re.sub(r'(?<!\\)%[^\n]*', '', s)


def tokenize(s):
    out = []
    for t in TOKEN.findall(strip_comments(s)):
        if t.isspace() or t in SKIP:
            continue
        out.append(t)
    return out


def mul(x, y):
    return [(a * b, tuple(sorted(s + t)), u + v) for a, s, u in x for b, t, v in y]


class P:
    def __init__(self, s):
        self.t = tokenize(s)
        self.i = 0

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else None

    def pop(self, want=None):
        if self.i >= len(self.t):
            raise LatexError(f'unexpected end, wanted {want}')
        x = self.t[self.i]
        if want is not None and x != want:
            raise LatexError(f'expected {want!r}, found {x!r} near {"".join(self.t[max(0, self.i - 12):self.i + 6])}')
        self.i += 1
        return x

    def group(self):
        """raw tokens of a {...} group (or a single token)"""
        if self.peek() != '{':
            t = self.pop()
            if len(t) > 1 and t.isdigit():      # TeX takes the first digit only
                raise LatexError(f'argument {t} without braces')
            return [t]
        self.pop('{')
        depth, out = 1, []
        while True:
            x = self.pop()
            if x == '{':
                depth += 1
            elif x == '}':
                depth -= 1
                if depth == 0:
                    return out
            out.append(x)

    # ---- sums -------------------------------------------------------------------------------
    def expr(self, stop):
        """until a stop token (not consumed); an empty expression is zero"""
        out = []
        sign = 1            # None: an operator has to come first
        while True:
            t = self.peek()
            if t is None or t in stop:
                return out
            if t in ('+', '-'):
                self.pop()
                if self.peek() in ('+', '-'):
                    raise LatexError('two operators in a row')
                if self.peek() is None or self.peek() in stop:
                    raise LatexError('dangling operator')
                sign = -1 if t == '-' else 1
                continue
            if sign is None:
                raise LatexError('missing operator')
            for c, s, f in self.term(stop):
                out.append((c * sign, s, f))
            sign = None

    def term(self, stop):
        cur = None
        while True:
            t = self.peek()
            if t is None or t in stop or t in ('+', '-'):
                break
            f = self.factor(stop)
            if f is None:
                continue
            cur = f if cur is None else mul(cur, f)
        if cur is None:
            raise LatexError('empty term')
        return cur

    ONE = [(Fraction(1), (), ())]

    def sym(self, name):
        k = 1
        if self.peek() == '^':
            self.pop()
            g = ''.join(self.group())
            if not g.isdigit():
                raise LatexError(f'power {g!r}')
            k = int(g)
        return [(Fraction(1), (name,) * k, ())]

    def factor(self, stop):
        t = self.pop()
        if t == r'\left' or t in (r'\Big', r'\big', r'\bigg', r'\Bigg'):
            o = self.pop()
            if o == '(':
                close = r'\right' if t == r'\left' else t
                # offdiagonal marker or a sum
                r = self.paren(close)
                return r
            raise LatexError(f'{t}{o}')
        if t == '(':
            return self.paren(None)
        if t == r'\frac':
            return [(frac_value(self.group()) / frac_value(self.group()), (), ())]
        if t == r'\bar':
            if ''.join(self.group()) != 'f':
                raise LatexError('bar of something else than f')
            return self.sym('fbar')
        if t == 'f':
            return self.sym('f')
        if t == 'i':
            return self.sym('i')
        if t == r'\varepsilon':
            return self.sym('eps')
        if t == r'\mathds':
            if ''.join(self.group()) != '1':
                raise LatexError('mathds of something else than 1')
            return self.ONE
        if t == r'\textit' or t == r'\text':
            self.group()
            return []
        if t == r'\disconnected':
            return P_sub(self.group())
        if t == r'\dv':
            num = self.group()
            den = ''.join(self.group())
            if den.replace(' ', '') != r'\tau':
                raise LatexError(f'derivative with respect to {den}')
            r = P_sub(num)
            if len(r) != 1 or r[0][0] != 1 or len(r[0][2]) != 1 or r[0][1]:
                raise LatexError('derivative of something else than one tensor')
            x = r[0][2][0]
            return [(Fraction(1), (), (x._replace(d=True),))]
        if t == r'\hat':
            g = self.group()
            if len(g) == 1 and g[0] in TENSORS:
                return self.tensor(TENSORS[g[0]])
            raise LatexError(f'hat of {"".join(g)}')
        if t in TENSORS:
            return self.tensor(TENSORS[t])
        if t.isdigit():
            v = int(t)
            if self.peek() == '!':
                self.pop()
                v = factorial(v)
            return [(Fraction(v), (), ())]
        if t == '{':        # bare group
            self.i -= 1
            return P_sub(self.group())
        raise LatexError(f'unknown token {t!r} near {"".join(self.t[max(0, self.i - 12):self.i + 6])}')

    def paren(self, close):
        # (1-\delta_{..})
        if self.peek() == '1' and self.peek(1) == '-' and self.peek(2) == r'\delta':
            self.pop(), self.pop(), self.pop()
            self.pop('_')
            lab = ''.join(self.group())
            if close:
                self.pop(close)
            self.pop(')')
            return [(Fraction(1), (f'offdiag:{lab}',), ())]
        stop = (close,) if close else (')',)
        r = self.expr(stop)
        if close:
            self.pop(close)
        self.pop(')')
        return r

    def tensor(self, name):
        up, low = [], []
        zero = False
        seen = set()
        while self.peek() in ('^', '_'):
            w = self.pop()
            if w in seen:
                raise LatexError('double script')
            seen.add(w)
            labs, z = labels(self.group())
            zero = zero or z
            (up if w == '^' else low).extend(labs)
        return [(Fraction(1), (), (Tensor(name, False, tuple(up), tuple(low)),))]


def P_sub(tokens):
    p = P('')
    p.t = list(tokens)
    r = p.expr(())
    return r


COLOURS = {r'\blue', r'\red', r'\magenta'}


def labels(tokens):
    """letters of a script; colour macros and surface labels (gamma, what follows a comma) do not count"""
    out, zero, i = [], False, 0
    toks = list(tokens)
    while i < len(toks):
        t = toks[i]
        if t in COLOURS or t in ('{', '}', ' '):
            pass
        elif t == r'\gamma' or t == ',':
            # surface labels come last
            if t == ',':
                break
        elif t.isdigit():
            if t != '0':
                raise LatexError(f'number {t} used as a label')
            zero = True
        elif len(t) == 1 and t.isalpha():
            out.append(t)
        else:
            raise LatexError(f'label {t!r}')
        i += 1
    if zero and out:
        raise LatexError(f'zero and labels mixed: {"".join(toks)}')
    return out, zero


def frac_value(tokens):
    """value of e.g. (2)2!3! or 1 or 2!2!"""
    v, i, n = Fraction(1), 0, 0
    toks = [t for t in tokens if t not in ('(', ')', '{', '}', r'\cdot', '*')]
    while i < len(toks):
        t = toks[i]
        if not t.isdigit():
            raise LatexError(f'fraction part {"".join(tokens)}')
        x = int(t)
        if i + 1 < len(toks) and toks[i + 1] == '!':
            x = factorial(x)
            i += 1
        v *= x
        i += 1
        n += 1
    if not n:
        raise LatexError('empty fraction part')
    return v


def evaluate(s):
    p = P(s)
    r = p.expr(())
    if p.i != len(p.t):
        raise LatexError('trailing tokens')
    return r


# --------------------------------------------------------------------------------------------------
def sections(tex):
    """[(omega string, text until the next omega)] of a generated file; the header's own example is skipped"""
    body = tex
    ms = [m for m in re.finditer(r'\\hat\{\\Omega\}\s*=\s*([^\n]*)\n', body)
          if '+' not in m.group(1)]
    out = []
    for i, m in enumerate(ms):
        end = ms[i + 1].start() if i + 1 < len(ms) else len(body)
        out.append((m.group(1).strip(), body[m.end():end]))
    return out


def omega_mn(s):
    """(m, n): number of creation (up) and annihilation (down) operators"""
    return len(re.findall(r'\\up\{', s)), len(re.findall(r'\\down\{', s))


def between(text, start, end):
    i = text.index(start) + len(start)
    j = text.index(end, i)
    return text[i:j]
