"""Symbolic execution of *generated* Python modules.

A tensor is a formal sum  sum_k coeff_k * monomial_k  where a monomial is a product of named
tensors with index labels (an einsum), held in canonical form: renaming of summed labels,
reordering of factors and permutation of interchangeable axes of one factor do not change it.
Two generated modules that compute the same function of their (symbolic) inputs therefore yield
equal values, whatever the text looks like.
"""
import itertools
import math
import types
from fractions import Fraction
from functools import lru_cache


class SymError(Exception):
    """The generated code did something a real array library would reject (or computed nonsense)."""


# ------------------------------------------------------------------------------------------------
# canonical forms
# ------------------------------------------------------------------------------------------------
# raw monomial: (factors, out, mode)
#    factors: tuple of (name, groups, labels);  groups[i] = symmetry group of axis i
#    out:     tuple of labels (positional)
#    mode:    'pos' output axes positional; 'sym' vibrational output axes interchangeable
#    kinds:   dict label->kind given through label being (kind, id)
@lru_cache(maxsize=None)
def _canon(factors, out, mode):
    labels = sorted({l for _, _, ls in factors for l in ls} | set(out))
    inc = {l: [] for l in labels}       # label -> [(factor, group)]
    for fi, (_, gs, ls) in enumerate(factors):
        for g, l in zip(gs, ls):
            inc[l].append((fi, g))
    base = {}
    for l in labels:
        pos = tuple(i for i, o in enumerate(out) if o == l)
        if mode == 'sym' and l[0] == 'N':
            pos = ('s', len(pos)) if pos else ()
        base[l] = (l[0], pos)

    def refine(lc, fc):
        while True:
            nf = {}
            for fi, (name, gs, ls) in enumerate(factors):
                nf[fi] = (fc[fi], tuple(sorted((g, lc[l]) for g, l in zip(gs, ls))))
            nl = {l: (lc[l], tuple(sorted((g, fc[fi]) for fi, g in inc[l]))) for l in labels}
            fr = {c: i for i, c in enumerate(sorted(set(nf.values())))}
            lr = {c: i for i, c in enumerate(sorted(set(nl.values())))}
            nf = {k: fr[v] for k, v in nf.items()}
            nl = {k: lr[v] for k, v in nl.items()}
            if len(fr) == len(set(fc.values())) and len(lr) == len(set(lc.values())):
                return nl, nf
            lc, fc = nl, nf

    def certificate(lc, fc):
        fs = sorted((factors[fi][0], tuple(sorted((g, lc[l]) for g, l in zip(factors[fi][1], factors[fi][2]))))
                    for fi in range(len(factors)))
        if mode == 'sym':
            o = (tuple(lc[l] for l in out if l[0] != 'N'), tuple(sorted(lc[l] for l in out if l[0] == 'N')))
        else:
            o = tuple(lc[l] for l in out)
        return (tuple(fs), o, mode, tuple(sorted((lc[l], l[0]) for l in labels)))

    best = [None]

    def search(lc, fc):
        lc, fc = refine(lc, fc)
        cells = {}
        for l in labels:
            cells.setdefault(lc[l], []).append(l)
        multi = [c for c in sorted(cells) if len(cells[c]) > 1]
        if not multi:
            cert = certificate(lc, fc)
            if best[0] is None or cert < best[0]:
                best[0] = cert
            return
        c = multi[0]
        members = cells[c]
        # labels with identical incidence are interchangeable: one branch per distinct incidence
        seen = set()
        for l in members:
            key = (tuple(sorted(inc[l])), base[l])
            if key in seen:
                continue
            seen.add(key)
            n = {k: (v * 2 + (0 if k == l else 1)) if v == c else v * 2 for k, v in lc.items()}
            search(n, fc)

    lb = {b: i for i, b in enumerate(sorted(set(base.values()), key=repr))}
    fb = {b: i for i, b in enumerate(sorted({f[0] for f in factors}))}
    search({l: lb[base[l]] for l in labels}, {i: fb[f[0]] for i, f in enumerate(factors)})
    return best[0]


def _normalise(factors, out):
    """first-occurrence renaming so that the cache hits more often"""
    m = {}

    def r(l):
        if l not in m:
            m[l] = (l[0], len(m))
        return m[l]
    o = tuple(r(l) for l in out)
    f = tuple((n, g, tuple(r(l) for l in ls)) for n, g, ls in sorted(factors, key=lambda f: (f[0], f[1])))
    return f, o


def canon(factors, out, mode='pos'):
    f, o = _normalise(factors, out)
    return _canon(f, o, mode)


# ------------------------------------------------------------------------------------------------
class T:
    """formal sum of raw monomials (kept raw so that they can be substituted into further products)"""
    __array_priority__ = 1000

    def __init__(self, kinds, terms=None, sym=False):
        self.kinds = tuple(kinds)
        self.terms = list(terms or [])      # (coeff, factors, out)
        self.sym = sym                      # True once symmetrised over vibrational output axes

    @classmethod
    def atom(cls, name, kinds, groups=None):
        kinds = tuple(kinds)
        if groups is None:      # every electronic axis on its own, all vibrational ones interchangeable
            e = itertools.count()
            groups = tuple(('e', next(e)) if k == 'A' else ('v', 0) for k in kinds)
        labels = tuple((k, i) for i, k in enumerate(kinds))
        return cls(kinds, [(Fraction(1), ((name, tuple(groups), labels),), labels)])

    # --- numpy-like surface
    @property
    def shape(self):
        return tuple(self.kinds)

    @property
    def ndim(self):
        return len(self.kinds)

    def copy(self):
        return T(self.kinds, self.terms, self.sym)

    def _coerce(self, o):
        if isinstance(o, T):
            if o.kinds != self.kinds:
                raise SymError(f"shape mismatch {self.kinds} vs {o.kinds}")
            if o.terms and self.terms and o.sym != self.sym:
                raise SymError("mixing symmetrised and unsymmetrised values")
            return o
        if o == 0:
            return T(self.kinds)
        raise SymError(f"adding scalar {o!r} to a tensor")

    def __iadd__(self, o):
        o = self._coerce(o)
        self.sym = self.sym or o.sym
        self.terms.extend(o.terms)
        return self

    def __isub__(self, o):
        return self.__iadd__(-self._coerce(o))

    def __add__(self, o):
        return self.copy().__iadd__(o)

    __radd__ = __add__

    def __sub__(self, o):
        return self.copy().__isub__(o)

    def __rsub__(self, o):
        return (-self).__iadd__(o)

    def __neg__(self):
        return self * -1

    def __pos__(self):
        return self

    def __mul__(self, c):
        if isinstance(c, T):
            raise SymError("elementwise product of tensors")
        c = to_fraction(c)
        return T(self.kinds, [(c * k, f, o) for k, f, o in self.terms], self.sym)

    __rmul__ = __mul__

    def __imul__(self, c):
        self.terms = (self * c).terms
        return self

    def __truediv__(self, c):
        return self * (1 / to_fraction(c))

    def __itruediv__(self, c):
        return self.__imul__(1 / to_fraction(c))

    def __getitem__(self, k):
        if k is Ellipsis or k == slice(None):
            return self
        raise SymError(f"indexing a tensor with {k!r}")

    def __setitem__(self, k, v):
        if k is Ellipsis or k == slice(None):
            v = self._coerce(v)
            if v is not self:
                self.terms, self.sym = list(v.terms), v.sym
            return
        raise SymError(f"assigning tensor item {k!r}")

    def __bool__(self):
        raise SymError("truth value of an array")

    def __eq__(self, o):
        return self is o

    def __hash__(self):
        return id(self)

    # --- meaning
    def value(self, mode='pos'):
        """dict canonical monomial -> Fraction"""
        if self.sym:
            mode = 'sym'
        d = {}
        for c, f, o in self.terms:
            k = canon(f, o, mode)
            d[k] = d.get(k, 0) + c
        return {k: v for k, v in d.items() if v}


def to_fraction(c):
    if isinstance(c, bool):
        raise SymError("boolean prefactor")
    if isinstance(c, (int, Fraction)):
        return Fraction(c)
    if isinstance(c, float):
        f = Fraction(c).limit_denominator(10 ** 7)
        if abs(float(f) - c) > 1e-12 * max(1.0, abs(c)):
            raise SymError(f"odd prefactor {c!r}")
        return f
    if isinstance(c, complex) and c.imag == 0:
        return to_fraction(c.real)
    raise SymError(f"odd prefactor {c!r}")


_fresh = itertools.count(10 ** 6)


def parse_subscripts(subs, nops):
    s = subs.replace(' ', '')
    if '->' in s:
        lhs, out = s.split('->')
    else:
        lhs, out = s, None
    ins = lhs.split(',')
    if len(ins) != nops:
        raise SymError(f"einsum '{subs}' has {len(ins)} operands, got {nops}")
    for part in ins + ([out] if out else []):
        if not all(ch.isalpha() and ch.isascii() for ch in part):
            raise SymError(f"einsum '{subs}' bad character")
    if out is None:
        allc = ''.join(ins)
        out = ''.join(sorted(ch for ch in set(allc) if allc.count(ch) == 1))
    if len(set(out)) != len(out):
        raise SymError(f"einsum '{subs}' repeated output label")
    for ch in out:
        if ch not in lhs:
            raise SymError(f"einsum '{subs}' output label {ch} not in inputs")
    return ins, out


def einsum(subs, *ops, **kw):
    if not isinstance(subs, str):
        raise SymError("einsum without subscripts")
    for o in ops:
        if not isinstance(o, T):
            raise SymError(f"einsum operand is {type(o).__name__}")
    ins, out = parse_subscripts(subs, len(ops))
    kind = {}
    for part, o in zip(ins, ops):
        if len(part) != len(o.kinds):
            raise SymError(f"einsum '{subs}': '{part}' on a rank {len(o.kinds)} tensor")
        for ch, k in zip(part, o.kinds):
            if kind.setdefault(ch, k) != k:
                raise SymError(f"einsum '{subs}': label {ch} used for both index kinds")
        if o.sym and len([k for k in o.kinds if k == 'N']) > 1:
            raise SymError("symmetrised value used as an operand")
    res = T(tuple(kind[ch] for ch in out))
    for combo in itertools.product(*[o.terms for o in ops]):
        coeff = Fraction(1)
        factors = []
        for part, (c, fs, o) in zip(ins, combo):
            coeff *= c
            m = {}
            for ch, l in zip(part, o):
                if l in m:      # diagonal operand, never produced by generated code
                    raise SymError("diagonal operand")
                m[l] = (kind[ch], ch)
            loc = {}
            for n, g, ls in fs:
                nl = []
                for l in ls:
                    if l in m:
                        nl.append(m[l])
                    else:
                        if l not in loc:
                            loc[l] = (l[0], str(next(_fresh)))
                        nl.append(loc[l])
                factors.append((n, g, tuple(nl)))
        res.terms.append((coeff, tuple(factors), tuple((kind[ch], ch) for ch in out)))
    return res


class Dim:
    def __init__(self, kind):
        self.kind = kind

    def __repr__(self):
        return self.kind


A, N = Dim('A'), Dim('N')


def _shape(shape):
    if isinstance(shape, Dim):
        shape = (shape,)
    for s in shape:
        if not isinstance(s, Dim):
            raise SymError(f"odd shape {shape!r}")
    return tuple(s.kind for s in shape)


def zeros(shape, dtype=None, **kw):
    return T(_shape(shape))


def zeros_like(t, **kw):
    return T(t.kinds)


class ContractExpr:
    """stand-in for opt_einsum.contract_expression"""
    log = []

    def __init__(self, *args, **kw):
        if args and isinstance(args[0], str):
            self.subs, shapes = args[0], args[1:]
            ins, _ = parse_subscripts(self.subs, len(shapes))
        else:
            self.subs, shapes = None, args
            ins = None
        self.shapes = tuple(_shape(s) for s in shapes)
        self.used = 0
        if ins is not None:
            for p, s in zip(ins, self.shapes):
                if len(p) != len(s):
                    raise SymError(f"contract_expression '{self.subs}': shape {s} for '{p}'")
            kind = {}
            for p, s in zip(ins, self.shapes):
                for ch, k in zip(p, s):
                    if kind.setdefault(ch, k) != k:
                        raise SymError(f"contract_expression '{self.subs}': label {ch} has two kinds")

    def __call__(self, *ops, **kw):
        self.used += 1
        if len(ops) != len(self.shapes):
            raise SymError(f"optimized path for {len(self.shapes)} operands called with {len(ops)}")
        for o, s in zip(ops, self.shapes):
            if not isinstance(o, T):
                raise SymError(f"optimized path operand is {type(o).__name__}")
            if o.kinds != s:
                raise SymError(f"optimized path shape {s} called with {o.kinds}")
        if self.subs is None:
            return OPAQUE(self, ops)
        return einsum(self.subs, *ops)


def OPAQUE(expr, ops):
    """value of a path that carries no subscripts: an opaque function of its ordered operands"""
    names = []
    for o in ops:
        (c, fs, out), = o.terms
        names.append(fs[0][0])
    # shape of the result is not recorded in the path: filled in by the accumulating tensor
    return Opaque([(Fraction(1), tuple(names))])


class Opaque:
    def __init__(self, terms):
        self.terms = list(terms)

    def __add__(self, o):
        if isinstance(o, Opaque):
            return Opaque(self.terms + o.terms)
        return NotImplemented

    def __mul__(self, c):
        c = to_fraction(c)
        return Opaque([(c * k, n) for k, n in self.terms])

    __rmul__ = __mul__


class OpaqueR:
    """accumulator for functions whose products are opaque"""
    def __init__(self):
        self.terms = []

    def __iadd__(self, o):
        if isinstance(o, T):
            for c, fs, out in o.terms:
                self.terms.append((c, tuple(f[0] for f in fs)))
        elif isinstance(o, Opaque):
            self.terms.extend(o.terms)
        else:
            raise SymError("odd summand")
        return self


# ------------------------------------------------------------------------------------------------
class Flags:
    """truncation / ansatz object handed to generated code: named booleans, and confirm_* methods"""
    def __init__(self, name, **flags):
        object.__setattr__(self, '_n', name)
        object.__setattr__(self, '_f', flags)
        object.__setattr__(self, 'asked', set())

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        if k in self._f:
            self.asked.add(k)
            return self._f[k]
        if k.startswith('confirm_'):
            tag = k.split('_')[-1]
            for key in (tag, 't_' + tag):
                pass
            self.asked.add(k)
            return lambda *a, **kw: None
        raise SymError(f"unknown {self._n} attribute {k!r}")

    def __str__(self):
        return f"{self._n}({self._f})"

    __repr__ = __str__


class _Log:
    def __getattr__(self, k):
        return lambda *a, **kw: None


class _Permissive(types.SimpleNamespace):
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return lambda *a, **kw: None


def symmetrize_tensor(n, tensor, order=None, **kw):
    if not isinstance(tensor, T):
        raise SymError("symmetrize_tensor on a non tensor")
    nv = tensor.kinds.count('N')
    if order is not None and order != nv:
        raise SymError(f"symmetrize_tensor(order={order}) on a tensor with {nv} vibrational axes")
    if n is not N:
        raise SymError("symmetrize_tensor called with the wrong dimension")
    return T(tensor.kinds, tensor.terms, True)


def _factorial(n):
    return Fraction(math.factorial(n))


def load_generated(source, extra=None, filename='<generated>'):
    """exec generated module text; returns its namespace.  `extra`: name -> stub for local imports"""
    extra = extra or {}
    np = types.SimpleNamespace(einsum=einsum, zeros=zeros, zeros_like=zeros_like, complex128='c16', float64='f8')
    oe = types.SimpleNamespace(contract_expression=ContractExpr, contract=einsum)
    mathmod = types.SimpleNamespace(factorial=_factorial, prod=math.prod)
    top = {
        'numpy': np, 'opt_einsum': oe, 'math': mathmod,
        'itertools': itertools, 'functools': __import__('functools'), 'types': types,
        'symmetrize': types.SimpleNamespace(symmetrize_tensor=symmetrize_tensor),
        'log_conf': types.SimpleNamespace(log=_Log()),
    }
    top.update(extra)

    def imp(name, g=None, l=None, fromlist=(), level=0):
        last = name.split('.')[-1] if name else ''
        if last in top:
            return top[last]
        if name == '' and fromlist:
            return types.SimpleNamespace(**{f: top.get(f, _Permissive()) for f in fromlist})
        if fromlist:
            return types.SimpleNamespace(**{f: top.get(f, _Permissive()) for f in fromlist})
        return _Permissive()

    import builtins
    b = dict(vars(builtins))
    b['__import__'] = imp
    ns = {'__builtins__': b, '__name__': 'generated_module'}
    exec(compile(source, filename, 'exec'), ns)
    return ns
