"""C06: generated dt-amplitude module subtracts exactly the derivative's disconnected products."""
import types
from fractions import Fraction
from math import factorial
from lib import symt, refcc
from lib.harness import quiet

TAGS = ['singles', 'doubles', 'triples', 'quadruples', 'quintuples', 'sextuples']


def imports():
    global G
    import code_dt_equations as G


def generate(order):
    with quiet():
        G.generate_dt_amplitude_equations_file(order, path='dt.py')
    return open('dt.py').read()


class ResidualStub:
    """records how the residual is requested; the value is an opaque symbolic tensor"""
    def __init__(self):
        self.calls = []

    def __getattr__(self, k):
        if k.startswith('calculate_order_') and k.endswith('_residual'):
            n = int(k.split('_')[2])

            def f(*args, **kw):
                self.calls.append((n, args, kw))
                return symt.T.atom(f'residual{n}', ('A', 'A') + ('N',) * n)
            return f
        raise symt.SymError(f'residual_equations.{k}')


def args():
    return dict(
        eps=symt.T.atom('epsilon', ('A', 'A')),
        h=tuple(symt.T.atom(f'h{i}', ('A', 'A')) for i in range(6)),
        t=tuple(refcc.amp('t', n) for n in range(1, 7)),
        dt=tuple(refcc.amp('dt', n) for n in range(1, 7)),
        w=tuple(refcc.amp('w', n) for n in range(1, 7)),
    )


def reference(k, ans):
    d, st, tr, n = refcc.dt_disconnected(k, ans)
    want = {key: -v for key, v in d.items()}
    out = (('A', 'a'), ('A', 'b')) + tuple(('N', i) for i in range(k))
    v = tuple(('N', i) for i in range(k))
    g = (('e', 0), ('e', 1)) + (('v', 0),) * k
    want[symt.canon(((f'residual{k}', g, (('A', 'a'), ('A', 'b')) + v),), out, 'sym')] = Fraction(1)
    key = symt.canon(((f'w{k}', g, (('A', 'a'), ('A', 'c')) + v),
                      ('epsilon', (('e', 0), ('e', 1)), (('A', 'c'), ('A', 'b')))), out, 'sym')
    want[key] = -Fraction(1, factorial(k))
    return want, st + 2, tr + 2, n + 2


def evaluate(src, k, level, ans, optimized, out=None):
    stub = ResidualStub()
    ns = symt.load_generated(src, {'residual_equations': stub})
    tr = symt.Flags('truncation', **refcc.flags(level))
    an = refcc.ansatz(ans)
    a = args()
    pos = (symt.A, symt.N, an, tr, a['eps'], a['h'], a['t'], a['dt'], a['w'])
    if optimized:
        paths = ns['compute_optimized_paths'](symt.A, symt.N, tr)
        r = ns[f'solve_{TAGS[k - 1]}_equations_optimized'](*pos, paths)
        if out is not None:
            out.append(paths)
    else:
        r = ns[f'solve_{TAGS[k - 1]}_equations'](*pos)
    if [c[0] for c in stub.calls] != [k]:
        raise symt.SymError(f'residuals evaluated: {[c[0] for c in stub.calls]}, expected exactly [{k}]')
    n, ra, kw = stub.calls[0]
    if kw or len(ra) != 5 or ra[0] is not symt.A or ra[1] is not symt.N or ra[2] is not tr \
            or ra[3] is not a['h'] or ra[4] is not a['w']:
        raise symt.SymError('residual evaluated with the wrong arguments')
    for group, nm in (('t', 't'), ('dt', 'dt'), ('w', 'w')):
        for i, x in enumerate(a[group]):
            if x.value() != refcc.amp(nm, i + 1).value():
                raise symt.SymError(f'input {nm}{i+1} was modified')
    return r


def run_case(case):
    order, optimized = case
    res = {'viol': [], 'samples': [], 'outcomes': [], 'states': 0, 'transitions': 0, 'traces': 0, 'cases': 0}

    def bad(key, what):
        res['viol'].append({'key': key, 'what': what, 'case': case})
    try:
        src = generate(order)
        symt.load_generated(src)
    except Exception as e:
        bad(f'max_order={order} generation', f'generating or importing failed: {e!r}')
        return res
    for k in range(1, order + 1):
        for level in range(1, 7):
            for ans in refcc.ANSATZE:
                tag = f'max_order={order} order={k} level={level} ansatz={ans} optimized={optimized}'
                res['cases'] += 1
                try:
                    g = evaluate(src, k, level, ans, optimized)
                except symt.SymError as e:
                    bad(tag, f'{e}')
                    continue
                except Exception as e:
                    if level < k:       # equation not part of this truncation: refused
                        res['outcomes'].append('refused')
                        continue
                    bad(tag, f'raised {e!r}')
                    continue
                if level < k:
                    bad(tag, 'amplitude beyond the truncation level was computed instead of refused')
                    continue
                want, st, trn, n = reference(k, ans)
                res['states'] += st
                res['transitions'] += trn
                res['traces'] += n
                if not isinstance(g, symt.T) or g.kinds != ('A', 'A') + ('N',) * k:
                    bad(tag, f'wrong result {g!r}')
                    continue
                if not g.sym and k > 1:
                    bad(tag, 'result not symmetrised')
                for key, x, y in refcc.diff(g.value('sym'), want)[:5]:
                    bad(f'{tag} {refcc.show(key)}', f'coefficient {x}, theory {y}')
                res['outcomes'].append((k, ans, len(want)))
                if len(res['samples']) < 2:
                    res['samples'].append(f'{tag}: {n} terms equal')
    return res


def main(chk, tier):
    chk.run(run_case, [(o, opt) for o in range(1, 7) for opt in (False, True)])
    return chk.finish(True, 'generated max order 1..6 x equation order x level 1..6 x 3 ansatze x default/optimized')
