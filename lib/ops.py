"""Requests to the public generators, as data.  A request is (kind, args); `perform` executes it in the current
directory against the real code and returns what an observer sees: ('file', text) or ('raised', exception type)."""
import os
import shutil
import tempfile
from lib.harness import quiet

PATHS = {'fccL': 'fcc.tex', 'ztL': 'zt.tex', 'eTL': 'et.tex', 'fccP': 'fcc.py', 'eTP': 'et.py',
         'wP': 'w.py', 'dtP': 'dt.py', 'rP': 'r.py', 'wL': 'w.tex', 'wLx': 'wx.tex'}


def imports():
    global M, make_trunc
    import latex_full_cc
    import latex_zhz
    import latex_eT_zhz
    import latex_w_equations
    import code_full_cc
    import code_eT_zhz
    import code_w_equations
    import code_dt_equations
    import code_residual_equations
    from lib.trunc import make_trunc
    M = {'fccL': latex_full_cc.generate_full_cc_latex,
         'ztL': latex_zhz.generate_z_t_symmetric_latex,
         'eTL': latex_eT_zhz.generate_eT_z_t_symmetric_latex,
         'fccP': code_full_cc.generate_full_cc_python,
         'eTP': code_eT_zhz.generate_eT_zhz_python,
         'wP': code_w_equations.generate_w_operator_equations_file,
         'dtP': code_dt_equations.generate_dt_amplitude_equations_file,
         'rP': code_residual_equations.generate_residual_equations_file,
         'wL': latex_w_equations.ground_state_w_equations_latex,
         'wLx': latex_w_equations.excited_state_w_equations_latex}


    LOGS.update(os.path.abspath(f) for f in os.listdir('.') if f.endswith('.txt'))      # opened when the modules are imported
    # the layer that chooses a generator and its file from keyword options (only if it is there)
    try:
        import _glue_
        G.update({'gL': _glue_._generate_latex, 'gP': _glue_._generate_python})
    except (ImportError, AttributeError):
        pass


G = {}
LOGS = set()
TRUNCS = {}


def trunc(t):
    """one dictionary object per truncation, shared by all requests of a history"""
    t = tuple(t)
    if t not in TRUNCS:
        TRUNCS[t] = make_trunc(t)
    return TRUNCS[t]


def path(req):
    return PATHS[req[0]]


def call(req, target=None):
    """the bare call, exceptions pass through"""
    kind, a = req[0], req[1]
    p = './' + (target or path(req))
    if kind in ('wP', 'dtP', 'wL', 'wLx'):
        return M[kind](a[0], path=p)
    if kind == 'rP':
        return M[kind](a[0], a[1], path=p)
    kw = {'only_ground_state': bool(a[1]), 'remove_f_terms': bool(a[2]), 'path': p, 'ansatz': '', 'lhs_rhs': 'RHS'}
    if kind in ('eTL', 'eTP'):
        kw['lhs_rhs'] = a[3]
    keep = dict(kw)
    t = trunc(a[0])
    keep_t = dict(t)
    try:
        M[kind](t, **kw)
    finally:
        if kw != keep or t != keep_t or list(t) != list(keep_t):
            raise MutatedInput(f'{kind} changed the truncations or options it was given: {t} {kw}')


class MutatedInput(BaseException):
    pass


def files():
    return sorted(f for f in os.listdir('.') if os.path.isfile(f) and os.path.abspath(f) not in LOGS)


def perform_glue(req):
    """the same through the layer above the generators: it picks the file, so run it in a directory of its own"""
    if req[0] not in G:
        return ('file', 'not there')
    kind, (t, opts) = req[0], req[1]
    d, here = tempfile.mkdtemp(dir=os.getcwd()), os.getcwd()
    os.chdir(d)
    try:
        tr = trunc(t)
        keep = dict(tr)
        try:
            with quiet():
                G[kind](tr, **dict(opts))
            out = 'file'
        except Exception as e:
            out = 'raised ' + type(e).__name__
        if tr != keep or list(tr) != list(keep):
            return ('mutated', f'{kind} changed the truncations it was given: {tr}')
        made = {f: open(f).read() for f in files()}
        if out != 'file' and made:
            return ('raised and left a file', out)
        return (out, repr(sorted(made.items())))
    finally:
        os.chdir(here)
        shutil.rmtree(d)


def perform(req):
    """what an observer sees of one request executed in the current directory"""
    if req[0] in ('gL', 'gP'):
        return perform_glue(req)
    before = {f: open(f).read() for f in files()}
    try:
        with quiet():
            call(req)
        out = 'file'
    except MutatedInput as e:
        return ('mutated', str(e))
    except Exception as e:
        out = 'raised ' + type(e).__name__
    after = {f: open(f).read() for f in files()}
    others = sorted(f for f in set(before) | set(after) if before.get(f) != after.get(f) and f != path(req))
    if others:
        return ('other files', repr(others))
    if out == 'file':
        return ('file', after.get(path(req)))
    if before.get(path(req)) != after.get(path(req)):
        return ('raised and changed the file', out)
    return (out, '')
