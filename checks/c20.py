"""C20: a request either fails and leaves the disk as it was, or writes exactly its one complete file.

Explored: every kind of request (valid, refused by design, out of range) x every state of the target (absent, empty,
longer than the output, another document, missing directory, a directory).  Whatever the outcome, nothing else changes;
a failed request leaves the target byte for byte; a successful one writes the same complete text whatever was there.

Crash points: for one or more small requests to every generator, the request is repeated once for every function call that
the generator makes, and aborted at that call (the call raises).  The request then failed, so the disk has to be unchanged.
"""
import ast
import itertools as it
import os
import shutil
import sys
from lib import harness, ops
from lib.harness import quiet

GARBAGE = '% old file that is longer than anything a generator writes\n' + 'x = 1  # old line\n' * 60000
STATES = {'absent': None, 'empty': '', 'long': GARBAGE, 'python': 'def f():\n    return 1\n', 'nul': 'a\x00b\n' * 40}


CALLS = 6000     # requests that make more calls are aborted at the first and last call of every call chain


def imports():
    ops.imports()


def tree(d='.'):
    out = {}
    for root, dirs, files in os.walk(d):
        for x in dirs:
            out[os.path.join(root, x)] = 'dir'
        for f in files:
            if os.path.abspath(os.path.join(root, f)) in ops.LOGS:
                continue
            with open(os.path.join(root, f), 'rb') as fh:
                out[os.path.join(root, f)] = fh.read()
    return out


def attempt(req, target):
    try:
        with quiet():
            ops.call(req, target)
        return None
    except Exception as e:
        return e


def complete(req, text):
    """why the text is not a complete output, or None"""
    kind = req[0]
    if not text.strip():
        return 'empty file'
    if kind in ('fccP', 'eTP', 'wP', 'dtP', 'rP'):
        try:
            ast.parse(text)
        except SyntaxError as e:
            return f'not Python: {e}'
        return None
    if kind == 'wLx':
        return None if text.count(r'\begin{equation}') == text.count(r'\end{equation}') == 1 else 'equation not closed'
    if text.count(r'\begin{document}') != 1 or not text.rstrip().endswith(r'\end{document}'):
        return 'document not complete'
    return None


def run_case(case):
    if case[0] == 'crash':
        return crash_case(case)
    req = (case[0], tuple(tuple(x) if isinstance(x, (list, tuple)) else x for x in case[1]))
    res = {'viol': [], 'samples': [], 'outcomes': [], 'states': 0, 'transitions': 0, 'traces': 0, 'cases': 1}

    def bad(key, text):
        res['viol'].append({'key': f'{req[0]}{req[1]} {key}', 'what': text[:1500], 'case': case})

    texts = {}
    for name, old in STATES.items():
        shutil.rmtree('s', ignore_errors=True)
        os.makedirs('s')
        with open('s/bystander.tex', 'w') as fh:
            fh.write('other')
        if old is not None:
            with open('s/out', 'w') as fh:
                fh.write(old)
        before = tree()
        e = attempt(req, 's/out')
        after = tree()
        res['states'] += 1
        res['transitions'] += 1
        res['traces'] += 1
        if e is not None:
            ch = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
            if ch:
                bad(f'target {name}: fails with {type(e).__name__} but changes {ch}', repr(e))
            texts[name] = 'raised ' + type(e).__name__
            continue
        ch = sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))
        if ch != ['./s/out']:
            bad(f'target {name}: changes {ch}', 'expected exactly the target file')
            continue
        text = after['./s/out'].decode()
        why = complete(req, text)
        if why:
            bad(f'target {name}: {why}', text[-300:])
        texts[name] = text
    if len(set(texts.values())) > 1:
        kinds = {k: (v if v.startswith('raised ') else f'{len(v)} characters') for k, v in texts.items()}
        bad('depends on the file already there', str(kinds))
    # targets that cannot be written
    for name, target in (('missing directory', 's/no/out'), ('directory', 's')):
        before = tree()
        e = attempt(req, target)
        after = tree()
        res['states'] += 1
        res['transitions'] += 1
        res['traces'] += 1
        if e is None:
            bad(f'target is a {name}: succeeds', 'no exception')
        if before != after:
            bad(f'target is a {name}: changes {sorted(k for k in set(before) | set(after) if before.get(k) != after.get(k))}',
                repr(e))
    v = next(iter(texts.values()), '')
    res['outcomes'].append(v if v.startswith('raised') else 'written')
    res['samples'].append(f'{req}: {v if v.startswith("raised") else "written"}')
    return res


class Abort(BaseException):
    """an asynchronous failure (interrupt, lack of memory) at a chosen point"""


def chain(frame):
    out = []
    while frame is not None:
        if frame.f_code.co_filename.startswith(harness.TF):
            out.append(frame.f_code.co_name)
        frame = frame.f_back
    return tuple(out)


def run_aborted(req, target, k, places=None):
    """perform the request, aborted at its k-th call of a function of the repository (never, if k is None).
    returns (number of calls made, outcome); places: {call chain: [first call, last call]} is filled in"""
    n = 0

    def tracer(frame, event, arg):
        nonlocal n
        if event == 'call' and frame.f_code.co_name[0] != '<' and frame.f_code.co_filename.startswith(harness.TF):
            n += 1
            if places is not None:
                places.setdefault(chain(frame), [n, n])[1] = n
            if n == k:
                raise Abort()
        return None

    with quiet():
        sys.settrace(tracer)
        try:
            ops.call(req, target)
            out = 'returned'
        except Abort:
            out = 'aborted'
        except Exception as e:
            out = 'raised ' + type(e).__name__
        finally:
            sys.settrace(None)
    return n, out


def crash_case(case):
    _, kind, a, part, parts = case
    req = (kind, tuple(tuple(x) if isinstance(x, (list, tuple)) else x for x in a))
    res = {'viol': [], 'samples': [], 'outcomes': [], 'states': 0, 'transitions': 0, 'traces': 0, 'cases': 1}
    shutil.rmtree('s', ignore_errors=True)
    os.makedirs('s')
    for old in (None, 'an old file\n'):
        def reset():
            for f in os.listdir('s'):
                os.remove(os.path.join('s', f))
            if old is not None:
                with open('s/out', 'w') as fh:
                    fh.write(old)
        reset()
        places = {}
        total, out = run_aborted(req, 's/out', None, places)
        # every call; where that is too many, the first and the last call of every chain of functions
        points = range(1, total + 1) if total <= CALLS else sorted({k for v in places.values() for k in v})
        for k in points[part::parts]:
            reset()
            before = tree()
            n, out = run_aborted(req, 's/out', k)
            after = tree()
            res['states'] += 1
            res['transitions'] += n
            res['traces'] += 1
            res['outcomes'].append(out)
            if out == 'returned':
                why = complete(req, after.get('./s/out', b'').decode())
                if why:
                    res['viol'].append({'key': f'{req} target {"absent" if old is None else "there"}: returns after an abort, {why}',
                                        'what': f'aborted at call {k} of {total}', 'case': case})
                    break
            elif before != after:
                ch = sorted(x for x in set(before) | set(after) if before.get(x) != after.get(x))
                res['viol'].append({'key': f'{req} target {"absent" if old is None else "there"}: fails but changes {ch}',
                                    'what': f'aborted at call {k} of {total}', 'case': case})
                break
    res['samples'].append(f'{req}: part {part} of the crash points of {total} calls')
    return res


def crash_requests(tier):
    out = [('fccL', ((1, 1, 1, 1), g, False)) for g in (True, False)]
    out += [('ztL', ((1, 2, 2), True, False)), ('fccP', ((1, 1, 1, 1), True, False)), ('fccP', ((2, 1, 2, 1), True, False))]
    out += [(k, ((1, 1, 1, 2, 1), True, False, side)) for k in ('eTL', 'eTP') for side in ('RHS', 'LHS')]
    out += [(k, (n,)) for k in ('wP', 'dtP', 'wL', 'wLx') for n in (1, 2, 3)] + [('rP', (1, 2)), ('rP', (3, 2))]
    if tier != 'quick':
        out += [('fccL', ((2, 2, 2, 2), True, False)), ('fccL', ((2, 1, 2, 1), False, True)), ('ztL', ((3, 3, 3), True, True)),
                ('fccP', ((2, 2, 2, 2), True, False)), ('wP', (6,)), ('dtP', (6,)), ('rP', (6, 2)), ('wL', (8,))]
        out += [(k, ((2, 2, 1, 2, 2), True, False, side)) for k in ('eTL', 'eTP') for side in ('RHS', 'LHS')]
    return out


def requests(tier):
    out = []
    top = 3 if tier == 'quick' else 4
    fcc = [t for t in it.product((1, 2, 3), repeat=4)] + [(2, 4, 2, 4), (2, 5, 1, 4), (1, 4, 1, 6), (1, 6, 1, 5), (6, 1, 6, 1)]
    if tier == 'quick':
        fcc = [t for t in fcc if sum(t) <= 7 or max(t) > 3]
    for t in fcc + [(7, 1, 1, 1), (1, 7, 1, 1), (1, 1, 7, 1), (1, 1, 1, 7), (0, 1, 1, 1), (1, 1, 1, 0)]:
        for gs, rf in it.product((True, False), repeat=2):
            out.append(('fccL', (t, gs, rf)))
        if max(t) <= 3 or max(t) > 6 or min(t) < 1:
            out += [('fccP', (t, gs, False)) for gs in (True, False)]
    for t in list(it.product(range(1, top + 1), repeat=3)) + [(6, 6, 6), (0, 1, 1), (7, 1, 1), (1, 7, 1), (1, 1, 7)]:
        for gs, rf in it.product((True, False), repeat=2):
            out.append(('ztL', (t, gs, rf)))
    et = [(h, c, 1, e, p) for h, c, e, p in it.product((1, 2), (1, 2, 3), (1, 2, 3), (1, 2, 3))]
    if tier == 'quick':
        et = [t for t in et if sum(t) <= 8]
    for t in et + [(7, 1, 1, 1, 1), (1, 7, 1, 1, 1), (1, 1, 2, 1, 1), (1, 1, 1, 9, 1), (1, 1, 1, 1, 7), (1, 1, 1, 0, 1)]:
        for kind in ('eTL', 'eTP'):
            for gs, side in it.product((True, False), ('RHS', 'LHS')):
                out.append((kind, (t, gs, False, side)))
    for n in range(0, 7):
        out += [('wP', (n,)), ('dtP', (n,)), ('wL', (n,))]
    for n in range(0, 4):
        out.append(('wLx', (n,)))
    for n in range(0, 7):
        out += [('rP', (n, h)) for h in (1, 2)]
    return out


def main(chk, tier):
    rs = requests(tier)
    chk.run(run_case, rs, timeout=600)
    cr = crash_requests(tier)
    parts = 8
    chk.run(run_case, [('crash', k, a, i, parts) for k, a in cr for i in range(parts)], timeout=800 if tier == 'quick' else 7200)
    return chk.finish(True, f'{len(rs)} requests (all generators; valid, refused by design, out of range) x '
                            f'{len(STATES) + 2} states of the target; all crash points (calls made by the generator) of '
                            f'{len(cr)} requests x 2 states of the target')
