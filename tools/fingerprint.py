"""fingerprint.py : hashes of what a set of requests produces with the tree at VP_REPO (development tool, no check uses it)"""
import hashlib
import json
import os
import signal
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from lib import harness, ops         # noqa: E402

R = []
for t in [(2, 2, 2, 2), (3, 3, 3, 2), (2, 3, 4, 3), (1, 6, 1, 2), (6, 1, 2, 1), (2, 1, 6, 2), (1, 1, 1, 6)]:
    for g, f in ((True, False), (False, True)):
        if not g and max(t) > 3:
            continue
        R.append(('fccL', (t, g, f)))
R += [('fccL', ((2, 2, 2, 2), True, True)), ('fccL', ((2, 2, 2, 2), False, False))]
R += [('ztL', ((6, 6, 6), True, True)), ('ztL', ((2, 3, 3), True, False))]
for side in ('RHS', 'LHS'):
    for t in [(3, 4, 1, 4, 3), (2, 6, 1, 2, 6), (6, 2, 1, 2, 2), (2, 3, 1, 5, 2), (2, 3, 1, 2, 3)]:
        R += [('eTL', (t, True, False, side)), ('eTP', (t, True, False, side))]
    R += [('eTL', ((2, 2, 1, 2, 2), True, True, side)), ('eTP', ((2, 2, 1, 2, 2), False, False, side))]
for t in [(3, 3, 3, 3), (2, 2, 4, 2), (5, 2, 2, 2), (2, 4, 2, 4), (1, 1, 1, 1)]:
    R.append(('fccP', (t, True, False)))
R += [('wP', (6,)), ('dtP', (6,)), ('wP', (4,)), ('dtP', (3,)), ('rP', (6, 2)), ('rP', (6, 1)), ('rP', (1, 2)), ('wL', (8,)), ('wLx', (4,))]


def main():
    harness.setup_repo_import()
    try:
        with harness.quiet():
            ops.imports()
    except BaseException as e:
        print('RESULT' + json.dumps({'import': repr(e)}))
        return
    out = {}
    for i, r in enumerate(R):
        def late(*a):
            raise TimeoutError
        signal.signal(signal.SIGALRM, late)
        signal.alarm(60)
        try:
            x = ops.perform(r)
            out[str(i)] = x[0] + hashlib.sha256((x[1] or '').encode()).hexdigest()[:12]
        except BaseException as e:
            out[str(i)] = 'X' + type(e).__name__
        finally:
            signal.alarm(0)
        for f in ops.files():
            os.remove(f)
    print('RESULT' + json.dumps(out))


main()
