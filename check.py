#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough] [--replay FILE]

Model-checks one property of /repo's current working tree.  Exit 0: held on everything explored;
exit 1 with a line 'VIOLATION property=<id> replay=<path>' otherwise.
"""
import argparse
import importlib
import json
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from lib import harness  # noqa: E402


def selftest():
    """setup: everything is plain Python; make sure it compiles and that the oracles agree with independent computations"""
    import ast
    import glob
    import numpy
    here = os.path.dirname(os.path.abspath(__file__))
    n = 0
    for f in glob.glob(os.path.join(here, '*.py')) + glob.glob(os.path.join(here, '*', '*.py')):
        ast.parse(open(f).read(), f)
        n += 1
    print(f'{n} files compile, numpy {numpy.__version__}')
    from lib import selftest as st
    st.run()
    return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', choices=('quick', 'thorough'), default=None)
    ap.add_argument('--replay', default=None)
    a = ap.parse_args()
    if a.selftest:
        return selftest()
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = importlib.import_module(f'checks.{a.prop.lower()}')
    chk = harness.Check(a.prop, tier, getattr(mod, 'LEVEL', 'model_checking'), seed)
    try:
        harness.scratch()
        if getattr(mod, 'IMPORT_REPO', True):
            try:
                harness.setup_repo_import()
                with harness.quiet():
                    mod.imports()
            except Exception as e:      # the repository no longer even imports
                chk.violation('import', f'importing the code under test failed: {e!r}', 'import')
                return chk.finish(False, 'import failed')
        if a.replay:
            for v in json.load(open(a.replay))['violations'][:1]:
                case = v['case']
                print('replaying', case)
                chk.run(mod.run_case, [case])
            return chk.finish(False, 'replay of one case')
        return mod.main(chk, tier)
    finally:
        harness.cleanup()


if __name__ == '__main__':
    sys.exit(main())
