"""C01: full-CC LaTeX, terms (see lib/fcc_tex.py)"""
from lib import fcc_tex


def imports():
    fcc_tex.imports()


def run_case(case):
    return fcc_tex.run(case, 'terms')


def main(chk, tier):
    chk.run(run_case, fcc_tex.cases(tier), timeout=800)
    return chk.finish(True, f'truncation lattice ({tier}), ground and excited, with and without f terms, every projection')
