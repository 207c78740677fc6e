"""C12: generated eT_z_t LHS Python computes every Wick contraction of e^T (dT Z + dZ) exactly once."""
from lib import etz_py
from checks.c11 import lattice


def imports():
    etz_py.imports()


def run_case(case):
    return etz_py.check_case(case, True)


def main(chk, tier):
    chk.run(run_case, lattice(tier), timeout=600)
    return chk.finish(True, f'truncation lattice ({tier}); every amplitude; every h/z/t truncation level')
