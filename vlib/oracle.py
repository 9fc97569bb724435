"""Reference values for a spin-orbital problem, by Fock space when it is small enough."""
import numpy
from . import fock, ccref

FOCK_MAX = 11


def ccsd(p, force=None):
    """(energy, singles, doubles) of the CCSD equations."""
    use_fock = p.no + p.nv <= 9 if force is None else force == "fock"
    if use_fock:
        return fock.CC(p.no, p.nv, p.F, p.I, p.T1, p.T2).residual()
    return ccref.ccsd(p.no, p.F, p.I, p.T1, p.T2)


def cc(p):
    return fock.CC(p.no, p.nv, p.F, p.I, p.T1, p.T2)


def densities(p, L1=None, L2=None):
    c = getattr(p, "_cc", None)
    if c is None:
        c = p._cc = fock.CC(p.no, p.nv, p.F, p.I, p.T1, p.T2)
    return c.densities(p.L1 if L1 is None else L1, p.L2 if L2 is None else L2)
