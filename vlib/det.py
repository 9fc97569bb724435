"""Bit-string side of the determinant checks."""
from . import fock


def mask(occ):
    return sum(1 << p for p, x in enumerate(occ) if x)


def occ(m, n):
    return [m >> p & 1 for p in range(n)]


def joined(occa, occb):
    """One mask for a pair of strings: alpha orbitals first."""
    return mask(list(occa) + list(occb))


def hop(m, i, a):
    """(sign, mask) of a+_a a_i |m>, or (0, None)"""
    return fock.apply_string(m, [(a, True), (i, False)])


def occ_of(string):
    """Occupation list of a library string object."""
    return [int(x) for x in string.occ]
