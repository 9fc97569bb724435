"""Densities beyond Fock-space sizes: contraction with random operators.

<(1+Lambda) exp(-T) {op} exp(T)> is linear in the operator, so a density block is tested by
contracting it with the random operator that has only this block.
"""
import numpy
from . import ccref
from .cmp import same, shaped


def _value(so, F, I, tfac):
    x = ccref.lagrangian(so.no, F, I, so.T1, so.T2, so.L1, so.L2)
    if tfac != 1.0:
        x += (tfac - 1.0)*ccref.lagrangian(so.no, F, I, so.T1, so.T2, 0*so.L1, 0*so.L2)
    return x


def one(what, so, sets, got, t, tfac=1.0):
    """got[q,p] over the orbital sets (q, p)."""
    shaped(what, got, [len(x) for x in sets])
    F = numpy.zeros((so.no + so.nv,)*2, dtype=complex)
    blk = t.array(len(sets[1]), len(sets[0]))
    F[numpy.ix_(sets[1], sets[0])] = blk
    same(what + " contracted with a random operator", numpy.einsum('qp,pq->', got, blk),
         _value(so, F, 0*so.I, tfac))


def two(what, so, sets, got, t, tfac=1.0):
    """got[r,s,p,q] over the orbital sets (r, s, p, q)."""
    sets = [list(x) for x in sets]
    shaped(what, got, [len(x) for x in sets])
    if not got.size:
        return
    r, s, p, q = sets
    blk = t.array(len(p), len(q), len(r), len(s))
    weight = 0.25
    if p == q:
        same(what + " antisymmetry", got, -got.transpose((0, 1, 3, 2)))
        blk = blk - blk.transpose((1, 0, 2, 3))
    else:
        weight *= 2
    if r == s:
        same(what + " antisymmetry", got, -got.transpose((1, 0, 2, 3)))
        blk = blk - blk.transpose((0, 1, 3, 2))
    else:
        weight *= 2
    I = numpy.zeros((so.no + so.nv,)*4, dtype=complex)
    I[numpy.ix_(p, q, r, s)] = blk
    I[numpy.ix_(q, p, r, s)] = -blk.transpose((1, 0, 2, 3))
    I[numpy.ix_(p, q, s, r)] = -blk.transpose((0, 1, 3, 2))
    I[numpy.ix_(q, p, s, r)] = blk.transpose((1, 0, 3, 2))
    same(what + " contracted with a random operator",
         weight*numpy.einsum('rspq,pqrs->', got, blk), _value(so, 0*so.F, I, tfac))
