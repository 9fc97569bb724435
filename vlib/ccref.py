"""Coupled cluster at any size: T1-dressed integrals, then a doubles-only residual.

Independent of the library's factorisation; checked against vlib.fock by selftest.
Full tensors with occupied orbitals first.  I[p,q,r,s] = <pq||rs>.
"""
import numpy


def ein(spec, *ops):
    return numpy.einsum(spec, *ops, optimize=True)


def dress(no, F, I, T1):
    """Exact exp(-T1) H exp(T1): (reference energy shift, Fock matrix, integrals)."""
    n = F.shape[0]
    dt = numpy.result_type(F, I, T1)
    o = slice(0, no)
    X = numpy.eye(n, dtype=dt)
    Y = numpy.eye(n, dtype=dt)
    X[no:, :no] -= T1
    Y[no:, :no] += T1
    h = F - ein('pkqk->pq', I[:, o, :, o])
    e0 = ein('ii->', h[o, o]) + 0.5*ein('ijij->', I[o, o, o, o])
    hd = X.dot(h).dot(Y)
    Id = ein('pa,abcd->pbcd', X, I)
    Id = ein('qb,pbcd->pqcd', X, Id)
    Id = ein('pqcd,cr->pqrd', Id, Y)
    Id = ein('pqrd,ds->pqrs', Id, Y)
    e1 = ein('ii->', hd[o, o]) + 0.5*ein('ijij->', Id[o, o, o, o])
    Fd = hd + ein('pkqk->pq', Id[:, o, :, o])
    return e1 - e0, Fd, Id


def ccd_parts(no, F, I, T2):
    """Doubles residual split by power of T2: (constant, linear, quadratic)."""
    o, v = slice(0, no), slice(no, None)
    foo, fvv = F[o, o], F[v, v]
    const = I[v, v, o, o].copy()
    lin = 0.5*ein('abcd,cdij->abij', I[v, v, v, v], T2)
    lin = lin + 0.5*ein('klij,abkl->abij', I[o, o, o, o], T2)
    x = ein('bc,acij->abij', fvv, T2)
    lin = lin + x - x.transpose((1, 0, 2, 3))
    x = ein('kj,abik->abij', foo, T2)
    lin = lin - x + x.transpose((0, 1, 3, 2))
    x = ein('kbcj,acik->abij', I[o, v, v, o], T2)
    lin = lin + x - x.transpose((1, 0, 2, 3)) - x.transpose((0, 1, 3, 2)) \
        + x.transpose((1, 0, 3, 2))
    g = I[o, o, v, v]
    quad = 0.25*ein('klcd,cdij,abkl->abij', g, T2, T2)
    x = ein('klcd,acik,bdjl->abij', g, T2, T2)
    quad = quad + x - x.transpose((0, 1, 3, 2))
    y = 0.5*ein('klcd,cdik->li', g, T2)      # (l,i)
    x = ein('li,ablj->abij', y, T2)
    quad = quad + x - x.transpose((0, 1, 3, 2))
    z = 0.5*ein('klcd,ackl->ad', g, T2)      # (a,d)
    x = ein('ad,dbij->abij', z, T2)
    quad = quad + x - x.transpose((1, 0, 2, 3))
    return const, lin, quad


def ccsd(no, F, I, T1, T2):
    """(correlation energy, singles residual, doubles residual)."""
    o, v = slice(0, no), slice(no, None)
    e, Fd, Id = dress(no, F, I, T1)
    E = e + 0.25*ein('ijab,abij->', Id[o, o, v, v], T2)
    R1 = Fd[v, o] + ein('jb,abij->ai', Fd[o, v], T2)
    R1 = R1 + 0.5*ein('ajbc,bcij->ai', Id[v, o, v, v], T2)
    R1 = R1 - 0.5*ein('jkib,abjk->ai', Id[o, o, o, v], T2)
    c, l, q = ccd_parts(no, Fd, Id, T2)
    return E, R1, c + l + q


def lagrangian(no, F, I, T1, T2, L1, L2):
    E, R1, R2 = ccsd(no, F, I, T1, T2)
    return E + ein('ia,ai->', L1, R1) + 0.25*ein('ijab,abij->', L2, R2)


def poly_coeffs(f, degree):
    """Taylor coefficients of a polynomial f(s) of known degree, from roots of unity."""
    m = degree + 2
    w = numpy.exp(2j*numpy.pi*numpy.arange(m)/m)
    vals = numpy.array([f(x) for x in w])
    return [(vals.T*w**(-k)).T.sum(axis=0)/m for k in range(degree + 1)]


def lagrangian_directional(no, F, I, T1, T2, L1, L2, D1, D2):
    """d/ds of the Lagrangian at T + s*(D1, D2)."""
    def f(s):
        return lagrangian(no, F, I, T1 + s*D1, T2 + s*D2, L1, L2)
    return poly_coeffs(f, 4)[1]
