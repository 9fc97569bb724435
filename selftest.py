"""Checks the oracles against each other (no library code involved)."""
import sys
import numpy
sys.path.insert(0, "/verif")
from vlib import fock, ccref, gen


def main():
    for no, nv, dt in [(1, 1, "real"), (2, 2, "real"), (2, 3, "complex"), (3, 3, "real"),
                       (1, 4, "real"), (4, 2, "complex"), (4, 4, "real")]:
        t = gen.Tensors(no*10 + nv, dtype=dt)
        n = no + nv
        F, I = t.array(n, n), t.anti(n)
        T1, T2 = t.array(nv, no), t.T2(no, nv)
        L1, L2 = t.array(no, nv), t.L2(no, nv)
        cc = fock.CC(no, nv, F, I, T1, T2)
        E, R1, R2 = cc.residual()
        e, r1, r2 = ccref.ccsd(no, F, I, T1, T2)
        d = max(abs(E - e), abs(R1 - r1).max(), abs(R2 - r2).max())
        assert d < 1e-9*max(1, abs(R2).max()), d
        g1, g2 = cc.lagrangian_gradient(L1, L2)
        D1, D2 = t.array(nv, no), t.T2(no, nv)
        x = numpy.einsum('ia,ai->', g1, D1) + 0.25*numpy.einsum('ijab,abij->', g2, D2)
        y = ccref.lagrangian_directional(no, F, I, T1, T2, L1, L2, D1, D2)
        assert abs(x - y) < 1e-9*max(1, abs(y)), (x, y)
        P1, P2 = cc.densities(L1, L2)
        x = numpy.einsum('qp,pq->', P1, F) + 0.25*numpy.einsum('rspq,pqrs->', P2, I)
        y = ccref.lagrangian(no, F, I, T1, T2, L1, L2)
        assert abs(x - y) < 1e-9*max(1, abs(y)), (x, y)
        print(no, nv, dt, "ok")


if __name__ == "__main__":
    main()
