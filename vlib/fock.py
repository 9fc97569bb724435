"""Exact second quantisation on a fixed-electron-number sector.

Determinants are bit masks.  |mask> = a+_{p1} a+_{p2} ... |vac> with p1 < p2 < ...,
so a_p picks up (-1)**(number of occupied orbitals below p).
"""
import functools
import itertools
import numpy


def dets(n, nel):
    """All determinants of nel electrons in n orbitals, as sorted bit masks."""
    return sorted(sum(1 << p for p in c)
                  for c in itertools.combinations(range(n), nel))


def popcount_below(mask, p):
    return bin(mask & ((1 << p) - 1)).count("1")


def annihilate(mask, p):
    """(sign, mask) of a_p |mask>, or (0, None)."""
    if not mask >> p & 1:
        return 0, None
    return (-1)**popcount_below(mask, p), mask & ~(1 << p)


def create(mask, p):
    """(sign, mask) of a+_p |mask>, or (0, None)."""
    if mask >> p & 1:
        return 0, None
    return (-1)**popcount_below(mask, p), mask | (1 << p)


def apply_string(mask, ops):
    """Apply a product of operators (rightmost first); ops = [(p, dagger), ...]."""
    sign = 1
    for p, dagger in reversed(ops):
        s, mask = create(mask, p) if dagger else annihilate(mask, p)
        if s == 0:
            return 0, None
        sign *= s
    return sign, mask


class Sector(object):
    """All operators conserving the number of electrons, as dense matrices."""

    def __init__(self, n, nel):
        self.n = n
        self.nel = nel
        self.dets = dets(n, nel)
        self.index = {m: i for i, m in enumerate(self.dets)}
        self.dim = len(self.dets)
        # one[p] = a_p : N -> N-1 ; two[(p,q)] = a_q a_p : N -> N-2 (p < q)
        self.pairs = list(itertools.combinations(range(n), 2))
        low1 = dets(n, nel - 1) if nel >= 1 else []
        low2 = dets(n, nel - 2) if nel >= 2 else []
        i1 = {m: i for i, m in enumerate(low1)}
        i2 = {m: i for i, m in enumerate(low2)}
        self.one = numpy.zeros((n, len(low1), self.dim))
        self.two = numpy.zeros((len(self.pairs), len(low2), self.dim))
        for k, m in enumerate(self.dets):
            for p in range(n):
                s, x = annihilate(m, p)
                if s:
                    self.one[p, i1[x], k] = s
            if nel >= 2:
                for ip, (p, q) in enumerate(self.pairs):
                    s, x = apply_string(m, [(q, False), (p, False)])
                    if s:
                        self.two[ip, i2[x], k] = s
        self.p0 = numpy.array([p for p, q in self.pairs], dtype=int)
        self.p1 = numpy.array([q for p, q in self.pairs], dtype=int)

    def onebody(self, h):
        """sum_pq h[p,q] a+_p a_q"""
        n, d = self.n, self.dim
        b = h.dot(self.one.reshape(n, -1)).reshape(-1, d)
        return self.one.reshape(-1, d).T.dot(b)

    def twobody(self, I):
        """1/4 sum I[p,q,r,s] a+_p a+_q a_s a_r for antisymmetric I"""
        d = self.dim
        if not self.pairs or self.two.shape[1] == 0:
            return numpy.zeros((d, d), dtype=I.dtype)
        Ip = I[self.p0[:, None], self.p1[:, None], self.p0[None, :], self.p1[None, :]]
        b = Ip.dot(self.two.reshape(len(self.pairs), -1)).reshape(-1, d)
        return self.two.reshape(-1, d).T.dot(b)

    def dm1(self, bra, ket):
        """g[p,q] = <bra| a+_p a_q |ket> (bra not conjugated)"""
        x = self.one.dot(bra)
        y = self.one.dot(ket)
        return numpy.einsum('px,qx->pq', x, y)

    def dm2(self, bra, ket):
        """G[p,q,r,s] = <bra| a+_p a+_q a_s a_r |ket>"""
        n = self.n
        out = numpy.zeros((n, n, n, n), dtype=numpy.result_type(bra, ket))
        if not self.pairs or self.two.shape[1] == 0:
            return out
        x = self.two.dot(bra)
        y = self.two.dot(ket)
        g = numpy.einsum('px,qx->pq', x, y)
        a, b = self.p0, self.p1
        out[a[:, None], b[:, None], a[None, :], b[None, :]] = g
        out[b[:, None], a[:, None], a[None, :], b[None, :]] = -g
        out[a[:, None], b[:, None], b[None, :], a[None, :]] = -g
        out[b[:, None], a[:, None], b[None, :], a[None, :]] = g
        return out


@functools.lru_cache(maxsize=64)
def sector(n, nel):
    return Sector(n, nel)


def exp_on(T, v, sign=1.0):
    """exp(sign*T) v for nilpotent T"""
    out = v
    term = v
    k = 0
    while True:
        k += 1
        term = T.dot(term)*(sign/k)
        if not term.any():
            return out
        out = out + term
        assert k <= T.shape[0] + 1


class CC(object):
    """Coupled cluster by brute force.  Orbitals: occupied first, then virtual."""

    def __init__(self, no, nv, F, I, T1, T2):
        n = no + nv
        self.no, self.nv = no, nv
        s = self.s = sector(n, no)
        dt = numpy.result_type(F, I, T1, T2)
        t1 = numpy.zeros((n, n), dtype=dt)
        t1[no:, :no] = T1
        t2 = numpy.zeros((n, n, n, n), dtype=dt)
        t2[no:, no:, :no, :no] = T2
        self.T = s.onebody(t1) + s.twobody(t2)
        self.ref = numpy.zeros(s.dim, dtype=dt)
        self.iref = s.index[(1 << no) - 1]
        self.ref[self.iref] = 1.0
        self.F, self.I = F, I
        self.ket = exp_on(self.T, self.ref)

    @property
    def H(self):
        """Normal-ordered Hamiltonian whose Fock matrix is F"""
        if not hasattr(self, "_H"):
            s, no = self.s, self.no
            h = self.F - numpy.einsum('pkqk->pq', self.I[:, :no, :, :no])
            H = s.onebody(h) + s.twobody(self.I)
            self._H = H - H[self.iref, self.iref]*numpy.eye(s.dim)
        return self._H

    def hbar_ref(self):
        """exp(-T) H exp(T) |ref>"""
        return exp_on(self.T, self.H.dot(self.ket), -1.0)

    def bra_hbar(self, bra):
        """bra exp(-T) H exp(T)"""
        return exp_on(self.T.T, self.H.T.dot(exp_on(self.T.T, bra, -1.0)))

    def excite1(self):
        """tau[a,i] = a+_a a_i |ref> as an array of vectors"""
        no, nv, s = self.no, self.nv, self.s
        out = numpy.zeros((nv, no, s.dim))
        m0 = (1 << no) - 1
        for a in range(nv):
            for i in range(no):
                sg, m = apply_string(m0, [(no + a, True), (i, False)])
                out[a, i, s.index[m]] = sg
        return out

    def excite2(self):
        """tau[a,b,i,j] = a+_a a+_b a_j a_i |ref>"""
        no, nv, s = self.no, self.nv, self.s
        out = numpy.zeros((nv, nv, no, no, s.dim))
        m0 = (1 << no) - 1
        for a in range(nv):
            for b in range(nv):
                for i in range(no):
                    for j in range(no):
                        sg, m = apply_string(m0, [
                            (no + a, True), (no + b, True), (j, False), (i, False)])
                        if sg:
                            out[a, b, i, j, s.index[m]] = sg
        return out

    def residual(self):
        """Energy, singles and doubles projections of Hbar on the reference."""
        v = self.hbar_ref()
        return v[self.iref], self.excite1().dot(v), self.excite2().dot(v)

    def bra(self, L1, L2):
        """<0|(1 + Lambda) as a row vector"""
        out = self.ref.astype(numpy.result_type(self.ref, L1, L2))
        out = out + numpy.einsum('ia,aix->x', L1, self.excite1())
        out = out + 0.25*numpy.einsum('ijab,abijx->x', L2, self.excite2())
        return out

    def lagrangian_gradient(self, L1, L2):
        """d/dT of <0|(1+Lambda) Hbar|0>, as L-shaped tensors"""
        no, nv, s = self.no, self.nv, self.s
        n = no + nv
        bra = self.bra(L1, L2)
        left = self.bra_hbar(bra)
        v = self.hbar_ref()
        g1 = numpy.einsum('aix,x->ia', self.excite1(), left)
        g2 = numpy.einsum('abijx,x->ijab', self.excite2(), left)
        # bra tau_mu Hbar |0>
        d1 = s.dm1(bra, v)
        g1 = g1 - d1[no:, :no].T
        d2 = s.dm2(bra, v)
        g2 = g2 - d2[no:, no:, :no, :no].transpose((2, 3, 0, 1))
        return g1, g2

    def densities(self, L1, L2):
        """Normal-ordered densities: P1[q,p] = <{p+ q}>, P2[r,s,p,q] = <{p+ q+ s r}>."""
        no, s = self.no, self.s
        n = self.s.n
        bra = exp_on(self.T.T, self.bra(L1, L2), -1.0)
        ket = self.ket
        g = s.dm1(bra, ket)
        G = s.dm2(bra, ket)
        o = numpy.zeros((n, n))
        o[range(no), range(no)] = 1.0
        P1 = (g - o).T
        ein = numpy.einsum
        N = G - (ein('pr,qs->pqrs', o, g) - ein('ps,qr->pqrs', o, g)
                 - ein('qr,ps->pqrs', o, g) + ein('qs,pr->pqrs', o, g))
        N = N + ein('pr,qs->pqrs', o, o) - ein('ps,qr->pqrs', o, o)
        return P1, N.transpose((2, 3, 0, 1))
