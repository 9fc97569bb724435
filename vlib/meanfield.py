"""Generated atomic-orbital integrals, and mean-field objects that carry them."""
import functools
import numpy


def ein(*a):
    return numpy.einsum(*a, optimize=True)


def random_eri(rng, nao, kind="uniform"):
    """(pq|rs) with the eightfold symmetry of real orbitals."""
    x = rng.uniform(-1, 1, (nao,)*4) if kind != "int" else \
        rng.integers(-3, 4, (nao,)*4).astype(float)
    x = x + x.transpose((1, 0, 2, 3))
    x = x + x.transpose((0, 1, 3, 2))
    return x + x.transpose((2, 3, 0, 1))


def transform(eri, c1, c2, c3, c4):
    """(ij|kl) over the given orbitals; first and third conjugated."""
    x = ein('pqrs,pi->iqrs', eri, c1.conj())
    x = ein('iqrs,qj->ijrs', x, c2)
    x = ein('ijrs,rk->ijks', x, c3.conj())
    return ein('ijks,sl->ijkl', x, c4)


def chem(tr, c1, c2, c3, c4, anti=False):
    """Chemist's integrals by a transformation function tr."""
    x = tr(c1, c2, c3, c4)
    if anti:
        x = x - tr(c1, c4, c3, c2).transpose((0, 3, 2, 1))
    return x


def spin_chem(tr, alpha, beta, anti=False):
    """Spin-orbital chemist's integrals: four alpha and four beta coefficient sets."""
    def direct(idx):
        a, b = [alpha[k] for k in idx], [beta[k] for k in idx]
        dims = [x.shape[1] + y.shape[1] for x, y in zip(a, b)]
        out = numpy.zeros(dims, dtype=numpy.result_type(*(a + b + [float])))
        parts = {}
        for s1 in (0, 1):
            for s2 in (0, 1):
                cs = [(a, b)[s][k] for k, s in enumerate((s1, s1, s2, s2))]
                sl = tuple(slice(0, a[k].shape[1]) if s == 0 else slice(a[k].shape[1], None)
                           for k, s in enumerate((s1, s1, s2, s2)))
                parts[sl] = tr(*cs) if min(c.shape[1] for c in cs) else 0.0
        if any(numpy.iscomplexobj(p) for p in parts.values()):
            out = out.astype(complex)
        for sl, p in parts.items():
            out[sl] = p
        return out
    x = direct((0, 1, 2, 3))
    if anti:
        x = x - direct((0, 3, 2, 1)).transpose((0, 3, 2, 1))
    return x


MOLES = {
    "H2": ("H 0 0 0; H 0 0 0.74", "sto-3g", 0),
    "H3": ("H 0 0 0; H 0 0 0.9; H 0.5 0.8 0.1", "sto-3g", 1),
    "HeH": ("He 0 0 0; H 0 0.3 0.8", "6-31g", 1),
    "H4": ("H 0 0 0; H 0 0 1.0; H 0 1.1 0; H 0.2 1 1", "sto-3g", 0),
    "H6": ("H 0 0 0; H 0 0 1.1; H 0 1.2 0; H 0.3 1 1; H 1 0 0.2; H 1.1 1 0", "sto-3g", 0),
}


@functools.lru_cache(maxsize=None)
def mole(name):
    from pyscf import gto
    atom, basis, spin = MOLES[name]
    m = gto.M(atom=atom, basis=basis, spin=spin, verbose=0)
    n = m.nao_nr()
    return m, m.intor("int2e").reshape((n,)*4)


@functools.lru_cache(maxsize=None)
def cell():
    from pyscf.pbc import gto
    c = gto.Cell()
    c.atom = "He 0 0 0; He 0.9 0.3 0.1"
    c.basis = "sto-3g"
    c.a = numpy.array([[4.0, 0, 0], [0.3, 4.2, 0], [0, 0.1, 4.4]])
    c.mesh = [5]*3
    c.verbose = 0
    c.build()
    return c


class FakeDF(object):
    """Density-fitting object whose integrals are generated.

    (pq|rs)^{k1k2k3k4} = sum_L B[k1,k2][L,p,q] B[k3,k4][L,r,s] with
    B[k2,k1][L,q,p] = conj(B[k1,k2][L,p,q]), so all the physical symmetries hold."""

    def __init__(self, kpts, nao, rng, naux=3, real=False):
        self.kpts = numpy.asarray(kpts).reshape(-1, 3)
        self.nao = nao
        self.B = {}
        for i in range(len(self.kpts)):
            for j in range(i, len(self.kpts)):
                x = rng.uniform(-1, 1, (naux, nao, nao)) + 0j
                if not real:
                    x = x + 1j*rng.uniform(-1, 1, (naux, nao, nao))
                if i == j:
                    x = x + x.conj().transpose((0, 2, 1))
                self.B[i, j] = x
                self.B[j, i] = x.conj().transpose((0, 2, 1))
        self.real = real
        self.calls = 0

    def index(self, k):
        d = numpy.abs(self.kpts - numpy.asarray(k).reshape(3)).max(axis=1)
        i = int(numpy.argmin(d))
        if d[i] > 1e-8:
            raise KeyError("unknown k-point")
        return i

    def integrals(self, ks, cs):
        """Reference transformation for k-point indices ks."""
        x = ein('Lpq,pi,qj->Lij', self.B[ks[0], ks[1]], cs[0].conj(), cs[1])
        y = ein('Lpq,pi,qj->Lij', self.B[ks[2], ks[3]], cs[2].conj(), cs[3])
        z = ein('Lij,Lkl->ijkl', x, y)
        gamma = len(self.kpts) == 1 or not any(self.kpts[k].any() for k in ks)
        if self.real and gamma and not any(numpy.iscomplexobj(c) for c in cs):
            z = z.real.copy()
        return z

    def ao2mo(self, mo_coeffs, kpts=None, compact=True, **kw):
        """The interface of pyscf's density-fitting objects."""
        self.calls += 1
        if isinstance(mo_coeffs, numpy.ndarray) and mo_coeffs.ndim == 2:
            mo_coeffs = (mo_coeffs,)*4
        if kpts is None:
            ks = (0, 0, 0, 0)
        else:
            kk = numpy.asarray(kpts).reshape(-1, 3)
            ks = [self.index(k) for k in kk]
            if len(ks) == 1:
                ks = ks*4
        z = self.integrals(ks, mo_coeffs)
        n = z.shape
        c = mo_coeffs
        if compact and not numpy.iscomplexobj(z):
            # pairs of identical real orbitals come packed, as in pyscf
            if self._equal(c[0], c[1]):
                i, j = numpy.tril_indices(n[0])
                z = z[i, j]
            else:
                z = z.reshape((-1,) + n[2:])
            if self._equal(c[2], c[3]):
                i, j = numpy.tril_indices(n[2])
                return z[:, i, j]
            return z.reshape(z.shape[0], -1)
        return z.reshape(n[0]*n[1], n[2]*n[3])

    @staticmethod
    def _equal(a, b):
        return a is b or (a.shape == b.shape and numpy.array_equal(a, b))

    def get_mo_eri(self, *a, **k):
        return self.ao2mo(*a, **k)
