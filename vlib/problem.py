"""Generated coupled-cluster problems in spin-orbital, unrestricted and restricted form."""
import numpy
from . import gen

SO_SMALL = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3),
            (2, 4), (4, 2), (1, 5), (5, 1), (3, 4), (4, 3), (4, 4), (2, 6), (5, 3)]
SO_LARGE = [(6, 5), (4, 8), (5, 9), (7, 4), (6, 10), (8, 8)]
# beyond the block sizes a blocked or batched implementation might use
SO_WIDE = [(2, 17), (3, 13), (1, 21), (12, 2), (17, 3), (21, 1), (9, 11), (11, 9), (2, 34),
           (33, 2), (5, 17), (12, 12)]

# (noa, nva, nob, nvb)
U_SMALL = [(1, 1, 1, 1), (1, 2, 1, 1), (2, 1, 1, 2), (1, 1, 2, 2), (2, 2, 2, 2),
           (2, 2, 1, 3), (1, 3, 2, 2), (3, 1, 1, 3), (2, 3, 1, 2), (1, 2, 3, 1),
           (3, 2, 2, 2), (2, 3, 2, 2), (1, 2, 2, 3), (2, 1, 3, 3), (3, 2, 2, 3),
           (2, 2, 3, 3), (2, 3, 3, 2), (1, 4, 2, 3), (3, 3, 2, 2), (2, 4, 2, 2)]
U_EQUAL = [(1, 2, 1, 2), (2, 2, 2, 2), (2, 1, 2, 1), (2, 3, 2, 3), (3, 2, 3, 2)]
U_ZERO = [(2, 2, 0, 2), (0, 2, 2, 2), (2, 2, 2, 0), (2, 0, 2, 2), (2, 2, 0, 0),
          (0, 0, 2, 2), (1, 1, 0, 1), (2, 3, 0, 1), (2, 1, 1, 0)]
U_LARGE = [(3, 5, 2, 6), (4, 4, 3, 5), (2, 6, 4, 3), (5, 4, 4, 5), (4, 6, 5, 4)]
U_WIDE = [(2, 9, 1, 10), (1, 17, 1, 3), (1, 2, 1, 18), (9, 2, 10, 1), (17, 1, 2, 1),
          (1, 1, 18, 2), (5, 6, 6, 5), (7, 7, 7, 7), (6, 8, 7, 7)]

R_SMALL = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (1, 4), (4, 1)]
R_LARGE = [(3, 3), (3, 5), (5, 3), (4, 6), (2, 8), (5, 5)]
R_WIDE = [(2, 9), (1, 17), (9, 2), (17, 1), (6, 5), (7, 7)]


def draw_tensor_case(d):
    """Decisions common to all tensor problems."""
    return {
        "kind": d.weighted([("int", 1.0), ("uniform", 3.0), ("positive", 1.0),
                            ("sparse", 1.0)]),
        "dtype": d.weighted([("real", 3.0), ("complex", 2.0)]),
        "tscale": d.weighted([(1.0, 4.0), (0.1, 1.0), (2.0, 1.0)]),
        # all data small
        "whole": d.weighted([(1.0, 10.0), (2.0**-9, 1.0)]),
        "zero": d.weighted([("", 6.0), ("T1", 1.0), ("T2", 1.0), ("L1", 0.5),
                            ("F", 0.5), ("L2", 0.3), ("I", 0.3)]),
        # diagonal (canonical) Fock matrix, or one without occupied-virtual part
        "fock": d.weighted([("", 6.0), ("diagonal", 1.0), ("blocks", 1.0)]),
        # multipliers that are the conjugate amplitudes
        "lt": d.flag(0.1),
        "herm": d.flag(0.2),
        # both spins from the same integrals, amplitudes or multipliers (equal sizes only)
        "share": d.weighted([("", 4.0), ("integrals", 2.0), ("T", 1.0), ("L", 1.0),
                             ("all", 1.0), ("F", 0.5), ("T1", 0.5), ("T2", 0.5),
                             ("L1", 0.5), ("L2", 0.5), ("closed", 1.0)]),
        # symmetric, shared, vanishing or real data only up to a small remainder
        "near": d.flag(0.15),
        "seed": d.seed(),
    }


def _herm1(F):
    return 0.5*(F + F.conj().T)


def _herm2(I):
    return 0.5*(I + I.conj().transpose((2, 3, 0, 1)))


def fock(case, F, no, small):
    """Fock matrix with the structure asked for, up to a remainder."""
    kind = case.get("fock", "")
    if kind == "diagonal":
        keep = numpy.eye(len(F))
    elif kind == "blocks":
        keep = numpy.zeros(F.shape)
        keep[:no, :no] = keep[no:, no:] = 1.0
    else:
        return F
    return F*(keep + small*(1.0 - keep))


def conjugate(case, small, T1, T2, L1, L2):
    """Multipliers of the case: independent, or the conjugate amplitudes."""
    if not case.get("lt"):
        return L1, L2
    return (T1.conj().T + small*L1, T2.conj().transpose((2, 3, 0, 1)) + small*L2)


SMALL = 1e-6    # close enough for the usual tests of equality, far from exact


def tensors(case):
    """Generator of the case, and the remainder that spoils exact structure."""
    t = gen.Tensors(case["seed"], case["kind"], case["dtype"], case.get("whole", 1.0))
    small = SMALL if case.get("near") else 0.0
    if small:
        t.imag = small
    return t, small


class SO(object):
    """Spin-orbital tensors (occupied first)."""

    def __init__(self, no, nv, F, I, T1, T2, L1, L2):
        self.no, self.nv = no, nv
        self.F, self.I = F, I
        self.T1, self.T2, self.L1, self.L2 = T1, T2, L1, L2

    def Fb(self):
        return gen.f_blocks(self.F, self.no)

    def Ib(self):
        return gen.i_blocks(self.I, self.no)


def make_so(case):
    no, nv = case["no"], case["nv"]
    n = no + nv
    t, small = tensors(case)
    F, I = t.array(n, n), t.anti(n)
    if case["herm"]:
        F, I = _herm1(F), _herm2(I)
        if small:
            F, I = F + small*t.array(n, n), I + small*t.anti(n)
    F = fock(case, F, no, small)
    ts = case["tscale"]
    T1, T2 = ts*t.array(nv, no), ts*t.T2(no, nv)
    L1, L2 = t.array(no, nv), t.L2(no, nv)
    z = case["zero"]
    L1, L2 = conjugate(case, small, T1, T2, L1, L2)
    if z == "L2":
        L2 = small*L2
    if z == "I":
        I = small*I
    if z == "T1":
        T1 = small*T1
    if z == "T2":
        T2 = small*T2
    if z == "L1":
        L1 = small*L1
    if z == "F":
        F = small*F
    return SO(no, nv, F, I, T1, T2, L1, L2)


# ---------------------------------------------------------------- spin assembly
def spin_index(noa, nva, nob, nvb):
    """Positions of the alpha and beta orbitals in the spin-orbital order
    (alpha occupied, beta occupied, alpha virtual, beta virtual)."""
    no = noa + nob
    a = list(range(noa)) + [no + k for k in range(nva)]
    b = [noa + k for k in range(nob)] + [no + nva + k for k in range(nvb)]
    return a, b


def join1(Fa, Fb, ra, rb, ca, cb, shape):
    out = numpy.zeros(shape, dtype=numpy.result_type(Fa, Fb))
    out[numpy.ix_(ra, ca)] = Fa
    out[numpy.ix_(rb, cb)] = Fb
    return out


def join2(Xaa, Xbb, Xab, a, b, shape):
    """Antisymmetric spin-orbital tensor from its spin blocks.

    a, b: four lists each, positions of alpha and beta entries per index.
    Requires indices 0,1 to range over the same set, and likewise 2,3."""
    out = numpy.zeros(shape, dtype=numpy.result_type(Xaa, Xbb, Xab))
    out[numpy.ix_(a[0], a[1], a[2], a[3])] = Xaa
    out[numpy.ix_(b[0], b[1], b[2], b[3])] = Xbb
    out[numpy.ix_(a[0], b[1], a[2], b[3])] = Xab
    out[numpy.ix_(b[0], a[1], a[2], b[3])] = -Xab.transpose((1, 0, 2, 3))
    out[numpy.ix_(a[0], b[1], b[2], a[3])] = -Xab.transpose((0, 1, 3, 2))
    out[numpy.ix_(b[0], a[1], b[2], a[3])] = Xab.transpose((1, 0, 3, 2))
    return out


class U(object):
    """Spin-blocked tensors and the spin-orbital problem they describe."""

    def __init__(self, size, Fa, Fb, Iaa, Ibb, Iab, T1, T2, L1, L2):
        noa, nva, nob, nvb = self.size = tuple(size)
        self.Fa, self.Fb = Fa, Fb
        self.Iaa, self.Ibb, self.Iab = Iaa, Ibb, Iab
        self.T1, self.T2, self.L1, self.L2 = T1, T2, L1, L2
        no, nv = noa + nob, nva + nvb
        n = no + nv
        a, b = spin_index(*self.size)
        oa, ob = list(range(noa)), list(range(noa, no))
        va, vb = list(range(nva)), list(range(nva, nv))
        self.oa, self.ob, self.va, self.vb = oa, ob, va, vb
        F = join1(Fa, Fb, a, b, a, b, (n, n))
        I = join2(Iaa, Ibb, Iab, [a]*4, [b]*4, (n,)*4)
        t1 = join1(T1[0], T1[1], va, vb, oa, ob, (nv, no))
        l1 = join1(L1[0], L1[1], oa, ob, va, vb, (no, nv))
        t2 = join2(T2[0], T2[2], T2[1], [va, va, oa, oa], [vb, vb, ob, ob],
                   (nv, nv, no, no))
        l2 = join2(L2[0], L2[2], L2[1], [oa, oa, va, va], [ob, ob, vb, vb],
                   (no, no, nv, nv))
        self.so = SO(no, nv, F, I, t1, t2, l1, l2)

    def blocks(self):
        """Fa, Fb, Ia, Ib, Iabab in the library's containers."""
        noa, nva, nob, nvb = self.size
        Fa, Ia = gen.f_blocks(self.Fa, noa), gen.i_blocks(self.Iaa, noa)
        Fb = Fa if self.Fb is self.Fa else gen.f_blocks(self.Fb, nob)
        Ib = Ia if self.Ibb is self.Iaa else gen.i_blocks(self.Ibb, nob)
        return Fa, Fb, Ia, Ib, gen.i_blocks_full(self.Iab, (noa, nob, noa, nob))

    def orbitals(self, kinds, spins):
        """Positions in the spin-orbital order for each index of a block."""
        no = self.so.no
        idx = {"o": (self.oa, self.ob),
               "v": ([no + k for k in self.va], [no + k for k in self.vb])}
        return [idx[k]["ab".index(s)] for k, s in zip(kinds, spins)]

    def amps(self):
        return self.T1 + self.T2 + self.L1 + self.L2

    def cut1(self, X, kinds, spin):
        idx = {"o": (self.oa, self.ob), "v": (self.va, self.vb)}
        return X[numpy.ix_(*[idx[k][s] for k, s in zip(kinds, spin)])]

    def cut(self, X, kinds, spins):
        """Spin block of a spin-orbital tensor; kinds 'vvoo', spins 'abab'."""
        idx = {"o": (self.oa, self.ob), "v": (self.va, self.vb)}
        return X[numpy.ix_(*[idx[k]["ab".index(s)] for k, s in zip(kinds, spins)])]


def same(X):
    """Same-spin part of a closed-shell tensor."""
    return X - X.transpose((0, 1, 3, 2))


def flip(X):
    return X.transpose((1, 0, 3, 2))


def make_u(case):
    noa, nva, nob, nvb = case["size"]
    na, nb = noa + nva, nob + nvb
    t, small = tensors(case)
    Fa, Fb = t.array(na, na), t.array(nb, nb)
    Iaa, Ibb, Iab = t.anti(na), t.anti(nb), t.array(na, nb, na, nb)
    if case["herm"]:
        Fa, Fb, Iaa, Ibb, Iab = (_herm1(Fa), _herm1(Fb), _herm2(Iaa), _herm2(Ibb),
                                 _herm2(Iab))
        if small:
            Fa, Iaa = Fa + small*t.array(na, na), Iaa + small*t.anti(na)
            Fb, Ibb = Fb + small*t.array(nb, nb), Ibb + small*t.anti(nb)
            Iab = Iab + small*t.array(na, nb, na, nb)
    Fa, Fb = fock(case, Fa, noa, small), fock(case, Fb, nob, small)
    ts = case["tscale"]
    T1 = (ts*t.array(nva, noa), ts*t.array(nvb, nob))
    T2 = (ts*t.T2(noa, nva), ts*t.array(nva, nvb, noa, nob), ts*t.T2(nob, nvb))
    L1 = (t.array(noa, nva), t.array(nob, nvb))
    L2 = (t.L2(noa, nva), t.array(noa, nob, nva, nvb), t.L2(nob, nvb))
    LL = [conjugate(case, small, x, y, z, w) for x, y, z, w in
          zip((T1[0], T1[0], T1[1]), T2, (L1[0], L1[0], L1[1]), L2)]
    L1, L2 = (LL[0][0], LL[2][0]), tuple(x[1] for x in LL)
    z = case["zero"]
    if z == "L2":
        L2 = tuple(small*x for x in L2)
    if z == "I":
        Iaa, Ibb, Iab = small*Iaa, small*Ibb, small*Iab
    if z == "T1":
        T1 = tuple(small*x for x in T1)
    if z == "T2":
        T2 = tuple(small*x for x in T2)
    if z == "L1":
        L1 = tuple(small*x for x in L1)
    if z == "F":
        Fa, Fb = small*Fa, small*Fb
    share = case.get("share", "") if (noa, nva) == (nob, nvb) else ""
    if share == "closed":
        # a closed shell in unrestricted form
        V, X, Y = Iab + flip(Iab), T2[1] + flip(T2[1]), L2[1] + flip(L2[1])
        Iaa, Iab, T2, L2 = same(V), V, (same(X), X, same(X)), (same(Y), Y, same(Y))
        share = "all"
    if share in ("integrals", "all", "F"):
        Fb = Fa
        if small:
            Fb = Fa + small*t.array(na, na)
    if share in ("integrals", "all"):
        Ibb = Iaa
        if small:
            Ibb = Iaa + small*t.anti(na)
    if share in ("T", "all", "T1"):
        T1 = (T1[0], T1[0])
        if small:
            T1 = (T1[0], T1[0] + small*t.array(nva, noa))
    if share in ("T", "all", "T2"):
        T2 = (T2[0], T2[1], T2[0])
        if small:
            T2 = T2[:2] + (T2[0] + small*t.T2(noa, nva),)
    if share in ("L", "all", "L1"):
        L1 = (L1[0], L1[0])
        if small:
            L1 = (L1[0], L1[0] + small*t.array(noa, nva))
    if share in ("L", "all", "L2"):
        L2 = (L2[0], L2[1], L2[0])
        if small:
            L2 = L2[:2] + (L2[0] + small*t.L2(noa, nva),)
    return U((noa, nva, nob, nvb), Fa, Fb, Iaa, Ibb, Iab, T1, T2, L1, L2)


class R(object):
    """Closed-shell tensors and the equivalent unrestricted problem."""

    def __init__(self, no, nv, F, V, T1, T2, L1, L2):
        self.no, self.nv = no, nv
        self.F, self.V, self.T1, self.T2, self.L1, self.L2 = F, V, T1, T2, L1, L2

        self.u = U((no, nv, no, nv), F, F, same(V), same(V), V, (T1, T1),
                   (same(T2), T2, same(T2)), (L1, L1), (same(L2), L2, same(L2)))

    def blocks(self):
        return gen.f_blocks(self.F, self.no), gen.i_blocks_full(self.V, (self.no,)*4)


def make_r(case):
    no, nv = case["no"], case["nv"]
    n = no + nv
    t, small = tensors(case)
    F, V = t.array(n, n), t.pair(n, n, n, n)
    if case["herm"]:
        F, V = _herm1(F), _herm2(V)
        if small:
            F, V = F + small*t.array(n, n), V + small*t.pair(n, n, n, n)
    F = fock(case, F, no, small)
    ts = case["tscale"]
    T1, T2 = ts*t.array(nv, no), ts*t.pair(nv, nv, no, no)
    L1, L2 = t.array(no, nv), t.pair(no, no, nv, nv)
    L1, L2 = conjugate(case, small, T1, T2, L1, L2)
    z = case["zero"]
    if z == "L2":
        L2 = small*L2
    if z == "I":
        V = small*V
    if z == "T1":
        T1 = small*T1
    if z == "T2":
        T2 = small*T2
    if z == "L1":
        L1 = small*L1
    if z == "F":
        F = small*F
    return R(no, nv, F, V, T1, T2, L1, L2)
