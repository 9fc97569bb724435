"""C27: two-electron problems solved with coupled cluster and with CI, end to end."""
import numpy
from vlib.engine import call, Violation
from vlib.cmp import same, shaped, true
from vlib import gen, problem

ID = "C27"
RULE = "at least 3 spatial orbitals and an interaction that is not zero"
ASSUMPTIONS = [
    "dominant reference: orbital energy gap of at least 4, other one-body and all "
    "two-body matrix elements at most 0.1 to 0.25 in magnitude",
    "Hermitian Hamiltonians, real or complex",
    "solved by T - R/D iterations to 1e-11, results compared to 1e-8"]
BUDGET = {"quick": (140, 120), "thorough": (2500, 800)}
KIND = {"a": "v", "b": "v", "c": "v", "d": "v", "i": "o", "j": "o", "k": "o", "l": "o"}
D1 = {"ba": "ba", "ji": "ji", "ai": "ai"}
D2 = ["cdab", "ciab", "bcai", "bjai", "abij", "jkai", "kaij", "klij"]
OPT = ["cdab", "bcai", "bjai", "abij", "kaij", "klij"]
USPIN = {"ciab": "aaaa bbbb abab baba", "jkai": "aaaa bbbb abab baba",
         "cdab": "aaaa bbbb abab", "bjai": "aaaa bbbb abab abba baab baba",
         "klij": "aaaa bbbb abab", "bcai": "aaaa bbbb abab baba",
         "kaij": "aaaa bbbb abab baba", "abij": "aaaa bbbb abab"}
FORMS = ["so", "u11", "r", "u20", "u02", "so"]


def generate(d):
    form = d.spread("form", FORMS)
    low, high = {"so": (2, 4), "u11": (2, 5), "r": (2, 5)}.get(form, (3, 5))
    return {"form": form, "m": d.integer(low, high),
            "strength": d.choice([0.1, 0.25, 0.02, 0.0]),
            "dtype": d.weighted([("real", 2.0), ("complex", 1.0)]),
            "const": d.choice([0.0, 1.25]),
            "solver": d.choice(["stanton", "simple"]),
            "multipliers": d.choice(["opt", "simple", "stanton", "int"]),
            "seed": d.seed()}


def nontrivial(case):
    return case["m"] >= 3 and case["strength"] > 0


def hermitian(x):
    return 0.5*(x + x.conj().T)


def energies(n, nocc, rng):
    return numpy.concatenate((-3.0 - rng.random(nocc), 1.0 + 2.0*rng.random(n - nocc)))


def iterate(update, amps, dens):
    """Amplitudes at which update vanishes, by T <- T - update/D."""
    for _ in range(400):
        res = update(amps)
        true("as many updates as amplitudes", len(res) == len(amps))
        step = [shaped("update", numpy.asarray(r), d.shape)/d for r, d in zip(res, dens)]
        amps = [x - s for x, s in zip(amps, step)]
        big = max([abs(s).max() for s in step if s.size] + [0.0])
        if not numpy.isfinite(big) or big > 1e3:
            break
        if big < 1e-11:
            return amps
    raise Violation("the iteration does not converge (last step %.3g)" % big)


def place(P, x, kinds, where, pairs):
    """Put a density block and its permuted copies into the full tensor.

    where: orbital positions per index; pairs: the allowed permutations with signs."""
    for perm, sign in pairs:
        P[numpy.ix_(*[where[k] for k in perm])] = sign*x.transpose(perm)


ANTI = [((0, 1, 2, 3), 1), ((1, 0, 2, 3), -1), ((0, 1, 3, 2), -1), ((1, 0, 3, 2), 1)]
PAIR = [((0, 1, 2, 3), 1), ((1, 0, 3, 2), 1)]


class Spinorb(object):
    """Two electrons in general spin orbitals."""

    def __init__(self, case, t, m):
        n = 2*m
        s = case["strength"]
        order = [0, m] + [p for p in range(n) if p not in (0, m)]
        e = numpy.empty(n)
        e[order] = energies(n, 2, t.rng)
        self.no, self.nv, self.order, self.case = 2, n - 2, order, case
        self.h = numpy.diag(e) + s*hermitian(t.array(n, n))
        self.I = s*problem._herm2(t.pair(n, n, n, n))
        self.dh, self.dI = hermitian(t.array(n, n)), problem._herm2(t.pair(n, n, n, n))

    def blocks(self, h, I):
        k = self.order
        h, I = h[numpy.ix_(k, k)], I[numpy.ix_(k, k, k, k)]
        I = I - I.transpose((0, 1, 3, 2))
        F = h + numpy.einsum('piqi->pq', I[:, :2, :, :2])
        return F, I

    def basis(self, ci):
        return call("gcisd_basis", ci.gcisd_basis, self.no + self.nv, 2)

    def matrix(self, ci, basis, h, I, const):
        return [[call("gci_matrixel", ci.gci_matrixel, b, k, h, I, const if b is k else 0.0)
                 for k in basis] for b in basis]

    def action(self, ci, basis, C):
        return call("gH_on_vec", ci.gH_on_vec, basis, C, self.h, self.I)

    def solve(self, eq, en, utils):
        F, I = self.blocks(self.h, self.I)
        no, nv = self.no, self.nv
        Fb, Ib = gen.f_blocks(F, no), gen.i_blocks(I, no)
        e = F.diagonal().real
        d1, d2 = utils.D1(e[no:], e[:no]), utils.D2(e[no:], e[:no])
        name = "ccsd_" + self.case["solver"]
        T = iterate(lambda T: call(name, getattr(eq, name), Fb, Ib, *T),
                    [numpy.zeros((nv, no), F.dtype), numpy.zeros((nv, nv, no, no), F.dtype)],
                    [d1, d2])
        mult = self.case["multipliers"]
        if mult == "int":
            x = call("lambda_int", eq.lambda_int, Fb, Ib, *T)
            extra, fn = [x], eq.ccsd_lambda_opt_int
        else:
            extra, fn = [], getattr(eq, "ccsd_lambda_" + mult)
        L = iterate(lambda L: call("Lambda update", fn, Fb, Ib, *(list(L) + list(T) + extra)),
                    [numpy.zeros((no, nv), F.dtype), numpy.zeros((no, no, nv, nv), F.dtype)],
                    [d1.T, d2.transpose((2, 3, 0, 1))])
        self.T, self.L = T, L
        return call("cc_energy", en.cc_energy, T[0], T[1], Fb.ov, Ib.oovv)

    def vector(self, ci):
        return call("gmakeCfromT", ci.gmakeCfromT, self.no, self.nv, *self.T, order=2)

    def densities(self, eq, suffix=""):
        no, n = self.no, self.no + self.nv
        idx = {"o": list(range(no)), "v": list(range(no, n))}
        dtype = self.T[0].dtype
        P1, P2 = numpy.zeros((n, n), dtype), numpy.zeros((n,)*4, dtype)
        args = list(self.T) + list(self.L)

        def get(kind, name, names):
            fn = "ccsd_%s_%s%s" % (kind, name, suffix if name in names else "")
            w = [idx[KIND[c]] for c in name]
            return w, shaped(fn, call(fn, getattr(eq, fn), *args), [len(x) for x in w])
        for name in D1:
            w, x = get("1rdm", name, ["ai"])
            P1[numpy.ix_(*w)] = x
        P1[:no, no:] = self.L[0]
        for name in D2:
            w, x = get("2rdm", name, OPT)
            place(P2, x, name, w, ANTI)
        P2[:no, :no, no:, no:] = self.L[1]
        return P1, P2

    def expectation(self, eq, h, I):
        F, I = self.blocks(h, I)
        out = []
        for suffix in ("", "_opt"):
            P1, P2 = self.densities(eq, suffix)
            out.append(numpy.einsum('pq,qp->', F, P1)
                       + 0.25*numpy.einsum('pqrs,rspq->', I, P2))
        return out


class Unrestricted(object):
    """Two electrons, spin blocks; na + nb = 2."""

    def __init__(self, case, t, m):
        s = case["strength"]
        self.case, self.m = case, m
        self.na, self.nb = int(case["form"][1]), int(case["form"][2])

        def one(e):
            return numpy.diag(e) + s*hermitian(t.array(m, m))
        self.H = [one(energies(m, self.na, t.rng)), one(energies(m, self.nb, t.rng)),
                  s*problem._herm2(t.pair(m, m, m, m)), s*problem._herm2(t.pair(m, m, m, m)),
                  s*problem._herm2(t.array(m, m, m, m))]
        self.dH = [hermitian(t.array(m, m)), hermitian(t.array(m, m)),
                   problem._herm2(t.pair(m, m, m, m)), problem._herm2(t.pair(m, m, m, m)),
                   problem._herm2(t.array(m, m, m, m))]

    def make(self, H, T1=None, T2=None, L1=None, L2=None):
        ha, hb, Ia, Ib, Iab = H
        na, nb, m = self.na, self.nb, self.m
        Iaa, Ibb = Ia - Ia.transpose((0, 1, 3, 2)), Ib - Ib.transpose((0, 1, 3, 2))
        Fa = ha + numpy.einsum('piqi->pq', Iaa[:, :na, :, :na]) \
            + numpy.einsum('piqi->pq', Iab[:, :nb, :, :nb])
        Fb = hb + numpy.einsum('piqi->pq', Ibb[:, :nb, :, :nb]) \
            + numpy.einsum('ipiq->pq', Iab[:na, :, :na, :])
        size = (na, m - na, nb, m - nb)
        va, vb = m - na, m - nb
        z = numpy.zeros
        if T1 is None:
            T1, L1 = (z((va, na)), z((vb, nb))), (z((na, va)), z((nb, vb)))
            T2 = (z((va, va, na, na)), z((va, vb, na, nb)), z((vb, vb, nb, nb)))
            L2 = tuple(x.transpose((2, 3, 0, 1)) for x in T2)
        return problem.U(size, Fa, Fb, Iaa, Ibb, Iab, T1, T2, L1, L2)

    def basis(self, ci):
        return call("ucisd_basis", ci.ucisd_basis, self.m, self.na, self.nb)

    def matrix(self, ci, basis, H, const):
        return [[call("ci_matrixel", ci.ci_matrixel, b[0], b[1], k[0], k[1], *H,
                      const if b is k else 0.0) for k in basis] for b in basis]

    def action(self, ci, basis, C):
        return call("H_on_vec", ci.H_on_vec, basis, C, *self.H)

    def solve(self, eq, en, utils):
        p = self.make(self.H)
        b = p.blocks()
        na, nb = self.na, self.nb
        ea, eb = p.Fa.diagonal().real, p.Fb.diagonal().real
        oa, va, ob, vb = ea[:na], ea[na:], eb[:nb], eb[nb:]
        d = [utils.D1(va, oa), utils.D1(vb, ob), utils.D2(va, oa),
             utils.D2u(va, vb, oa, ob), utils.D2(vb, ob)]

        def flat(x):
            return list(x[0]) + list(x[1])

        def amps(x):
            return tuple(x[:2]), tuple(x[2:])
        dtype = p.Fa.dtype
        T = iterate(lambda T: flat(call("uccsd_stanton", eq.uccsd_stanton, *(b + amps(T)))),
                    [x.astype(dtype) for x in p.T1 + p.T2], d)
        dl = [x.T for x in d[:2]] + [x.transpose((2, 3, 0, 1)) for x in d[2:]]
        T1, T2 = amps(T)
        L = iterate(lambda L: flat(call("uccsd_lambda_opt", eq.uccsd_lambda_opt,
                                        *(b + amps(L) + (T1, T2)))),
                    [x.astype(dtype) for x in p.L1 + p.L2], dl)
        L1, L2 = amps(L)
        self.p = self.make(self.H, T1, T2, L1, L2)
        return call("ucc_energy", en.ucc_energy, T1, T2, b[0].ov, b[1].ov, b[2].oovv,
                    b[3].oovv, b[4].oovv)

    def vector(self, ci):
        p = self.p
        noa, nva, nob, nvb = p.size
        return call("makeCfromT", ci.makeCfromT, noa, nva, nob, nvb, *(p.T1 + p.T2), order=2)

    def expectation(self, eq, H):
        p, q = self.p, self.make(H)
        no, n = p.so.no, p.so.no + p.so.nv
        idx = {"oa": p.oa, "ob": p.ob, "va": [no + k for k in p.va],
               "vb": [no + k for k in p.vb]}
        P1 = numpy.zeros((n, n), p.so.T1.dtype)
        P2 = numpy.zeros((n,)*4, p.so.T1.dtype)
        for name in D1:
            fn = "uccsd_1rdm_" + name
            got = call(fn, getattr(eq, fn), *p.amps())
            true("%s returns two blocks" % fn, len(got) == 2)
            for x, s in zip(got, "ab"):
                w = [idx[KIND[c] + s] for c in name]
                P1[numpy.ix_(*w)] = shaped(fn, x, [len(y) for y in w])
        P1[:no, no:] = p.so.L1
        for name in D2:
            fn = "uccsd_2rdm_" + name
            spins = USPIN[name].split()
            got = call(fn, getattr(eq, fn), *p.amps())
            true("%s returns %d blocks" % (fn, len(spins)), len(got) == len(spins))
            for x, s in zip(got, spins):
                w = [idx[KIND[c] + z] for c, z in zip(name, s)]
                place(P2, shaped(fn, x, [len(y) for y in w]), name, w, ANTI)
        P2[:no, :no, no:, no:] = p.so.L2
        return [numpy.einsum('pq,qp->', q.so.F, P1)
                + 0.25*numpy.einsum('pqrs,rspq->', q.so.I, P2)]


class Restricted(Unrestricted):
    """Two electrons in one spatial orbital, closed-shell form."""

    def __init__(self, case, t, m):
        s = case["strength"]
        self.case, self.m, self.na, self.nb = case, m, 1, 1
        h = numpy.diag(energies(m, 1, t.rng)) + s*hermitian(t.array(m, m))
        V = s*problem._herm2(t.pair(m, m, m, m))
        dh, dV = hermitian(t.array(m, m)), problem._herm2(t.pair(m, m, m, m))
        self.H, self.dH = [h, h, V, V, V], [dh, dh, dV, dV, dV]

    def rmake(self, H):
        h, _, V, _, _ = H
        F = h + 2*numpy.einsum('piqi->pq', V[:, :1, :, :1]) \
            - numpy.einsum('piiq->pq', V[:, :1, :1, :])
        return F, V

    def solve(self, eq, en, utils):
        F, V = self.rmake(self.H)
        no, nv = 1, self.m - 1
        Fb, Ib = gen.f_blocks(F, no), gen.i_blocks_full(V, (no,)*4)
        e = F.diagonal().real
        d = [utils.D1(e[no:], e[:no]), utils.D2(e[no:], e[:no])]
        T = iterate(lambda T: call("rccsd_stanton", eq.rccsd_stanton, Fb, Ib, *T),
                    [numpy.zeros((nv, no), F.dtype), numpy.zeros((nv, nv, no, no), F.dtype)],
                    d)
        L = iterate(lambda L: call("rccsd_lambda_opt", eq.rccsd_lambda_opt, Fb, Ib,
                                   *(list(L) + list(T))),
                    [numpy.zeros((no, nv), F.dtype), numpy.zeros((no, no, nv, nv), F.dtype)],
                    [d[0].T, d[1].transpose((2, 3, 0, 1))])
        self.T, self.L = T, L
        self.p = problem.R(no, nv, F, V, T[0], T[1], L[0], L[1]).u
        return call("rcc_energy", en.rcc_energy, T[0], T[1], Fb.ov, Ib.oovv)

    def expectation(self, eq, H):
        F, V = self.rmake(H)
        n, no = self.m, 1
        idx = {"o": list(range(no)), "v": list(range(no, n))}
        P1 = numpy.zeros((n, n), self.T[0].dtype)
        P2 = numpy.zeros((n,)*4, self.T[0].dtype)
        args = list(self.T) + list(self.L)
        for name in D1:
            fn = "rccsd_1rdm_" + name
            w = [idx[KIND[c]] for c in name]
            P1[numpy.ix_(*w)] = shaped(fn, call(fn, getattr(eq, fn), *args),
                                       [len(x) for x in w])
        P1[:no, no:] = self.L[0]
        for name in D2 + ["bjia"]:
            fn = "rccsd_2rdm_" + name
            w = [idx[KIND[c]] for c in name]
            x = shaped(fn, call(fn, getattr(eq, fn), *args), [len(y) for y in w])
            place(P2, x, name, w, PAIR)
        P2[:no, :no, no:, no:] = self.L[1]
        return [2*numpy.einsum('pq,qp->', F, P1)
                + 2*numpy.einsum('pqrs,rspq->', V, P2) - numpy.einsum('pqrs,srpq->', V, P2)]


def execute(case, counter):
    from cqcpy import cc_equations as eq, cc_energy as en, ci_utils as ci, utils
    counter.label(case["form"])
    t = gen.Tensors(case["seed"], "uniform", case["dtype"])
    cls = {"so": Spinorb, "r": Restricted}.get(case["form"], Unrestricted)
    p = cls(case, t, case["m"])
    if cls is Spinorb:
        H, dH = (p.h, p.I), (p.dh, p.dI)
    else:
        H, dH = (p.H,), (p.dH,)
    const = case["const"]
    basis = p.basis(ci)
    M = numpy.array(p.matrix(ci, basis, *H, const))
    dM = numpy.array(p.matrix(ci, basis, *dH, 0.0))
    same("the CI matrix is Hermitian", M, M.conj().T)
    E, X = numpy.linalg.eigh(M)
    ref = M[0, 0]
    corr = p.solve(eq, en, utils)
    same("coupled-cluster against exact ground-state energy", ref + corr, E[0], rtol=1e-8)
    C = p.vector(ci)
    shaped("CI vector", C, (len(basis),))
    same("overlap of CI vector and eigenvector", abs(numpy.vdot(X[:, 0], C)),
         numpy.linalg.norm(C), rtol=1e-8)
    same("Hamiltonian on the CI vector", p.action(ci, basis, C), (E[0] - const)*C, rtol=1e-8)
    for x in p.expectation(eq, *H):
        same("energy from the densities", ref + x, E[0], rtol=1e-8)
    want = numpy.vdot(C, dM @ C)/numpy.vdot(C, C)
    for x in p.expectation(eq, *dH):
        same("derivative of the energy from the densities", dM[0, 0] + x, want, rtol=1e-8)
