"""C17: CI matrix elements against the second-quantised Hamiltonian on bit strings."""
import copy
import numpy
from vlib.engine import call
from vlib.cmp import at_scale
from vlib import det, fock, gen, problem

ID = "C17"
RULE = "at least two electrons, two holes and a basis of at least three determinants"
ASSUMPTIONS = [
    "two-electron integrals <pq|rs> with the exchange symmetry <pq|rs> = <qp|sr>",
    "bra and ket have the same numbers of alpha and of beta electrons",
    "real integrals here (complex ones are property C26)"]
BUDGET = {"quick": (2000, 60), "thorough": (6000, 500)}


def generate(d):
    form = d.choice(["g", "u"])
    case = {"form": form}
    if form == "g":
        n = d.choice([4, 2, 3, 5, 6, 7, 1])
        case["n"] = n
        case["nel"] = d.integer(0, n)
    else:
        n = d.choice([2, 3, 1, 4])
        case["n"] = n
        case["na"] = d.integer(0, n)
        case["nb"] = d.integer(0, n)
    case["nbasis"] = d.choice([3, 6, 12, 1, 20])
    if d.flag(0.06):
        # beyond exhaustive diagonalisation: determinants a few moves apart
        case["long"] = True
        case["n"] = n = d.choice([9, 12, 17, 20])
        for k in ("nel", "na", "nb"):
            if k in case:
                case[k] = d.integer(1, n - 1)
    case["herm"] = d.flag(0.3)
    case["near"] = d.flag(0.15)
    case["tie"] = d.flag(0.25)
    case["power"] = d.weighted([(0, 5.0), (-40, 1.0), (-80, 1.0), (30, 1.0)])
    case["const"] = d.choice([0.0, 1.5, -2.25])
    case["copies"] = d.flag(0.5)    # bra and ket strings are never the same object
    case["kind"] = d.weighted([("int", 1.0), ("uniform", 3.0), ("sparse", 1.0)])
    case["seed"] = d.seed()
    return case


def nontrivial(case):
    if case["nbasis"] < 3:
        return False
    if case["form"] == "g":
        return 2 <= case["nel"] <= case["n"] - 2
    k = case["na"] + case["nb"]
    return 2 <= k <= 2*case["n"] - 2


def spin_hamiltonian(n, ha, hb, Ia, Ib, Iab):
    """One spin-orbital h and <pq|rs> with alpha orbitals first."""
    N = 2*n
    h = numpy.zeros((N, N), dtype=numpy.result_type(ha, hb))
    h[:n, :n] = ha
    h[n:, n:] = hb
    I = numpy.zeros((N, N, N, N), dtype=numpy.result_type(Ia, Ib, Iab))
    I[:n, :n, :n, :n] = Ia
    I[n:, n:, n:, n:] = Ib
    I[:n, n:, :n, n:] = Iab
    I[n:, :n, n:, :n] = Iab.transpose((1, 0, 3, 2))
    return h, I


def hamiltonian(n, nel, h, I):
    s = fock.sector(n, nel)
    return s, s.onebody(h) + s.twobody(I - I.transpose((0, 1, 3, 2)))


def elements(masks, h, I):
    """Matrix of sum h_pq p+q + 1/2 sum <pq|rs> p+q+sr between determinants."""
    out = numpy.zeros((len(masks), len(masks)), dtype=h.dtype)
    bits = [[p for p in range(h.shape[0]) if m >> p & 1] for m in masks]
    for x, bra in enumerate(masks):
        for y, ket in enumerate(masks):
            for q in bits[y]:
                rest = ket ^ (1 << q)
                new = bra & ~rest
                if rest & ~bra == 0 and bin(new).count("1") == 1:
                    p = new.bit_length() - 1
                    out[x, y] += det.hop(ket, q, p)[0]*h[p, q]
            for r in bits[y]:
                for s in bits[y]:
                    rest = ket & ~(1 << r) & ~(1 << s)
                    new = bra & ~rest
                    if r == s or rest & ~bra or bin(new).count("1") != 2:
                        continue
                    hi = new.bit_length() - 1
                    lo = (new ^ (1 << hi)).bit_length() - 1
                    for p, q in ((hi, lo), (lo, hi)):
                        sign = fock.apply_string(ket, [(p, True), (q, True), (s, False),
                                                       (r, False)])[0]
                        out[x, y] += 0.5*sign*I[p, q, r, s]
    return out


def neighbours(rng, n, fill, count):
    """Masks of fill electrons, a few moves from one another."""
    first = sum(1 << int(p) for p in rng.permutation(n)[:fill])
    out = [first]
    for _ in range(20*count):
        m = out[int(rng.integers(len(out)))]
        for _ in range(int(rng.integers(1, 4))):
            occ = [p for p in range(n) if m >> p & 1]
            vir = [p for p in range(n) if not m >> p & 1]
            if occ and vir:
                m ^= (1 << int(rng.choice(occ))) | (1 << int(rng.choice(vir)))
        if m not in out and len(out) < count:
            out.append(m)
    return out


def execute(case, counter):
    from cqcpy import ci_utils as ci
    t = gen.Tensors(case["seed"], case["kind"], scale=2.0**case["power"])
    same = at_scale(case["power"])
    n = case["n"]
    counter.label(case["form"])
    c = case["const"]*2.0**case["power"]
    if case["form"] == "g":
        h, I = t.array(n, n), t.pair(n, n, n, n)
        if case["herm"]:
            h, I = problem._herm1(h), problem._herm2(I)
            if case["near"]:
                h, I = h + 1e-6*t.array(n, n), I + 1e-6*t.pair(n, n, n, n)
        if case.get("long"):
            masks = neighbours(t.rng, n, case["nel"], 6)
        else:
            s, H = hamiltonian(n, case["nel"], h, I)
            masks = list(s.dets)
        strings = [ci.Dstring(n, det.occ(m, n)) for m in masks]
    else:
        ha, hb = t.array(n, n), t.array(n, n)
        Ia, Ib, Iab = t.pair(n, n, n, n), t.pair(n, n, n, n), t.array(n, n, n, n)
        if case["herm"]:
            ha, hb = problem._herm1(ha), problem._herm1(hb)
            Ia, Ib, Iab = [problem._herm2(x) for x in (Ia, Ib, Iab)]
            if case["near"]:
                ha, hb = ha + 1e-6*t.array(n, n), hb + 1e-6*t.array(n, n)
                Ia, Iab = Ia + 1e-6*t.pair(n, n, n, n), Iab + 1e-6*t.array(n, n, n, n)
        if case["tie"]:
            # one Hamiltonian for both spins, or nearly
            hb, Ib = ha, Ia
            if case["near"]:
                hb, Ib = ha + 1e-6*t.array(n, n), Ia + 1e-6*t.pair(n, n, n, n)
            if case["const"]:
                Iab = Ia
        h, I = spin_hamiltonian(n, ha, hb, Ia, Ib, Iab)
        if case.get("long"):
            masks = [x | y << n for x in neighbours(t.rng, n, case["na"], 3)
                     for y in neighbours(t.rng, n, case["nb"], 3)]
        else:
            s, H = hamiltonian(2*n, case["na"] + case["nb"], h, I)
            masks = [x | y << n for x in fock.dets(n, case["na"])
                     for y in fock.dets(n, case["nb"])]
        strings = [(ci.Dstring(n, det.occ(m & (2**n - 1), n)),
                    ci.Dstring(n, det.occ(m >> n, n))) for m in masks]
    pick = t.rng.permutation(len(masks))[:case["nbasis"]]
    basis = [strings[k] for k in pick]
    if case.get("long"):
        ref = elements([masks[k] for k in pick], h, I)
        counter.label("long")
    else:
        idx = [s.index[masks[k]] for k in pick]
        ref = H[numpy.ix_(idx, idx)]
    nb = len(basis)
    bras = copy.deepcopy(basis) if case["copies"] else basis
    got = numpy.zeros((nb, nb))
    for x in range(nb):
        for y in range(nb):
            if case["form"] == "g":
                got[x, y] = call("gci_matrixel", ci.gci_matrixel,
                                 bras[x], basis[y], h, I, c)
            else:
                got[x, y] = call("ci_matrixel", ci.ci_matrixel, bras[x][0], bras[x][1],
                                 basis[y][0], basis[y][1], ha, hb, Ia, Ib, Iab, c)
    same("CI matrix between %s" % [bin(masks[k]) for k in pick[:3]], got,
         ref + c*numpy.eye(nb))
    vec = t.rng.uniform(-1, 1, nb)
    if case["form"] == "g":
        out = call("gH_on_vec", ci.gH_on_vec, basis, vec, h, I)
    else:
        out = call("H_on_vec", ci.H_on_vec, basis, vec, ha, hb, Ia, Ib, Iab)
        # the general form on the same problem
        g = [ci.Dstring(2*n, det.occ(masks[k], 2*n)) for k in pick]
        out2 = call("gH_on_vec", ci.gH_on_vec, g, vec, h, I)
        same("general Hamiltonian on a spin-resolved problem", out2, ref.dot(vec))
    same("Hamiltonian on a vector", out, ref.dot(vec))
