"""C03: energies against the reference expectation value, in every spin form."""
import numpy
from vlib.engine import call
from vlib.cmp import same
from vlib import problem, oracle

ID = "C03"
RULE = "at least 2 occupied and 2 virtual orbitals (per form) and no tensor zeroed"
ASSUMPTIONS = ["comparison tolerance 1e-9 relative to max(1, |E|)"]
BUDGET = {"quick": (1200, 120), "thorough": (12000, 400)}


def generate(d):
    form = d.spread("form", ["so", "u", "r"])
    if form == "so":
        no, nv = d.spread("so", problem.SO_SMALL + problem.SO_LARGE + problem.SO_WIDE)
        case = {"form": form, "no": no, "nv": nv}
    elif form == "r":
        no, nv = d.spread("r", problem.R_SMALL + problem.R_LARGE + problem.R_WIDE + [(9, 8)])
        case = {"form": form, "no": no, "nv": nv}
    else:
        case = {"form": form, "size": list(d.spread(
            "u", problem.U_SMALL + problem.U_EQUAL + problem.U_ZERO + problem.U_LARGE
            + problem.U_WIDE + [(9, 8, 8, 9)]))}
    case.update(problem.draw_tensor_case(d))
    return case


def nontrivial(case):
    if case["form"] == "u":
        noa, nva, nob, nvb = case["size"]
        ok = noa + nob >= 2 and nva + nvb >= 2
    else:
        ok = case["no"] >= 2 and case["nv"] >= 2
    return ok and case["zero"] == ""


def energy(p):
    from vlib import ccref
    if p.no + p.nv <= 8:
        return oracle.ccsd(p, "fock")[0]
    e, Fd, Id = ccref.dress(p.no, p.F, p.I, p.T1)
    o, v = slice(0, p.no), slice(p.no, None)
    return e + 0.25*numpy.einsum('ijab,abij->', Id[o, o, v, v], p.T2)


def mp2(p):
    o, v = slice(0, p.no), slice(p.no, None)
    e = sum(p.F[i, p.no + a]*p.T1[a, i] for i in range(p.no) for a in range(p.nv))
    return e + 0.25*numpy.einsum('ijab,abij->', p.I[o, o, v, v], p.T2)


def execute(case, counter):
    from cqcpy import cc_energy as en
    counter.label(case["form"])
    if case["form"] == "so":
        p = problem.make_so(case)
        F, I = p.Fb(), p.Ib()
        same("CC energy", call("cc_energy", en.cc_energy, p.T1, p.T2, F.ov, I.oovv),
             energy(p))
        same("MP2 energy", call("mp2_energy", en.mp2_energy, p.T1, p.T2, F.ov, I.oovv),
             mp2(p))
        # the separate contributions
        z1, z2 = 0*p.T1, 0*p.T2
        t1, t2, f = p.T1, p.T2, p.F
        p.T1, p.T2 = z1, t2
        same("doubles part", call("cc_energy_d", en.cc_energy_d, t2, I.oovv), energy(p))
        p.T1, p.T2 = t1, z2
        lin = mp2(p)
        same("singles part", call("cc_energy_s1", en.cc_energy_s1, t1, F.ov), lin)
        quad = energy(p) - lin
        same("squared singles part", call("cc_energy_s2", en.cc_energy_s2, t1, I.oovv),
             2*quad, scale=abs(lin))
        same("mixed singles part",
             call("cc_energy_s2_a", en.cc_energy_s2_a, t1, -0.5*t1, I.oovv), -quad,
             scale=abs(lin))
        return
    if case["form"] == "u":
        p = problem.make_u(case)
        Fa, Fb, Ia, Ib, Iab = p.blocks()
        args = (p.T1, p.T2, Fa.ov, Fb.ov, Ia.oovv, Ib.oovv, Iab.oovv)
        same("unrestricted CC energy", call("ucc_energy", en.ucc_energy, *args),
             energy(p.so))
        same("unrestricted MP2 energy", call("ump2_energy", en.ump2_energy, *args),
             mp2(p.so))
        return
    p = problem.make_r(case)
    F, I = p.blocks()
    same("restricted CC energy", call("rcc_energy", en.rcc_energy, p.T1, p.T2, F.ov, I.oovv),
         energy(p.u.so))
