"""C06: restricted CCSD and Lambda against the closed-shell spin-orbital problem."""
import numpy
from vlib.engine import call
from vlib.cmp import same, shaped
from vlib import problem, oracle, ccref, gen

ID = "C06"
RULE = "at least 2 occupied and 2 virtual spatial orbitals and no tensor zeroed"
ASSUMPTIONS = [
    "up to 10 spin orbitals Lambda is compared element by element with the Fock-space "
    "gradient; larger ones along random closed-shell directions plus pair symmetry"]
BUDGET = {"quick": (180, 150), "thorough": (3000, 700)}
LARGE = [(3, 3), (3, 4), (4, 3), (2, 5)]


def generate(d):
    no, nv = d.spread("size", problem.R_SMALL*4 + LARGE*2 + problem.R_WIDE)
    case = {"no": no, "nv": nv}
    case.update(problem.draw_tensor_case(d))
    return case


def nontrivial(case):
    return min(case["no"], case["nv"]) >= 2 and case["zero"] == ""


def execute(case, counter):
    from cqcpy import cc_equations as eq
    p = problem.make_r(case)
    counter.label("size-%d-%d" % (p.no, p.nv))
    F, I = p.blocks()
    u, so = p.u, p.u.so
    E, R1, R2 = oracle.ccsd(so)
    T1, T2 = call("rccsd_stanton", eq.rccsd_stanton, F, I, p.T1, p.T2)
    top = abs(R2).max()
    same("restricted singles", T1, u.cut(R1, "vo", "aa"), scale=top)
    same("restricted doubles", T2, u.cut(R2, "vvoo", "abab"), scale=top)
    same("restricted doubles pair symmetry", T2, T2.transpose((1, 0, 3, 2)))
    L1, L2 = call("rccsd_lambda_opt", eq.rccsd_lambda_opt, F, I, p.L1, p.L2, p.T1, p.T2)
    shaped("restricted Lambda singles", L1, p.L1.shape)
    shaped("restricted Lambda doubles", L2, p.L2.shape)
    same("restricted Lambda pair symmetry", L2, L2.transpose((1, 0, 3, 2)))
    if so.no + so.nv <= 10:
        G1, G2 = oracle.cc(so).lagrangian_gradient(so.L1, so.L2)
        top = abs(G2).max()
        same("restricted Lambda singles", L1, u.cut(G1, "ov", "aa"), scale=top)
        same("restricted Lambda doubles", L2, u.cut(G2, "oovv", "abab"), scale=top)
        return
    counter.label("directional")
    t = gen.Tensors(case["seed"] + 1)
    no, nv = p.no, p.nv
    for mode in range(2):
        # alpha singles / mixed doubles only, so single elements are distinguished
        D1, D2 = t.array(nv, no), t.array(nv, nv, no, no)
        z1, z2 = 0*D1, 0*D2
        if mode == 0:
            q = problem.U(u.size, u.Fa, u.Fb, u.Iaa, u.Ibb, u.Iab, (D1, z1),
                          (z2, z2, z2), u.L1, u.L2).so
            got = numpy.einsum('ia,ai->', L1, D1)
        else:
            q = problem.U(u.size, u.Fa, u.Fb, u.Iaa, u.Ibb, u.Iab, (z1, z1),
                          (z2, D2, z2), u.L1, u.L2).so
            got = numpy.einsum('ijab,abij->', L2, D2)
        want = ccref.lagrangian_directional(
            so.no, so.F, so.I, so.T1, so.T2, so.L1, so.L2, q.T1, q.T2)
        same("restricted Lambda along a random direction", got, want)
