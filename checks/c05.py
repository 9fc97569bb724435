"""C05: unrestricted CCSD and Lambda against the spin-orbital problem, block by block."""
import numpy
from vlib.engine import call
from vlib.cmp import same, shaped, true
from vlib import problem, oracle, ccref, gen

ID = "C05"
RULE = "alpha and beta sizes differ, both spins occupied with virtuals, no tensor zeroed"
ASSUMPTIONS = [
    "up to 10 spin orbitals Lambda is compared element by element with the Fock-space "
    "gradient; larger ones along random directions plus antisymmetry"]
BUDGET = {"quick": (260, 150), "thorough": (4000, 700)}
LARGE = [(3, 5, 2, 6), (4, 4, 3, 5)]


def generate(d):
    size = d.spread("size", problem.U_SMALL*2 + problem.U_EQUAL*2 + problem.U_ZERO + LARGE
                    + problem.U_WIDE)
    case = {"size": list(size)}
    case.update(problem.draw_tensor_case(d))
    return case


def nontrivial(case):
    noa, nva, nob, nvb = case["size"]
    return (noa, nva) != (nob, nvb) and min(case["size"]) >= 1 and case["zero"] == ""


def execute(case, counter):
    from cqcpy import cc_equations as eq
    p = problem.make_u(case)
    counter.label("size-%d-%d-%d-%d" % p.size)
    blocks = p.blocks()
    E, R1, R2 = oracle.ccsd(p.so)
    T1, T2 = call("uccsd_stanton", eq.uccsd_stanton, *(blocks + (p.T1, p.T2)))
    true("uccsd_stanton returns two singles and three doubles",
         len(T1) == 2 and len(T2) == 3)
    top = abs(R2).max() if R2.size else 1.0
    for k, s in enumerate("ab"):
        same("unrestricted singles " + s, T1[k], p.cut(R1, "vo", s*2), scale=top)
    for k, s in enumerate(["aaaa", "abab", "bbbb"]):
        same("unrestricted doubles " + s, T2[k], p.cut(R2, "vvoo", s), scale=top)
    L1, L2 = call("uccsd_lambda_opt", eq.uccsd_lambda_opt,
                  *(blocks + (p.L1, p.L2, p.T1, p.T2)))
    true("uccsd_lambda_opt returns two singles and three doubles",
         len(L1) == 2 and len(L2) == 3)
    so = p.so
    if so.no + so.nv <= 10:
        G1, G2 = oracle.cc(so).lagrangian_gradient(so.L1, so.L2)
        top = abs(G2).max() if G2.size else 1.0
        for k, s in enumerate("ab"):
            same("unrestricted Lambda singles " + s, L1[k], p.cut(G1, "ov", s*2), scale=top)
        for k, s in enumerate(["aaaa", "abab", "bbbb"]):
            same("unrestricted Lambda doubles " + s, L2[k], p.cut(G2, "oovv", s), scale=top)
        return
    counter.label("directional")
    noa, nva, nob, nvb = p.size
    n = so.no + so.nv
    for x, y in zip(list(L1) + list(L2), p.L1 + p.L2):
        shaped("unrestricted Lambda", x, y.shape)
    for x in (L2[0], L2[2]):
        same("unrestricted Lambda antisymmetry", x, -x.transpose((1, 0, 2, 3)))
        same("unrestricted Lambda antisymmetry", x, -x.transpose((0, 1, 3, 2)))
    t = gen.Tensors(case["seed"] + 1)
    for mode in range(5):
        D1 = [t.array(nva, noa), t.array(nvb, nob)]
        D2 = [t.T2(noa, nva), t.array(nva, nvb, noa, nob), t.T2(nob, nvb)]
        flat = D1 + D2
        flat = [x if k == mode else 0*x for k, x in enumerate(flat)]
        q = problem.U(p.size, p.Fa, p.Fb, p.Iaa, p.Ibb, p.Iab, tuple(flat[:2]),
                      tuple(flat[2:]), p.L1, p.L2).so
        want = ccref.lagrangian_directional(
            so.no, so.F, so.I, so.T1, so.T2, so.L1, so.L2, q.T1, q.T2)
        got = sum(numpy.einsum('ia,ai->', L1[k], flat[k]) for k in range(2))
        for k, w in enumerate((0.25, 1.0, 0.25)):
            got = got + w*numpy.einsum('ijab,abij->', L2[k], flat[2 + k])
        same("unrestricted Lambda along a random direction in block %d" % mode, got, want)
