"""C04: Lambda equations against the exact gradient of the Lagrangian."""
import numpy
from vlib.engine import call
from vlib.cmp import same, shaped
from vlib import problem, oracle, ccref, gen

ID = "C04"
RULE = "at least 2 occupied and 2 virtual orbitals and no tensor zeroed"
ASSUMPTIONS = [
    "sizes up to 8 spin orbitals are compared element by element with the Fock-space "
    "commutator expression; larger ones along random directions plus antisymmetry"]
BUDGET = {"quick": (400, 120), "thorough": (6000, 600)}
LARGE = [(4, 5), (5, 5), (4, 7), (6, 4)]
WIDE = [x for x in problem.SO_WIDE if sum(x) <= 24]


def generate(d):
    no, nv = d.spread("size", problem.SO_SMALL*4 + LARGE*2 + WIDE)
    case = {"no": no, "nv": nv}
    case.update(problem.draw_tensor_case(d))
    return case


def nontrivial(case):
    return min(case["no"], case["nv"]) >= 2 and case["zero"] == ""


def compare(name, p, got1, got2, ref, dirs):
    if ref is not None:
        if got1 is not None:
            same(name + " singles", got1, ref[0])
        same(name + " doubles", got2, ref[1])
        return
    shaped(name + " doubles", got2, p.L2.shape)
    same(name + " antisymmetry", got2, -got2.transpose((1, 0, 2, 3)))
    same(name + " antisymmetry", got2, -got2.transpose((0, 1, 3, 2)))
    for D1, D2, want in dirs:
        x = 0.25*numpy.einsum('ijab,abij->', got2, D2)
        if got1 is not None:
            shaped(name + " singles", got1, p.L1.shape)
            x = x + numpy.einsum('ia,ai->', got1, D1)
        same(name + " along a random direction", x, want)


def directions(p, seed, singles=True):
    t = gen.Tensors(seed + 1)
    out = []
    for mode in ("s", "d", "sd"):
        D1, D2 = t.array(p.nv, p.no), t.T2(p.no, p.nv)
        if "s" not in mode or not singles:
            D1 = 0*D1
        if "d" not in mode:
            D2 = 0*D2
        want = ccref.lagrangian_directional(
            p.no, p.F, p.I, p.T1, p.T2, p.L1, p.L2, D1, D2)
        out.append((D1, D2, want))
    return out


def execute(case, counter):
    from cqcpy import cc_equations as eq
    p = problem.make_so(case)
    F, I = p.Fb(), p.Ib()
    counter.label("size-%d-%d" % (p.no, p.nv))
    small = p.no + p.nv <= 8
    ref, dirs = None, None
    if small:
        ref = oracle.cc(p).lagrangian_gradient(p.L1, p.L2)
    else:
        dirs = directions(p, case["seed"])
    args = (F, I, p.L1, p.L2, p.T1, p.T2)
    for name in ("ccsd_lambda_simple", "ccsd_lambda_opt", "ccsd_lambda_stanton"):
        L1, L2 = call(name, getattr(eq, name), *args)
        compare(name, p, L1, L2, ref, dirs)
    intor = call("lambda_int", eq.lambda_int, F, I, p.T1, p.T2)
    for k in range(2):
        L1, L2 = call("ccsd_lambda_opt_int", eq.ccsd_lambda_opt_int, *(args + (intor,)))
        compare("ccsd_lambda_opt_int", p, L1, L2, ref, dirs)
    p.T1, p.L1 = 0*p.T1, 0*p.L1
    if small:
        ref = oracle.cc(p).lagrangian_gradient(p.L1, p.L2)
    else:
        dirs = directions(p, case["seed"], singles=False)
    L2 = call("ccd_lambda_simple", eq.ccd_lambda_simple, F, I, p.L2, p.T2)
    compare("ccd_lambda_simple", p, None, L2, ref, dirs)
