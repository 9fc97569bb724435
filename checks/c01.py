"""C01: amplitude equations against exp(-T) H exp(T) in Fock space / dressed integrals."""
from vlib.engine import call
from vlib.cmp import same
from vlib import problem, oracle

ID = "C01"
RULE = "at least 2 occupied and 2 virtual orbitals and no tensor zeroed"
ASSUMPTIONS = [
    "the two-electron blocks come from one antisymmetric tensor, as the containers require",
    "comparison tolerance 1e-9 relative to the largest reference element"]
BUDGET = {"quick": (600, 120), "thorough": (4000, 500)}


def generate(d):
    no, nv = d.spread("size", problem.SO_SMALL*4 + problem.SO_LARGE*2 + problem.SO_WIDE)
    case = {"no": no, "nv": nv}
    case.update(problem.draw_tensor_case(d))
    return case


def nontrivial(case):
    return min(case["no"], case["nv"]) >= 2 and case["zero"] == ""


def execute(case, counter):
    from cqcpy import cc_equations as eq
    p = problem.make_so(case)
    F, I = p.Fb(), p.Ib()
    counter.label("size-%d-%d" % (p.no, p.nv))
    E, R1, R2 = oracle.ccsd(p)
    for name in ("ccsd_simple", "ccsd_stanton"):
        T1, T2 = call(name, getattr(eq, name), F, I, p.T1, p.T2)
        same(name + " singles", T1, R1)
        same(name + " doubles", T2, R2)
    p.T1 = 0*p.T1
    E, R1, R2 = oracle.ccsd(p)
    for name in ("ccd_simple", "ccd_stanton"):
        same(name, call(name, getattr(eq, name), F, I, p.T2), R2)
