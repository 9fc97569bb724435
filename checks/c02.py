"""C02: linearised, ladder and ring models against their defining terms."""
import numpy
from vlib.engine import call
from vlib.cmp import same
from vlib import problem, oracle, ccref
from vlib.ccref import ein

ID = "C02"
RULE = "at least 2 occupied and 2 virtual orbitals and no tensor zeroed"
ASSUMPTIONS = [
    "linear part taken from the Fock-space residual at T, -T and 0 scaled by roots of unity",
    "ring model defined by the particle-hole matrix Riccati expression"]
BUDGET = {"quick": (400, 120), "thorough": (4000, 500)}
WIDE = [x for x in problem.SO_WIDE if sum(x) <= 25]


def generate(d):
    no, nv = d.spread("size", problem.SO_SMALL*4 + problem.SO_LARGE*2 + WIDE)
    case = {"no": no, "nv": nv}
    case.update(problem.draw_tensor_case(d))
    return case


def nontrivial(case):
    return min(case["no"], case["nv"]) >= 2 and case["zero"] == ""


def linear(p):
    """Constant plus linear part of the CCSD residual in (T1, T2) together."""
    T1, T2 = p.T1, p.T2
    out = []

    def f(s):
        p.T1, p.T2 = s*T1, s*T2
        E, R1, R2 = oracle.ccsd(p)
        return numpy.concatenate([R1.ravel(), R2.ravel()])
    c = ccref.poly_coeffs(f, 4)
    p.T1, p.T2 = T1, T2
    x = c[0] + c[1]
    n1 = T1.size
    return x[:n1].reshape(T1.shape), x[n1:].reshape(T2.shape)


def execute(case, counter):
    from cqcpy import cc_equations as eq
    p = problem.make_so(case)
    F, I = p.Fb(), p.Ib()
    no = p.no
    o, v = slice(0, no), slice(no, None)
    counter.label("size-%d-%d" % (p.no, p.nv))
    tot = max(abs(x).max() for x in oracle.ccsd(p)[1:])
    R1, R2 = linear(p)
    T1, T2 = call("lccsd", eq.lccsd_simple, F, I, p.T1, p.T2)
    same("LCCSD singles", T1, R1, scale=tot)
    same("LCCSD doubles", T2, R2, scale=tot)
    t1 = p.T1
    p.T1 = 0*p.T1
    R1, R2 = linear(p)
    same("LCCD", call("lccd", eq.lccd_simple, F, I, p.T2), R2, scale=tot)
    # ladder
    J, t = p.I, p.T2
    ref = J[v, v, o, o] + 0.5*ein('abcd,cdij->abij', J[v, v, v, v], t) \
        + 0.5*ein('klij,abkl->abij', J[o, o, o, o], t) \
        + 0.25*ein('abkl,klcd,cdij->abij', t, J[o, o, v, v], t)
    same("ladder CCD", call("ccd_ladder", eq.ccd_ladder_simple, I, t), ref)
    # ring: R = B - T A - A' T + T B' T over particle-hole pairs
    nov = p.nv*p.no

    def mat(x):          # x[a,b,i,j] -> X[(a,i),(b,j)]
        return x.transpose((0, 2, 1, 3)).reshape(nov, nov)
    B = mat(J[v, v, o, o])
    T = mat(t)
    A = J[v, o, v, o].transpose((0, 3, 2, 1)).reshape(nov, nov)    # [(b,j),(c,k)] = I[b,k,c,j]
    K = J[o, o, v, v].transpose((2, 0, 3, 1)).reshape(nov, nov)    # [(c,k),(d,l)] = I[k,l,c,d]
    ref = B - T.dot(A.T) - A.dot(T.T) + T.dot(K).dot(T)
    ref = ref.reshape(p.nv, no, p.nv, no).transpose((0, 2, 1, 3))
    same("ring CCD", call("ccd_ring", eq.ccd_ring_simple, I, t), ref)
