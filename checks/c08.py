"""C08: spin-orbital two-particle densities against Fock-space expectation values."""
from vlib.engine import call
from vlib.cmp import same
from vlib import problem, oracle, probe, gen

ID = "C08"
RULE = "at least 2 occupied and 2 virtual spin orbitals and no tensor zeroed"
ASSUMPTIONS = [
    "elementwise up to 10 spin orbitals; larger sizes by contraction with random "
    "operators (the Lagrangian is linear in them) plus antisymmetry"]
BUDGET = {"quick": (300, 120), "thorough": (5000, 600)}
SMALL = problem.SO_SMALL + [(4, 5), (5, 4)]
LARGE = [(5, 7), (4, 8), (7, 5)] + [x for x in problem.SO_WIDE if sum(x) <= 20 or x == (12, 12)]
KINDS = {"a": "v", "b": "v", "c": "v", "d": "v", "i": "o", "j": "o", "k": "o", "l": "o"}
PLAIN = ["cdab", "ciab", "bcai", "bjai", "abij", "jkai", "kaij", "klij"]
OPT = ["cdab", "bcai", "bjai", "abij", "kaij", "klij"]


def generate(d):
    no, nv = d.spread("size", SMALL*2 + LARGE)
    case = {"no": no, "nv": nv, "tfac": d.choice([1.0, 0.0, 2.0, -0.5, 0.3])}
    case.update(problem.draw_tensor_case(d))
    return case


def nontrivial(case):
    return min(case["no"], case["nv"]) >= 2 and case["zero"] == ""


def kinds(name):
    return "".join(KINDS[c] for c in name)


def functions(eq, p, tfac):
    """(label, block name, scale, tensor) for every function and scale."""
    args = (p.T1, p.T2, p.L1, p.L2)
    for name in PLAIN:
        for suffix in ("", "_opt"):
            if suffix and name not in OPT:
                continue
            fn = "ccsd_2rdm_" + name + suffix
            yield fn, name, 1.0, call(fn, getattr(eq, fn), *args)
            if name == "abij" and tfac != 1.0:
                yield fn, name, tfac, call(fn, getattr(eq, fn), *args, tfac=tfac)


def execute(case, counter):
    from cqcpy import cc_equations as eq
    p = problem.make_so(case)
    no, nv = p.no, p.nv
    tfac = case["tfac"]
    counter.label("size-%d-%d" % (no, nv))
    if no + nv <= 10:
        P = oracle.densities(p)[1]
        P0 = oracle.densities(p, 0*p.L1, 0*p.L2)[1]
        for fn, name, f, got in functions(eq, p, tfac):
            ref = gen.cut(P + (f - 1.0)*P0, kinds(name), (no,)*4)
            same(fn, got, ref)
        return
    counter.label("contracted")
    t = gen.Tensors(case["seed"] + 1, dtype=case["dtype"])
    sets = {"o": list(range(no)), "v": list(range(no, no + nv))}
    for fn, name, f, got in functions(eq, p, tfac):
        probe.two(fn, p, [sets[c] for c in kinds(name)], got, t, f)
