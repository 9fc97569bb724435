"""C09: unrestricted and restricted two-particle densities against spin blocks."""
from vlib.engine import call
from vlib.cmp import same, true
from vlib import problem, oracle, probe, gen

ID = "C09"
RULE = "unrestricted: alpha and beta sizes differ and none is zero; restricted: at least " \
       "2 occupied and 2 virtual; no tensor zeroed"
ASSUMPTIONS = [
    "elementwise up to 11 spin orbitals; larger sizes by contraction with random operators"]
U_WIDE = [(3, 4, 2, 5), (2, 7, 1, 8), (7, 2, 8, 1), (4, 4, 4, 4), (1, 17, 1, 1), (1, 1, 17, 1), (17, 1, 1, 1), (1, 2, 1, 18),
          (9, 2, 10, 1), (7, 7, 7, 7), (6, 8, 7, 7), (9, 8, 8, 9)]
R_WIDE = [(3, 4), (2, 9), (9, 2), (7, 7), (9, 8)]
BUDGET = {"quick": (260, 150), "thorough": (4000, 600)}
KINDS = {"a": "v", "b": "v", "c": "v", "d": "v", "i": "o", "j": "o", "k": "o", "l": "o"}
U4 = ["aaaa", "bbbb", "abab", "baba"]
U3 = ["aaaa", "bbbb", "abab"]
UB = {"ciab": U4, "jkai": U4, "cdab": U3,
      "bjai": ["aaaa", "bbbb", "abab", "abba", "baab", "baba"],
      "klij": U3, "bcai": U4, "kaij": U4, "abij": U3}
RB = ["ciab", "jkai", "cdab", "bjai", "bjia", "klij", "bcai", "kaij", "abij"]


def generate(d):
    form = d.spread("form", ["u", "r", "u"])
    if form == "r":
        no, nv = d.spread("r", problem.R_SMALL*2 + R_WIDE)
        case = {"form": form, "no": no, "nv": nv}
    else:
        case = {"form": form, "size": list(d.spread(
            "u", problem.U_SMALL*2 + problem.U_EQUAL + problem.U_ZERO + U_WIDE))}
    case["tfac"] = d.choice([1.0, 0.0, 2.0, -0.5])
    case.update(problem.draw_tensor_case(d))
    return case


def nontrivial(case):
    if case["zero"]:
        return False
    if case["form"] == "r":
        return min(case["no"], case["nv"]) >= 2
    noa, nva, nob, nvb = case["size"]
    return min(case["size"]) >= 1 and (noa, nva) != (nob, nvb)


def kinds(name):
    return "".join(KINDS[c] for c in name)


def large(case, eq, p, u):
    t = gen.Tensors(case["seed"] + 1, dtype=case["dtype"])
    if case["form"] == "r":
        for name in RB:
            fn = "rccsd_2rdm_" + name
            got = call(fn, getattr(eq, fn), p.T1, p.T2, p.L1, p.L2)
            probe.two(fn, u.so, u.orbitals(kinds(name), "abab"), got, t)
        return
    for name, spins in UB.items():
        fn = "uccsd_2rdm_" + name
        for f in {1.0, case["tfac"] if name == "abij" else 1.0}:
            kw = {} if f == 1.0 else {"tfac": f}
            got = call(fn, getattr(eq, fn), *u.amps(), **kw)
            true("%s returns %d blocks" % (fn, len(spins)), len(got) == len(spins))
            for x, s in zip(got, spins):
                probe.two("%s %s" % (fn, s), u.so, u.orbitals(kinds(name), s), x, t, f)


def execute(case, counter):
    from cqcpy import cc_equations as eq
    counter.label(case["form"])
    p = problem.make_u(case) if case["form"] == "u" else problem.make_r(case)
    u = p if case["form"] == "u" else p.u
    so = u.so
    if so.no + so.nv > 11:
        counter.label("contracted")
        return large(case, eq, p, u)
    P = oracle.densities(so)[1]
    top = abs(P).max()

    def block(X, name, spins):
        k = kinds(name)
        return u.cut(gen.cut(X, k, (so.no,)*4), k, spins)

    if case["form"] == "u":
        for name, spins in UB.items():
            fn = "uccsd_2rdm_" + name
            got = call(fn, getattr(eq, fn), *u.amps())
            true("%s returns %d blocks" % (fn, len(spins)), len(got) == len(spins))
            for x, s in zip(got, spins):
                same("%s %s" % (fn, s), x, block(P, name, s), scale=top)
        f = case["tfac"]
        if f != 1.0:
            P0 = oracle.densities(so, 0*so.L1, 0*so.L2)[1]
            got = call("uccsd_2rdm_abij", eq.uccsd_2rdm_abij, *u.amps(), tfac=f)
            for x, s in zip(got, U3):
                same("uccsd_2rdm_abij scaled %s" % s, x, block(P + (f-1)*P0, "abij", s),
                     scale=top)
        return
    for name in RB:
        fn = "rccsd_2rdm_" + name
        got = call(fn, getattr(eq, fn), p.T1, p.T2, p.L1, p.L2)
        same(fn, got, block(P, name, "abab"), scale=top)
