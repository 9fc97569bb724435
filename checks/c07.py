"""C07: one-particle densities against bra-ket expectation values in Fock space."""
from vlib.engine import call
from vlib.cmp import same, true
from vlib import problem, oracle, probe, gen

ID = "C07"
RULE = "at least 2 occupied and 2 virtual spin orbitals and no tensor zeroed"
ASSUMPTIONS = [
    "elementwise up to 11 spin orbitals; larger sizes by contraction with random operators"]
BUDGET = {"quick": (330, 150), "thorough": (6000, 600)}
SO = problem.SO_SMALL + [(4, 5), (5, 5), (5, 6)] + [
    x for x in problem.SO_WIDE if sum(x) <= 24]
R_WIDE = [(3, 4), (2, 9), (9, 2), (1, 12), (7, 7), (9, 8)]
BLOCKS = [("ba", "vv"), ("ji", "oo"), ("ai", "vo")]


def generate(d):
    form = d.spread("form", ["so", "u", "r"])
    if form == "so":
        no, nv = d.spread("so", SO)
        case = {"form": form, "no": no, "nv": nv}
    elif form == "r":
        no, nv = d.spread("r", problem.R_SMALL*2 + R_WIDE)
        case = {"form": form, "no": no, "nv": nv}
    else:
        case = {"form": form, "size": list(d.spread(
            "u", problem.U_SMALL + problem.U_EQUAL + problem.U_ZERO + problem.U_LARGE[:2]
            + problem.U_WIDE + [(9, 8, 8, 9)]))}
    case["tfac"] = d.choice([1.0, 0.0, 2.0, -0.5, 0.3])
    case.update(problem.draw_tensor_case(d))
    return case


def nontrivial(case):
    if case["form"] == "u":
        noa, nva, nob, nvb = case["size"]
        ok = noa + nob >= 2 and nva + nvb >= 2
    else:
        ok = case["no"] >= 2 and case["nv"] >= 2
    return ok and case["zero"] == ""


def blocks(P, no):
    o, v = slice(0, no), slice(no, None)
    return {"ba": P[v, v], "ji": P[o, o], "ai": P[v, o]}


def reference(so, tfac):
    """Density blocks with the multiplier-free part scaled by tfac."""
    if so.no + so.nv > 11:
        return None
    P = oracle.densities(so)[0]
    P0 = oracle.densities(so, 0*so.L1, 0*so.L2)[0]
    a, b = blocks(P, so.no), blocks(P0, so.no)
    return {k: a[k] + (tfac - 1.0)*b[k] for k in a}


def orbitals(so, kinds):
    o, v = list(range(so.no)), list(range(so.no, so.no + so.nv))
    return [o if k == "o" else v for k in kinds]


def execute(case, counter):
    from cqcpy import cc_equations as eq
    tfac = case["tfac"]
    t = gen.Tensors(case["seed"] + 1, dtype=case["dtype"])
    counter.label(case["form"])
    if case["form"] == "so":
        p = problem.make_so(case)
        for f in (1.0, tfac):
            ref = reference(p, f)
            args = (p.T1, p.T2, p.L1, p.L2)
            for name in ("ccsd_1rdm_ba", "ccsd_1rdm_ji", "ccsd_1rdm_ai", "ccsd_1rdm_ai_opt"):
                kw = {} if f == 1.0 or "ai" not in name else {"tfac": f}
                got = call(name, getattr(eq, name), *args, **kw)
                k = name.split("_")[2]
                if ref:
                    same(name, got, ref[k])
                else:
                    probe.one(name, p, orbitals(p, dict(BLOCKS)[k]), got, t,
                              f if k == "ai" else 1.0)
        return
    if case["form"] == "u":
        p = problem.make_u(case)
        for f in (1.0, tfac):
            ref = reference(p.so, f)
            for k, kinds in BLOCKS:
                name = "uccsd_1rdm_" + k
                kw = {} if f == 1.0 or k != "ai" else {"tfac": f}
                got = call(name, getattr(eq, name), *p.amps(), **kw)
                true(name + " returns two blocks", len(got) == 2)
                for x, s in zip(got, "ab"):
                    if ref:
                        same(name + " " + s, x, p.cut(ref[k], kinds, s*2))
                    else:
                        probe.one(name + " " + s, p.so, p.orbitals(kinds, s*2), x, t,
                                  f if k == "ai" else 1.0)
        return
    p = problem.make_r(case)
    for f in (1.0, tfac):
        ref = reference(p.u.so, f)
        for k, kinds in BLOCKS:
            name = "rccsd_1rdm_" + k
            kw = {} if f == 1.0 else {"tfac": f}
            got = call(name, getattr(eq, name), p.T1, p.T2, p.L1, p.L2, **kw)
            if ref:
                same(name, got, p.u.cut(ref[k], kinds, "aa"))
            else:
                probe.one(name, p.u.so, p.u.orbitals(kinds, "aa"), got, t,
                          f if k == "ai" else 1.0)
