"""C12: contribution kernels: scale, accumulation, placement and the sum of their parts."""
import inspect
import numpy
from vlib.engine import call
from vlib.cmp import same, exactly
from vlib import problem, oracle, ccref, gen

ID = "C12"
RULE = "at least 2 occupied and 2 virtual orbitals, no tensor zeroed, scale not 0 or 1"
ASSUMPTIONS = [
    "a kernel named here that the library no longer has is skipped and counted as missing",
    "likewise one that no longer takes the same arguments",
    "outputs have the common element type of all inputs",
    "kernels whose sum is not the equation, while the library's own term-by-term function "
    "still returns it, have been divided up differently and are counted as restructured"]
BUDGET = {"quick": (700, 120), "thorough": (10000, 600)}

# kernel -> arguments after the output; the output is the first letter of the name
SINGLES = {"_S_S": "F I T1", "_S_D": "F I T2", "_S_SS": "F I T1", "_S_SD": "F I T1 T2",
           "_S_SSS": "F I T1"}
DOUBLES = {"_D_S": "F I T1", "_D_D": "F I T2", "_D_SS": "F I T1", "_D_SD": "F I T1 T2",
           "_D_DD": "F I T2", "_D_SSS": "F I T1", "_D_SSD": "F I T1 T2",
           "_D_SSSS": "F I T1"}
LSINGLES = {"_LS_TS": "I T1", "_LS_LS": "F I L1", "_LS_LSTS": "F I L1 T1",
            "_LS_LSTD": "I L1 T2", "_LS_LSTSS": "I L1 T1", "_LS_LD": "F I L2",
            "_LS_LDTS": "F I L2 T1", "_LS_LDTD": "F I L2 T2", "_LS_LDTSS": "F I L2 T1",
            "_LS_LDTSD": "I L2 T1 T2", "_LS_LDTSSS": "I L2 T1"}
LDOUBLES = {"_LD_LS": "F I L1", "_LD_LSTS": "F I L1 T1", "_LD_LD": "F I L2",
            "_LD_LDTS": "F I L2 T1", "_LD_LDTD": "I L2 T2", "_LD_LDTSS": "F I L2 T1"}
MODELS = {"_D_D_ladder": "I T2", "_D_DD_ladder": "I T2", "_D_D_ring": "I T2",
          "_D_DD_ring": "I T2", "_LD_LD_ladder": "I L2", "_LD_LDTD_ladder": "I L2 T2"}
BOTH = {"_Stanton": "F I T1 T2", "_Lambda_Stanton": "F I L1 L2 T1 T2",
        "_Lambda_opt": "F I L1 L2 T1 T2", "_Lambda_opt_int": "F I L1 L2 T1 T2 int"}
TERMS = dict(SINGLES, **dict(DOUBLES, **dict(LSINGLES, **LDOUBLES)))
GROUPS = ["terms", "models", "whole", "unrestricted", "restricted", "sum"]


def generate(d):
    group = d.spread("group", GROUPS)
    case = {"group": group, "fac": d.choice([2.0, -1.0, 0.5, 0.0, -3.25, 1.0]),
            "layout": d.choice(["c", "f", "view"])}
    if group == "unrestricted":
        case["size"] = list(d.choice(problem.U_SMALL + problem.U_ZERO + problem.U_WIDE[:6]))
    elif group == "restricted":
        case["no"], case["nv"] = d.choice(problem.R_SMALL)
    else:
        case["no"], case["nv"] = d.choice(problem.SO_SMALL)
    case.update(problem.draw_tensor_case(d))
    return case


def nontrivial(case):
    size = case.get("size", [case.get("no"), case.get("nv")])
    return min(size) >= 2 and case["zero"] == "" and case["fac"] not in (0.0, 1.0)


def copy_of(x, layout):
    if layout == "f":
        return numpy.asfortranarray(x.copy())
    if layout == "view":
        big = numpy.full([2*k + 1 for k in x.shape], 7.5, dtype=x.dtype)
        v = big[tuple(slice(1, None, 2) for _ in x.shape)]
        v[...] = x
        return v
    return x.copy()


def surroundings(v):
    """Elements of the larger array around a strided view."""
    big = v.base.copy()
    big[tuple(slice(1, None, 2) for _ in v.shape)] = 7.5
    return big


def takes(fn, args, counter):
    """Whether the kernel still accepts these arguments and a scale."""
    try:
        inspect.signature(fn).bind(*args, fac=1.0)
    except TypeError:
        counter.label("changed-" + fn.__name__)
        return False
    except ValueError:
        pass
    return True


def agrees(got, want):
    want = numpy.asarray(want)
    got = numpy.asarray(got)
    return got.shape == want.shape and bool(
        numpy.allclose(got, want, rtol=0, atol=1e-9*max(1.0, abs(want).max())))


def accumulate(name, fn, outs, args, case, counter):
    """Contribution at unit scale to zero; checked against scaled addition to content."""
    if not takes(fn, outs + args, counter):
        return
    counter.label("kernel-calls", 3)
    zero = [0*x for x in outs]
    call(name, fn, *(zero + args))
    top = max([1.0] + [abs(x).max() for x in zero if x.size])
    zero2 = [0*x for x in outs]
    call(name, fn, *(zero2 + args), fac=1.0)
    for x, y in zip(zero, zero2):
        same(name + ": the default scale is one", x, y, scale=top)
    fac = case["fac"]
    prior = [copy_of(x, case["layout"]) for x in outs]
    call(name, fn, *(prior + args), fac=fac)
    for k, (x, old, z) in enumerate(zip(prior, outs, zero)):
        same("%s: output %d at scale %s on top of earlier content" % (name, k, fac),
             x, old + fac*z, scale=top)
        if case["layout"] == "view" and x.size:
            exactly(name + ": elements outside the output", surroundings(x),
                    numpy.full([2*j + 1 for j in x.shape], 7.5, dtype=x.dtype))


def execute(case, counter):
    from cqcpy import cc_equations as eq
    group = case["group"]
    counter.label(group)

    def find(name):
        fn = getattr(eq, name, None)
        if fn is None:
            counter.label("missing-" + name)
        return fn

    if group == "unrestricted":
        p = problem.make_u(case)
        t = gen.Tensors(case["seed"] + 1, "uniform", case["dtype"])
        b = list(p.blocks())

        def like(xs):
            return [t.array(*x.shape) for x in xs]
        for name, outs, args in (
                ("_u_Stanton", p.T1 + p.T2, b + [p.T1, p.T2]),
                ("_u_LS_TS", p.L1, b[2:] + [p.T1[0], p.T1[1]]),
                ("_uccsd_Lambda_opt", p.L1 + p.L2, b + [p.L1, p.L2, p.T1, p.T2])):
            fn = find(name)
            if fn is not None:
                accumulate(name, fn, like(outs), args, case, counter)
        return
    if group == "restricted":
        p = problem.make_r(case)
        t = gen.Tensors(case["seed"] + 1, "uniform", case["dtype"])
        F, I = p.blocks()
        for name, outs, args in (
                ("_r_Stanton", [p.T1, p.T2], [F, I, p.T1, p.T2]),
                ("_r_LS_TS", [p.L1], [I, p.T1]),
                ("_rccsd_Lambda_opt", [p.L1, p.L2], [F, I, p.L1, p.L2, p.T1, p.T2])):
            fn = find(name)
            if fn is not None:
                accumulate(name, fn, [t.array(*x.shape) for x in outs], args, case, counter)
        return

    p = problem.make_so(case)
    F, I = p.Fb(), p.Ib()
    env = {"F": F, "I": I, "T1": p.T1, "T2": p.T2, "L1": p.L1, "L2": p.L2}

    def args(spec):
        if "int" in spec and "int" not in env:
            env["int"] = call("lambda_int", eq.lambda_int, F, I, p.T1, p.T2)
        return [env[k] for k in spec.split()]
    t = gen.Tensors(case["seed"] + 1, "uniform", case["dtype"])

    def out_for(name):
        if "Stanton" in name or "Lambda" in name:
            pair = (p.L1, p.L2) if "Lambda" in name else (p.T1, p.T2)
            return [t.array(*x.shape) for x in pair]
        first = name[1:].split("_")[0]
        x = {"S": p.T1, "D": p.T2, "LS": p.L1, "LD": p.L2}[first]
        return [t.array(*x.shape)]

    if group in ("terms", "models", "whole"):
        table = {"terms": TERMS, "models": MODELS, "whole": BOTH}[group]
        for name in sorted(table):
            fn = find(name)
            if fn is not None:
                accumulate(name, fn, out_for(name), args(table[name]), case, counter)
        fn = find("_Stanton_ccd") if group == "whole" else None
        if fn is not None:
            accumulate("_Stanton_ccd", fn, [t.array(*p.T2.shape)], [F, I, p.T2], case,
                       counter)
        return

    # sums of kernels at unit scale
    def total(start, names):
        out = [start.copy()]
        for name in sorted(names):
            fn = find(name)
            if fn is None:
                return None
            rest = args(TERMS.get(name) or MODELS[name])
            if not takes(fn, out + rest, counter):
                return None
            call(name, fn, *(out + rest), fac=1.0)
        return out[0]

    def compare(what, x, want, whole):
        if x is None:
            return
        if not agrees(x, want) and agrees(whole, want):
            counter.label("restructured-" + what)
            return
        same("sum of the %s kernels" % what, x, want)

    E, R1, R2 = oracle.ccsd(p)
    whole = call("ccsd_simple", eq.ccsd_simple, F, I, p.T1, p.T2)
    compare("singles", total(F.vo, SINGLES), R1, whole[0])
    compare("doubles", total(I.vvoo, DOUBLES), R2, whole[1])
    if p.no + p.nv <= 8:
        G1, G2 = oracle.cc(p).lagrangian_gradient(p.L1, p.L2)
        whole = call("ccsd_lambda_simple", eq.ccsd_lambda_simple, F, I, p.L1, p.L2, p.T1, p.T2)
        compare("Lambda singles", total(F.ov, LSINGLES), G1, whole[0])
        compare("Lambda doubles", total(I.oovv, LDOUBLES), G2, whole[1])
    x = total(I.vvoo, ["_D_D_ladder", "_D_DD_ladder"])
    if x is not None:
        same("sum of the ladder kernels", x,
             call("ccd_ladder", eq.ccd_ladder_simple, I, p.T2))
    # the ladder Lambda kernels are the gradient of the ladder terms
    o, v = slice(0, p.no), slice(p.no, None)
    if find("_LD_LD_ladder") is not None and find("_LD_LDTD_ladder") is not None:
        ein = ccref.ein
        want = 0.5*ein('ijcd,cdab->ijab', p.L2, p.I[v, v, v, v]) \
            + 0.5*ein('klab,ijkl->ijab', p.L2, p.I[o, o, o, o]) \
            + 0.25*ein('klab,cdkl,ijcd->ijab', p.L2, p.T2, p.I[o, o, v, v]) \
            + 0.25*ein('ijcd,cdkl,klab->ijab', p.L2, p.T2, p.I[o, o, v, v])
        x = total(0*p.L2, ["_LD_LD_ladder", "_LD_LDTD_ladder"])
        if x is not None:
            same("sum of the ladder Lambda kernels", x, want)
