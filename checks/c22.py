"""C22: molecular integral transformations against a dense four-index transformation."""
import numpy
from vlib.engine import call
from vlib.cmp import at_scale, true
from vlib import meanfield as mfl, gen

ID = "C22"
RULE = "the four column counts of one spin are not all equal and none is zero"
ASSUMPTIONS = [
    "atomic-orbital integrals have the eightfold symmetry of real basis functions; they are "
    "generated arrays or those of a small molecule",
    "complex coefficients only with generated integrals (pyscf rejects them otherwise)"]
BUDGET = {"quick": (300, 120), "thorough": (5000, 500)}


def generate(d):
    src = d.choice(["array"]*8 + ["H2", "H3", "HeH"])
    case = {"src": src, "nao": d.choice([2, 3, 1, 4])}
    hi = 4
    if d.flag(0.04):
        # beyond the block sizes a blocked implementation might use
        src, hi = "array", 9
        case["src"], case["nao"] = src, d.choice([7, 10, 17])
    zero = d.flag(0.1) and src == "array"
    case["na"] = [d.integer(0 if zero else 1, hi) for _ in range(4)]
    case["nb"] = [d.integer(0 if zero else 1, hi) for _ in range(4)]
    case["dtype"] = d.choice(["real", "complex", "mixed"]) if src == "array" else "real"
    case["kind"] = d.choice(["int", "uniform"])
    # which positions hold one and the same coefficient array
    case["tie"] = d.weighted([("", 3.0), ("bra", 1.0), ("ends", 1.0), ("cross", 1.0),
                              ("spin", 1.0)])
    # orbital coefficients of any magnitude; results are compared at the same scale
    case["power"] = d.weighted([(0, 6.0), (-4, 1.0), (-8, 1.0), (-12, 1.0), (-30, 1.0), (16, 1.0)])
    case["near"] = d.flag(0.3)    # ... or arrays that differ only slightly
    case["plain"] = d.flag(0.5)    # leave out arguments that have a default
    case["seed"] = d.seed()
    return case


def nontrivial(case):
    return len(set(case["na"])) > 1 and min(case["na"] + case["nb"]) > 0


def phys(x):
    return x.transpose((0, 2, 1, 3))


def swap(c):
    return (c[0], c[2], c[1], c[3])


def execute(case, counter):
    from cqcpy import integrals as ig
    t = gen.Tensors(case["seed"], case["kind"], case["dtype"])
    counter.label(case["src"])
    same = at_scale(4*case["power"])
    if case["src"] == "array":
        nao = case["nao"]
        mol = eri = mfl.random_eri(t.rng, nao, case["kind"])
    else:
        mol, eri = mfl.mole(case["src"])
        nao = eri.shape[0]

    def tr(*cs):
        return mfl.transform(eri, *cs)

    def coeff(k):
        if case["dtype"] == "mixed":
            t.complex = bool(t.rng.integers(2))
        return t.array(nao, k)*2.0**case["power"]
    o = [coeff(k) for k in case["na"]]
    p = [coeff(k) for k in case["nb"]]

    def again(x):
        return x + 1e-6*2.0**case["power"]*t.array(*x.shape) if case["near"] else x
    which = t.rng.integers(3)    # alpha, beta or both
    for x in ([o], [p], [o, p])[which]:
        if case["tie"] == "bra":
            x[2], x[3] = again(x[0]), again(x[1])
        if case["tie"] == "ends":
            x[1], x[3] = again(x[0]), again(x[2])
        if case["tie"] == "cross":
            x[2], x[3] = again(x[1]), again(x[0])
    if case["tie"] == "spin":
        for k in range(4):
            if t.rng.integers(3):
                p[k] = again(o[k])
    for anti in (False, True):
        kw = {} if case["plain"] and not anti else {"anti": anti}
        w = mfl.chem(tr, *o, anti=anti)
        same("get_chem anti=%s" % anti, call("get_chem", ig.get_chem, mol, *o, **kw), w)
        wp = phys(mfl.chem(tr, *swap(o), anti=anti))
        same("get_phys anti=%s" % anti, call("get_phys", ig.get_phys, mol, *o, **kw), wp)
        u = mfl.spin_chem(tr, o, p, anti=anti)
        same("get_chemu anti=%s" % anti,
             call("get_chemu", ig.get_chemu, mol, *(o + p), **kw), u)
        a, b = [o[0]]*4, [p[0]]*4
        ua = mfl.spin_chem(tr, a, b, anti=anti)
        same("get_chemu_all anti=%s" % anti,
             call("get_chemu_all", ig.get_chemu_all, mol, o[0], p[0], **kw), ua)
        same("get_physu_all anti=%s" % anti,
             call("get_physu_all", ig.get_physu_all, mol, o[0], p[0], **kw), phys(ua))
        if anti:
            same("get_chem_anti", call("get_chem_anti", ig.get_chem_anti, mol, *o), w)
            same("get_phys_anti", call("get_phys_anti", ig.get_phys_anti, mol, *o), wp)
            same("get_chem_antiu", call("get_chem_antiu", ig.get_chem_antiu, mol, *(o + p)), u)
            same("get_chem_antiu_all",
                 call("get_chem_antiu_all", ig.get_chem_antiu_all, mol, o[0], p[0]), ua)
            same("get_phys_antiu_all",
                 call("get_phys_antiu_all", ig.get_phys_antiu_all, mol, o[0], p[0]), phys(ua))
            up = phys(mfl.spin_chem(tr, swap(o), swap(p), anti=True))
            got = call("get_phys_antiu", ig.get_phys_antiu, mol, *(o + p))
            same("get_phys_antiu", got, up)
            # spin-forbidden elements are exactly zero
            spins = [[0]*x.shape[1] + [1]*y.shape[1] for x, y in zip(o, p)]
            s = numpy.ix_(*[numpy.array(x, dtype=int) for x in spins])
            bad = (s[0] + s[1]) != (s[2] + s[3])
            true("spin-forbidden element not zero", not got[numpy.broadcast_to(
                bad, got.shape)].any())
            # separate orbitals per index and one set per spin agree
            same("per-index against per-spin function",
                 call("get_phys_antiu", ig.get_phys_antiu, mol, *(a + b)), phys(ua))
