"""C23: integrals of generated mean-field objects against a dense transformation."""
import numpy
from vlib.engine import call
from vlib.cmp import at_scale, true
from vlib import meanfield as mfl, gen

ID = "C23"
RULE = "some occupied orbital comes after an empty one, or the spins have different " \
       "occupations; at least one occupied and one virtual orbital"
ASSUMPTIONS = [
    "occupations are zero or positive and up to 2 (restricted) or 1 (unrestricted)",
    "orbital coefficients need not solve any mean-field equation",
    "periodic objects carry generated density-fitting integrals"]
BUDGET = {"quick": (250, 120), "thorough": (4000, 500)}
NINE = gen.NINE
CODES = {1: "vvvv", 2: "vvvo", 3: "vovv", 4: "vvoo", 5: "vovo", 6: "oovv", 7: "vooo",
         8: "ooov", 9: "oooo"}


def generate(d):
    case = {"pbc": d.flag(0.5), "u": d.flag(0.5), "mol": d.choice(["H2", "H3", "HeH", "H4"]),
            "nao": d.choice([2, 3, 4]), "drop": d.choice([0, 0, 1, 2]),
            "code": d.choice([0, 4, 1, 2, 3, 5, 6, 7, 8, 9]),
            "dtype": d.choice(["real", "complex"]), "tuple": d.flag(0.3)}
    if d.flag(0.05):
        case["nao"], case["mol"] = d.choice([7, 10]), "H6"
    n = 10
    case["occa"] = [int(d.flag()) for _ in range(n)]
    case["occb"] = [int(d.flag()) for _ in range(n)]
    # any positive occupation makes an orbital occupied
    case["fraction"] = [d.choice([1.0, 0.5, 0.05, 1e-6]) for _ in range(2*n)] \
        if d.flag(0.3) else []
    # both spins in the same orbitals, or in orbitals that differ only slightly
    case["tie"] = d.weighted([("", 3.0), ("same", 1.0), ("near", 1.0)])
    # orbital coefficients of any magnitude; results are compared at the same scale
    case["power"] = d.weighted([(0, 6.0), (-4, 1.0), (-8, 1.0), (-12, 1.0), (-30, 1.0), (16, 1.0)])
    case["plain"] = d.flag(0.5)    # leave out arguments that have a default
    case["seed"] = d.seed()
    return case


def nontrivial(case):
    nao = case["nao"]
    a, b = case["occa"][:nao], case["occb"][:nao]
    ok = 0 < sum(a) < nao
    return ok and (a != sorted(a, reverse=True) or (case["u"] and a != b))


def build(case):
    """(mean field, transformation, alpha coefficients, beta coefficients, occupations)"""
    from pyscf import scf
    t = gen.Tensors(case["seed"], dtype=case["dtype"] if case["pbc"] else "real")
    if case["pbc"]:
        from pyscf.pbc import scf as pscf
        cell = mfl.cell()
        kpt = numpy.zeros(3) if case["dtype"] == "real" else numpy.array([0.1, -0.2, 0.3])
        nao = case["nao"]
        mf = (pscf.UHF if case["u"] else pscf.RHF)(cell, kpt=kpt)
        df = mfl.FakeDF([kpt], nao, t.rng, real=case["dtype"] == "real")
        mf.with_df = df

        def tr(*cs):
            return df.integrals((0, 0, 0, 0), cs)
    else:
        mol, eri = mfl.mole(case["mol"])
        nao = eri.shape[0]
        mf = (scf.UHF if case["u"] else scf.RHF)(mol)

        def tr(*cs):
            return mfl.transform(eri, *cs)
    nmo = max(2, nao - case["drop"])    # fewer orbitals than functions, as after a cutoff
    pad = [1, 0]*nao
    occa = numpy.array((case["occa"] + pad)[:nmo])
    occb = numpy.array((case["occb"] + pad)[:nmo])
    t.scale = 2.0**case["power"]
    ca, cb = t.array(nao, nmo), t.array(nao, nmo)
    if case["tie"]:
        cb = ca if case["tie"] == "same" else ca + 1e-6*cb
    if case["u"]:
        mf.mo_coeff = (ca, cb) if case["tuple"] else numpy.array([ca, cb])
        mf.mo_occ = numpy.array([occa, occb], dtype=float)
        if case["fraction"]:
            mf.mo_occ *= numpy.array(case["fraction"]).reshape(2, -1)[:, :nmo]
    else:
        cb, occb = ca, occa
        mf.mo_coeff = ca
        mf.mo_occ = 2.0*occa
        if case["fraction"]:
            mf.mo_occ *= numpy.array(case["fraction"])[:nmo]
    return mf, tr, ca, cb, occa, occb


def execute(case, counter):
    from cqcpy import integrals as ig
    mf, tr, ca, cb, occa, occb = build(case)
    same = at_scale(4*case["power"])
    counter.label("%s-%s" % ("pbc" if case["pbc"] else "mol", "u" if case["u"] else "r"))
    if 0 < occa.sum() < len(occa) and 0 < occb.sum() < len(occb) or case["pbc"]:
        sets = {"o": (ca[:, occa > 0], cb[:, occb > 0]),
                "v": (ca[:, occa == 0], cb[:, occb == 0])}
        code = case["code"]
        eri = call("eri_blocks", ig.eri_blocks, mf,
                   **({} if case["plain"] and code == 0 else {"code": code}))
        wanted = NINE if code == 0 else [CODES[code]]
        for k in NINE:
            flag = getattr(eri, "has_" + k)
            true("code %d: has_%s is %s" % (code, k, flag), bool(flag) == (k in wanted))
            if k not in wanted:
                true("code %d stores %s" % (code, k), getattr(eri, k, None) is None)
                continue
            kk = (k[0], k[2], k[1], k[3])
            a = [sets[c][0] for c in kk]
            b = [sets[c][1] for c in kk]
            want = mfl.spin_chem(tr, a, b, anti=True).transpose((0, 2, 1, 3))
            same("block %s" % k, getattr(eri, k), want)
    else:
        counter.label("empty-space-skipped")
    for anti in (False, True):
        kw = {} if case["plain"] and not anti else {"anti": anti}
        want = mfl.spin_chem(tr, [ca]*4, [cb]*4, anti=anti).transpose((0, 2, 1, 3))
        same("get_physu_all_gen anti=%s" % anti,
             call("get_physu_all_gen", ig.get_physu_all_gen, mf, **kw), want)
        if anti:
            same("get_phys_antiu_all_gen",
                 call("get_phys_antiu_all_gen", ig.get_phys_antiu_all_gen, mf), want)
        cs = [ca[:, :1], ca[:, 1:], cb, ca[:, :2]]
        want = mfl.chem(tr, cs[0], cs[2], cs[1], cs[3], anti=anti).transpose((0, 2, 1, 3))
        got = call("get_phys_gen", ig.get_phys_gen, mf, *cs, **kw)
        same("get_phys_gen anti=%s" % anti, got, want)
        if case["pbc"]:
            other = call("get_phys_sol", ig.get_phys_sol, mf, *cs, **kw)
        else:
            other = call("get_phys", ig.get_phys, mf.mol, *cs, **kw)
        same("generic against specific function", got, other)
