"""C24: periodic and k-point integrals against dense transformations of generated ones."""
import numpy
from vlib.engine import call
from vlib.cmp import at_scale, true
from vlib import meanfield as mfl, gen

ID = "C24"
RULE = "more than one k-point, or different column counts at a single k-point"
ASSUMPTIONS = [
    "the density-fitting object is generated: B[k2,k1] = B[k1,k2]^dagger, so (pq|rs) = (rs|pq) "
    "and (pq|rs)* = (qp|sr) hold",
    "momentum conservation k1 - k2 + k3 - k4 = 0 modulo reciprocal lattice vectors is decided "
    "here from the scaled k-points"]
BUDGET = {"quick": (800, 90), "thorough": (4000, 500)}
MESHES = [[1, 1, 2], [1, 1, 1], [1, 1, 3], [1, 2, 2], [3, 1, 1], [2, 1, 3], [2, 2, 2], [1, 1, 4],
          [2, 2, 1], [1, 6, 1]]


def generate(d):
    case = {"what": d.choice(["solk", "sol", "full"]),
            "nao": 7 if d.flag(0.05) else d.choice([2, 1, 3]),
            "na": [d.integer(1, 3) for _ in range(4)],
            "nb": [d.integer(1, 3) for _ in range(4)],
            "mesh": d.spread("mesh", MESHES), "nq": d.integer(1, 6),
            "real": d.flag(0.3), "mixed": d.flag(0.4), "order": d.choice(["chem", "phys", "c", "Phys", "P"]),
            "tie": d.weighted([("", 3.0), ("same", 1.0), ("near", 1.0)]), "seed": d.seed()}
    # orbital coefficients of any magnitude; results are compared at the same scale
    case["power"] = d.weighted([(0, 6.0), (-4, 1.0), (-8, 1.0), (-12, 1.0), (-30, 1.0), (16, 1.0)])
    case["plain"] = d.flag(0.5)    # leave out arguments that have a default
    if case["what"] == "full" and int(numpy.prod(case["mesh"])) > 4:
        case["mesh"] = [1, 1, 3]
    return case


def nontrivial(case):
    if case["what"] == "sol":
        return len(set(case["na"])) > 1
    return int(numpy.prod(case["mesh"])) > 1


def conserved(scaled, k1, k2, k3, k4):
    x = scaled[k1] - scaled[k2] + scaled[k3] - scaled[k4]
    return bool(numpy.all(numpy.abs(x - numpy.round(x)) < 1e-6))


def refused(fn, *args, **kw):
    try:
        fn(*args, **kw)
    except Exception:
        return True
    return False


def execute(case, counter):
    from cqcpy import integrals as ig
    from pyscf.pbc import scf as pscf
    counter.label(case["what"])
    one, same = at_scale(3*case["power"]), at_scale(4*case["power"])
    cell = mfl.cell()
    nao = case["nao"]
    t = gen.Tensors(case["seed"], dtype="complex")
    if case["what"] == "sol":
        real = case["real"]
        kpt = numpy.zeros(3) if real else numpy.array([0.1, 0.2, -0.3])
        mf = pscf.RHF(cell, kpt=kpt)
        df = mf.with_df = mfl.FakeDF([kpt], nao, t.rng, real=real)
        t.complex = not real
        t.scale = 2.0**case["power"]

        def coeff(k):
            if case["mixed"]:
                t.complex = bool(t.rng.integers(2))
            return t.array(nao, k)
        o = [coeff(k) for k in case["na"]]
        p = [coeff(k) for k in case["nb"]]

        if case["tie"]:
            # positions or spins that hold one array, or nearly the same one
            for x in range(4):
                y = o[int(t.rng.integers(4))]
                p[x] = y if case["tie"] == "same" else y + 1e-6*t.array(*y.shape)
            if t.rng.integers(2):
                o[2], o[3] = p[0], p[1]

        def tr(*cs):
            return df.integrals((0,)*4, cs)
        ph = (0, 2, 1, 3)
        for anti in (False, True):
            kw = {} if case["plain"] and not anti else {"anti": anti}
            same("get_chem_sol anti=%s" % anti,
                 call("get_chem_sol", ig.get_chem_sol, mf, *o, **kw),
                 mfl.chem(tr, *o, anti=anti))
            same("get_phys_sol anti=%s" % anti,
                 call("get_phys_sol", ig.get_phys_sol, mf, *o, **kw),
                 mfl.chem(tr, *[o[k] for k in ph], anti=anti).transpose(ph))
            u = mfl.spin_chem(tr, o, p, anti=anti)
            same("get_chemu_sol anti=%s" % anti,
                 call("get_chemu_sol", ig.get_chemu_sol, mf, *(o + p), **kw), u)
            ua = mfl.spin_chem(tr, [o[0]]*4, [p[0]]*4, anti=anti)
            same("get_chemu_all_sol anti=%s" % anti,
                 call("get_chemu_all_sol", ig.get_chemu_all_sol, mf, o[0], p[0], **kw), ua)
            same("get_physu_all_sol anti=%s" % anti,
                 call("get_physu_all_sol", ig.get_physu_all_sol, mf, o[0], p[0], **kw),
                 ua.transpose(ph))
        same("get_chem_antiu_sol",
             call("get_chem_antiu_sol", ig.get_chem_antiu_sol, mf, *(o + p)), u)
        up = mfl.spin_chem(tr, [o[k] for k in ph], [p[k] for k in ph], anti=True)
        same("get_phys_antiu_sol",
             call("get_phys_antiu_sol", ig.get_phys_antiu_sol, mf, *(o + p)), up.transpose(ph))
        return

    kpts = cell.make_kpts(case["mesh"])
    nk = len(kpts)
    scaled = numpy.asarray(cell.get_scaled_kpts(kpts))
    kmf = pscf.KRHF(cell, kpts=kpts)
    df = kmf.with_df = mfl.FakeDF(kpts, nao, t.rng, real=case["real"])
    t.complex = not case["real"]
    t.scale = 2.0**case["power"]
    counter.label("mesh-%d%d%d" % tuple(case["mesh"]))
    if case["what"] == "solk":
        for _ in range(case["nq"]):
            ks = [int(x) for x in t.rng.integers(0, nk, 4)]
            if t.rng.random() < 0.7:
                ks[3] = [k for k in range(nk) if conserved(scaled, ks[0], ks[1], ks[2], k)][0]
            o = [t.array(nao, k) for k in case["na"]]
            if case["tie"]:
                for x in range(1, 4):
                    if t.rng.random() < 0.6:
                        y = o[int(t.rng.integers(x))]
                        o[x] = y if case["tie"] == "same" else y + 1e-6*t.array(*y.shape)
            if case["mixed"]:
                x = int(t.rng.integers(4))
                o[x] = o[x] + 1j*t.array(*o[x].shape)
            for anti in (False, True):
                kw = {} if case["plain"] and not anti else {"anti": anti}
                if conserved(scaled, *ks):
                    counter.label("conserving")
                    want = df.integrals(ks, o)
                    if anti:
                        k2 = [ks[0], ks[3], ks[2], ks[1]]
                        want = want - df.integrals(
                            k2, [o[0], o[3], o[2], o[1]]).transpose((0, 3, 2, 1))
                else:
                    counter.label("violating")
                    want = numpy.zeros([c.shape[1] for c in o], dtype=complex)
                same("get_chem_solk %s anti=%s" % (ks, anti),
                     call("get_chem_solk", ig.get_chem_solk, kmf, tuple(ks), *o, **kw),
                     want)
                # the same integral addressed in physicist's order
                ph = (0, 2, 1, 3)
                got = call("get_phys_solk", ig.get_phys_solk, kmf,
                           tuple(ks[k] for k in ph), *[o[k] for k in ph], **kw)
                same("get_phys_solk %s anti=%s" % (ks, anti), got, want.transpose(ph))
        return

    nmo = max(1, nao - int(case["na"][0] == 1)) if nao > 1 else 1
    kmf.mo_coeff = [t.array(nao, nmo) for _ in range(nk)]
    kmf.mo_occ = [numpy.array([2.0] + [0.0]*(nmo - 1)) for _ in range(nk)]
    hc = [t.array(nao, nao) for _ in range(nk)]
    hc = numpy.array([x + x.conj().T for x in hc])
    kmf.get_hcore = lambda *a, **k: hc
    h1, h2 = call("get_solk_integrals", ig.get_solk_integrals, kmf,
                  **({} if case["plain"] and case["order"] == "chem"
                     else {"eriorder": case["order"]}))
    other = (pscf.KUHF if case["na"][1] == 1 else pscf.KGHF)(cell, kpts=kpts)
    other.with_df, other.get_hcore = df, kmf.get_hcore
    other.mo_coeff, other.mo_occ = kmf.mo_coeff, kmf.mo_occ
    true("mean field that is not restricted accepted",
         refused(ig.get_solk_integrals, other, eriorder=case["order"]))
    if nk > 1 and nmo > 1:
        uneven = pscf.KRHF(cell, kpts=kpts)
        uneven.with_df, uneven.get_hcore = df, kmf.get_hcore
        uneven.mo_occ = kmf.mo_occ
        uneven.mo_coeff = kmf.mo_coeff[:-1] + [kmf.mo_coeff[-1][:, :-1]]
        true("different numbers of orbitals per k-point accepted",
             refused(ig.get_solk_integrals, uneven, eriorder=case["order"]))
    mo = kmf.mo_coeff
    one("one-electron integrals", h1, numpy.array(
        [mo[k].conj().T.dot(hc[k]).dot(mo[k]) for k in range(nk)]))
    true("two-electron shape %s" % (h2.shape,), h2.shape == (nk,)*3 + (nmo,)*4)
    chem = case["order"][0].lower() == "c"
    for p in range(nk):
        for q in range(nk):
            for r in range(nk):
                if chem:
                    s = [k for k in range(nk) if conserved(scaled, p, q, r, k)]
                    want = df.integrals((p, q, r, s[0]), [mo[p], mo[q], mo[r], mo[s[0]]])
                else:
                    s = [k for k in range(nk) if conserved(scaled, p, r, q, k)]
                    want = df.integrals((p, r, q, s[0]), [mo[p], mo[r], mo[q], mo[s[0]]])
                    want = want.transpose((0, 2, 1, 3))
                same("two-electron integrals at k-points %d,%d,%d" % (p, q, r),
                     h2[p, q, r], want)
