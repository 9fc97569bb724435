"""Every public function of the library with generated arguments, and argument trees."""
import copy
import numpy
from . import gen, problem, det, fock, meanfield as mfl

GROUPS = ["so", "u", "r", "spin", "blocks", "ci", "civec", "ft", "mol", "mf", "sol", "kpt"]


# ------------------------------------------------------------------ trees of arguments
def is_box(x):
    """An object of the library (or of the fakes here) that carries data."""
    m = getattr(type(x), "__module__", "")
    return (m or "").split(".")[0] == "cqcpy" and hasattr(x, "__dict__")


def is_meanfield(x):
    return hasattr(x, "mo_coeff") and hasattr(x, "mo_occ")


MF_FIELDS = ("mo_coeff", "mo_occ", "kpt", "kpts")


def read(x, k):
    """An attribute that may be a property without a value here."""
    try:
        return getattr(x, k)
    except Exception:
        return None


def map_tree(fn, x):
    """Copy of a tree with fn applied to every array."""
    if isinstance(x, numpy.ndarray):
        return fn(x)
    if isinstance(x, tuple):
        return tuple(map_tree(fn, y) for y in x)
    if isinstance(x, list):
        return [map_tree(fn, y) for y in x]
    if isinstance(x, dict):
        return {k: map_tree(fn, v) for k, v in x.items()}
    if is_box(x):
        y = copy.copy(x)
        for k, v in vars(x).items():
            setattr(y, k, map_tree(fn, v))
        return y
    return x


def tie(x, rng, rate, level, pool):
    """Copy of a tree in which arrays or containers of equal shape may be one object.

    level "arrays" ties single arrays, "boxes" whole containers of the library."""
    if isinstance(x, numpy.ndarray):
        if level != "arrays" or x.dtype.kind not in "fc":    # occupations stay as they are
            return x
        key = (x.shape, x.dtype.str)
        if key in pool and rng.random() < rate:
            return pool[key]
        pool[key] = x
        return x
    if isinstance(x, tuple):
        return tuple(tie(y, rng, rate, level, pool) for y in x)
    if isinstance(x, list):
        return [tie(y, rng, rate, level, pool) for y in x]
    if is_box(x):
        v = vars(x)
        if level == "boxes" and v and all(isinstance(y, numpy.ndarray) for y in v.values()):
            key = (type(x), tuple(sorted((k, y.shape, y.dtype.str) for k, y in v.items())))
            if key in pool and rng.random() < rate:
                return pool[key]
            pool[key] = x
            return x
        y = copy.copy(x)
        for k, z in v.items():
            setattr(y, k, tie(z, rng, rate, level, pool))
        return y
    return x


def freeze(x):
    """Independent description of everything reachable in a tree."""
    if isinstance(x, numpy.ndarray):
        return ("array", x.shape, x.dtype.str, x.copy())
    if isinstance(x, (tuple, list)):
        return (type(x).__name__, [freeze(y) for y in x])
    if isinstance(x, dict):
        return ("dict", {k: freeze(v) for k, v in x.items()})
    if is_box(x):
        return ("box", {k: freeze(v) for k, v in vars(x).items()})
    if is_meanfield(x):
        return ("meanfield", {k: freeze(read(x, k)) for k in MF_FIELDS})
    if isinstance(x, (int, float, complex, str, bool, type(None), numpy.generic)):
        return ("value", x)
    return ("opaque", None)


def changed(a, b, path="argument"):
    """Where two frozen trees differ, or None."""
    if a[0] != b[0]:
        return "%s: %s became %s" % (path, a[0], b[0])
    if a[0] == "array":
        if a[1:3] != b[1:3]:
            return "%s: %s%s became %s%s" % (path, a[2], a[1], b[2], b[1])
        if not numpy.array_equal(a[3], b[3], equal_nan=a[3].dtype.kind in "fc"):
            return "%s: contents changed" % path
        return None
    if a[0] in ("dict", "box", "meanfield"):
        if set(a[1]) != {k for k in b[1] if k in a[1] or not k.startswith("_")}:
            return "%s: attributes changed" % path
        for k in a[1]:
            r = changed(a[1][k], b[1][k], "%s.%s" % (path, k))
            if r:
                return r
        return None
    if a[0] in ("tuple", "list"):
        if len(a[1]) != len(b[1]):
            return "%s: length changed" % path
        for k, (x, y) in enumerate(zip(a[1], b[1])):
            r = changed(x, y, "%s[%d]" % (path, k))
            if r:
                return r
        return None
    if a[0] == "value" and a[1] != b[1]:
        return "%s: %r became %r" % (path, a[1], b[1])
    return None


def flat(x, path="result"):
    """List of (path, array) of a result tree."""
    if isinstance(x, numpy.ndarray):
        return [(path, x)]
    if isinstance(x, (tuple, list)):
        out = [(path + ".len", numpy.array(len(x)))]
        for k, y in enumerate(x):
            out += flat(y, "%s[%d]" % (path, k))
        return out
    if is_box(x):
        out = []
        for k in sorted(vars(x)):
            out += flat(vars(x)[k], "%s.%s" % (path, k))
        return out
    if isinstance(x, (int, float, complex, bool, numpy.generic)):
        return [(path, numpy.asarray(x))]
    if x is None:
        return [(path + ".none", numpy.array(0))]
    return []


# ------------------------------------------------------------------------- the functions
def _so(case, t):
    no, nv = case["no"], case["nv"]
    n = no + nv
    return so_functions(problem.SO(
        no, nv, t.array(n, n), t.anti(n), t.array(nv, no), t.T2(no, nv), t.array(no, nv),
        t.L2(no, nv)))


def so_functions(p):
    from cqcpy import cc_equations as eq, cc_energy as en
    F, I = p.Fb(), p.Ib()
    T, L = (p.T1, p.T2), (p.L1, p.L2)
    out = []

    def add(mod, name, *a, **k):
        out.append((name, getattr(mod, name), a, k))
    for n in ("ccsd_simple", "ccsd_stanton", "lccsd_simple"):
        add(eq, n, F, I, *T)
    for n in ("ccd_simple", "ccd_stanton", "lccd_simple"):
        add(eq, n, F, I, p.T2)
    for n in ("ccd_ladder_simple", "ccd_ring_simple"):
        add(eq, n, I, p.T2)
    for n in ("ccsd_lambda_simple", "ccsd_lambda_opt", "ccsd_lambda_stanton"):
        add(eq, n, F, I, *(L + T))
    add(eq, "lambda_int", F, I, *T)

    def via_int(F, I, L1, L2, T1, T2):
        return eq.ccsd_lambda_opt_int(F, I, L1, L2, T1, T2, eq.lambda_int(F, I, T1, T2))
    out.append(("ccsd_lambda_opt_int", via_int, (F, I) + L + T, {}))
    add(eq, "ccd_lambda_simple", F, I, p.L2, p.T2)
    for n in ("cc_energy", "mp2_energy"):
        add(en, n, p.T1, p.T2, F.ov, I.oovv)
    add(en, "cc_energy_d", p.T2, I.oovv)
    add(en, "cc_energy_s1", p.T1, F.ov)
    add(en, "cc_energy_s2", p.T1, I.oovv)
    add(en, "cc_energy_s2_a", p.T1, 0.5*p.T1, I.oovv)
    for n in ("1rdm_ba", "1rdm_ji", "1rdm_ai", "1rdm_ai_opt", "2rdm_cdab", "2rdm_ciab",
              "2rdm_bcai", "2rdm_bjai", "2rdm_abij", "2rdm_jkai", "2rdm_kaij", "2rdm_klij",
              "2rdm_cdab_opt", "2rdm_bcai_opt", "2rdm_bjai_opt", "2rdm_abij_opt",
              "2rdm_kaij_opt", "2rdm_klij_opt"):
        add(eq, "ccsd_" + n, *(T + L))
    return out


def _u(case, t):
    noa, nva, nob, nvb = size = case["size"]
    na, nb = noa + nva, nob + nvb
    p = problem.U(size, t.array(na, na), t.array(nb, nb), t.anti(na), t.anti(nb),
                  t.array(na, nb, na, nb), (t.array(nva, noa), t.array(nvb, nob)),
                  (t.T2(noa, nva), t.array(nva, nvb, noa, nob), t.T2(nob, nvb)),
                  (t.array(noa, nva), t.array(nob, nvb)),
                  (t.L2(noa, nva), t.array(noa, nob, nva, nvb), t.L2(nob, nvb)))
    return u_functions(p)


def u_functions(p):
    from cqcpy import cc_equations as eq, cc_energy as en
    b = p.blocks()
    Fa, Fb, Ia, Ib, Iab = b
    e = (p.T1, p.T2, Fa.ov, Fb.ov, Ia.oovv, Ib.oovv, Iab.oovv)
    out = [("ucc_energy", en.ucc_energy, e, {}), ("ump2_energy", en.ump2_energy, e, {}),
           ("uccsd_stanton", eq.uccsd_stanton, b + (p.T1, p.T2), {}),
           ("uccsd_lambda_opt", eq.uccsd_lambda_opt, b + (p.L1, p.L2, p.T1, p.T2), {})]
    for n in ("1rdm_ba", "1rdm_ji", "1rdm_ai", "2rdm_ciab", "2rdm_jkai", "2rdm_cdab",
              "2rdm_bjai", "2rdm_klij", "2rdm_bcai", "2rdm_kaij", "2rdm_abij"):
        out.append(("uccsd_" + n, getattr(eq, "uccsd_" + n), p.amps(), {}))
    return out


def _r(case, t):
    no, nv = case["no"], case["nv"]
    n = no + nv
    p = problem.R(no, nv, t.array(n, n), t.pair(n, n, n, n), t.array(nv, no),
                  t.pair(nv, nv, no, no), t.array(no, nv), t.pair(no, no, nv, nv))
    return r_functions(p)


def r_functions(p):
    from cqcpy import cc_equations as eq, cc_energy as en
    F, I = p.blocks()
    T, L = (p.T1, p.T2), (p.L1, p.L2)
    out = [("rcc_energy", en.rcc_energy, T + (F.ov, I.oovv), {}),
           ("rccsd_stanton", eq.rccsd_stanton, (F, I) + T, {}),
           ("rccsd_lambda_opt", eq.rccsd_lambda_opt, (F, I) + L + T, {})]
    for n in ("1rdm_ba", "1rdm_ji", "1rdm_ai", "2rdm_ciab", "2rdm_jkai", "2rdm_cdab",
              "2rdm_bjai", "2rdm_bjia", "2rdm_klij", "2rdm_bcai", "2rdm_kaij", "2rdm_abij"):
        out.append(("rccsd_" + n, getattr(eq, "rccsd_" + n), T + L, {}))
    return out


def _spin(case, t):
    from cqcpy import spin_utils as sp
    noa, nva, nob, nvb = size = tuple(case["size"])
    na, nb = noa + nva, nob + nvb
    no, nv = noa + nob, nva + nvb
    Fa, Fb = gen.f_blocks(t.array(na, na), noa), gen.f_blocks(t.array(nb, nb), nob)
    full = [gen.i_blocks_full(t.array(na, na, na, na), (noa,)*4),
            gen.i_blocks_full(t.array(nb, nb, nb, nb), (nob,)*4),
            gen.i_blocks_full(t.array(na, nb, na, nb), (noa, nob, noa, nob))]
    so = gen.i_blocks(t.anti(no + nv), no)
    T2 = (t.T2(noa, nva), t.array(nva, nvb, noa, nob), t.T2(nob, nvb))
    T1 = (t.array(nva, noa), t.array(nvb, nob))
    A, B = (noa, nva, noa, nva), (nob, nvb, nob, nvb)
    six = [t.array(*s) for s in (A, B, (noa, nvb, noa, nvb), (nob, nva, nob, nva),
                                 (noa, nvb, nob, nva), (nob, nva, noa, nvb))]
    return [
        ("F_to_spin", sp.F_to_spin, (Fa, Fb) + size, {}),
        ("F_to_spatial", sp.F_to_spatial, (gen.f_blocks(t.array(no + nv, no + nv), no),)
         + size, {}),
        ("T1_to_spin", sp.T1_to_spin, T1 + size, {}),
        ("T1_to_spatial", sp.T1_to_spatial, (t.array(nv, no),) + size, {}),
        ("T2_to_spin", sp.T2_to_spin, T2 + size, {}),
        ("D2_to_spin", sp.D2_to_spin, T2 + size, {}),
        ("T2_to_spatial", sp.T2_to_spatial, (t.T2(no, nv),) + size, {}),
        ("int_to_spin_block", sp.int_to_spin_block, tuple(six) + A + B, {}),
        ("int_to_spin", sp.int_to_spin, tuple(full) + size, {}),
        ("int_to_spin2", sp.int_to_spin2, tuple(full) + size, {}),
        ("int_to_spatial", sp.int_to_spatial, (so, noa, nob, nva, nvb), {})]


def _blocks(case, t):
    from cqcpy import ov_blocks as ob, utils as ut
    noa, nva, nob, nvb = case["size"]
    sizes = (noa, nva, nob, nvb, nob, nva, noa, nvb)
    dims = [sizes[2*k] + sizes[2*k + 1] for k in range(4)]
    return [
        ("make_two_e_blocks", ob.make_two_e_blocks, (t.array(*dims),) + sizes, {}),
        ("make_two_e_blocks_full", ob.make_two_e_blocks_full, (t.array(*dims),) + sizes, {}),
        ("block_diag", ut.block_diag, (t.array(noa, nva), t.array(nob, nvb)), {}),
        ("D1", ut.D1, (t.array(nva), t.array(noa)), {}),
        ("D2", ut.D2, (t.array(nva), t.array(noa)), {}),
        ("D2u", ut.D2u, (t.array(nva), t.array(nvb), t.array(noa), t.array(nob)), {})]


def _ci(case, t):
    """Amplitudes to CI vectors."""
    from cqcpy import ci_utils as ci
    m = case["m"]
    noa, nob = case["noa"], case["nob"]
    nva, nvb = m - noa, m - nob
    no, nv = noa + nob, nva + nvb
    na, nb = no - no//2, no//2
    occ = [1]*na + [0]*(m - na) + [1]*nb + [0]*(m - nb)
    out = [("makeCfromT order %d" % k, ci.makeCfromT,
            (noa, nva, nob, nvb, t.array(nva, noa), t.array(nvb, nob), t.T2(noa, nva),
             t.array(nva, nvb, noa, nob), t.T2(nob, nvb)), {"order": k})
           for k in (1, 2, 3, 4)]
    out += [("gmakeCfromT order %d" % k, ci.gmakeCfromT,
             (no, nv, t.array(nv, no), t.T2(no, nv)), {"order": k, "occ": list(occ)})
            for k in ((1, 2, 3, 4) if m < 4 else (1, 2))]
    return out


def _civec(case, t):
    """Operators on CI vectors; matrix elements."""
    from cqcpy import ci_utils as ci
    m = case["m"]
    noa, nob = case["noa"], case["nob"]
    masks = [(x, y) for x in fock.dets(m, noa) for y in fock.dets(m, nob)]
    keep = t.rng.permutation(len(masks))[:8]
    ub = [tuple(ci.Dstring(m, det.occ(z, m)) for z in masks[k]) for k in keep]
    gm = fock.dets(m, noa)
    keep = t.rng.permutation(len(gm))[:8]
    gb = [ci.Dstring(m, det.occ(gm[k], m)) for k in keep]
    uv, gv = t.array(len(ub)), t.array(len(gb))
    i, j, a, b = [int(x) for x in t.rng.integers(0, m, 4)]
    ha, hb = t.array(m, m), t.array(m, m)
    Ia, Ib, Iab = t.pair(m, m, m, m), t.pair(m, m, m, m), t.array(m, m, m, m)
    out = [("s_on_vec", ci.s_on_vec, (gb, gv, i, a), {}),
           ("d_on_vec", ci.d_on_vec, (gb, gv, i, j, a, b), {}),
           ("gH_on_vec", ci.gH_on_vec, (gb, gv, ha, Ia), {}),
           ("H_on_vec", ci.H_on_vec, (ub, uv, ha, hb, Ia, Ib, Iab), {})]
    for n in ("sa_on_vec", "sb_on_vec"):
        out.append((n, getattr(ci, n), (ub, uv, i, a), {}))
    for n in ("da_on_vec", "db_on_vec", "sasb_on_vec"):
        out.append((n, getattr(ci, n), (ub, uv, i, j, a, b), {}))
    x, y = int(t.rng.integers(len(ub))), int(t.rng.integers(len(ub)))
    out.append(("ci_matrixel", ci.ci_matrixel,
                (ub[x][0], ub[x][1], ub[y][0], ub[y][1], ha, hb, Ia, Ib, Iab, 0.5), {}))
    x, y = int(t.rng.integers(len(gb))), int(t.rng.integers(len(gb)))
    out.append(("gci_matrixel", ci.gci_matrixel, (gb[x], gb[y], ha, Ia, 0.5), {}))
    p = ci.Pstring(3, [1, 0, 2])
    out += [("level", ci.level, (gb[x], gb[y]), {}), ("diff", ci.diff, (gb[x], gb[y]), {}),
            ("excite", lambda s, i, a: s.excite(i, a), (gb[x], i, a), {}),
            ("raize", lambda s, k: s.raize(k), (p, 1), {}),
            ("lower", lambda s, k: s.lower(k), (p, 2), {}),
            ("lower at vacuum", lambda s, k: s.lower(k), (p, 1), {})]
    occ = det.occ(gm[0], m)
    for n in ("s_strings", "d_strings", "t_strings", "q_strings"):
        out.append((n, getattr(ci, n), (m, noa), {"occ": list(occ)}))
    for n in ("ucis_basis", "ucisd_basis"):
        out.append((n, getattr(ci, n), (m, noa, nob), {}))
    out += [("gcisd_basis", ci.gcisd_basis, (2*m, noa + nob), {}),
            ("vcisd_basis", ci.vcisd_basis, (m,), {})]
    return out


def _ft(case, t):
    from cqcpy import ft_utils as ft
    e, e2 = 20*t.array(5), 20*t.array(3)
    out = [(n, getattr(ft, n), (case["beta"], e, 0.3), {}) for n in ("ff", "ffv", "GP0", "dGP0")]
    out.append(("uGP0", ft.uGP0, (case["beta"], e, e2, 0.3), {}))
    for n in ("fermi_function", "vfermi_function", "grand_potential0", "dgrand_potential0"):
        out.append((n, getattr(ft, n), (case["beta"], float(e[0]), 0.3), {}))
    return out


def _mol(case, t):
    from cqcpy import integrals as ig
    nao = case["nao"]
    eri = mfl.random_eri(t.rng, nao)
    o = tuple(t.array(nao, k) for k in (1, 2, 2, 1))
    p = tuple(t.array(nao, k) for k in (2, 1, 2, 1))
    out = []
    for n in ("get_chem", "get_phys"):
        out.append((n, getattr(ig, n), (eri,) + o, {"anti": True}))
    for n in ("get_chem_anti", "get_phys_anti"):
        out.append((n, getattr(ig, n), (eri,) + o, {}))
    for n in ("get_chem_antiu", "get_phys_antiu", "get_chemu"):
        out.append((n, getattr(ig, n), (eri,) + o + p, {}))
    for n in ("get_chemu_all", "get_chem_antiu_all", "get_physu_all", "get_phys_antiu_all"):
        out.append((n, getattr(ig, n), (eri, o[1], p[1]), {}))
    return out


def _mf(case, t):
    from cqcpy import integrals as ig
    from pyscf import scf
    mol, eri = mfl.mole("H2")
    out = []
    t = gen.Tensors(case["seed"] + 5)
    for u in (False, True):
        mf = (scf.UHF if u else scf.RHF)(mol)
        mf.mo_coeff = numpy.array([t.array(2, 2), t.array(2, 2)]) if u else t.array(2, 2)
        mf.mo_occ = numpy.array([[0.0, 1.0], [1.0, 0.0]]) if u else numpy.array([0.0, 2.0])
        out.append(("eri_blocks", ig.eri_blocks, (mf,), {"code": case["code"]}))
        out.append(("get_phys_antiu_all_gen", ig.get_phys_antiu_all_gen, (mf,), {}))
        out.append(("get_phys_gen", ig.get_phys_gen,
                    (mf, t.array(2, 1), t.array(2, 2), t.array(2, 1), t.array(2, 2)), {}))
    return out


def _sol(case, t):
    from cqcpy import integrals as ig
    from pyscf.pbc import scf
    nao = case["nao"]
    kpt = numpy.array([0.1, 0.2, -0.3]) if t.complex else numpy.zeros(3)
    mf = scf.RHF(mfl.cell(), kpt=kpt)
    mf.with_df = mfl.FakeDF([kpt], nao, t.rng, real=not t.complex)
    mf.mo_coeff = t.array(nao, nao)
    mf.mo_occ = numpy.array([0.0] + [2.0]*(nao - 1))
    o = tuple(t.array(nao, k) for k in (1, 2, 2, 1))
    p = tuple(t.array(nao, k) for k in (2, 1, 2, 1))
    out = []
    for n in ("get_chem_sol", "get_phys_sol"):
        out.append((n, getattr(ig, n), (mf,) + o, {"anti": True}))
    for n in ("get_chemu_sol", "get_chem_antiu_sol", "get_phys_antiu_sol"):
        out.append((n, getattr(ig, n), (mf,) + o + p, {}))
    for n in ("get_chemu_all_sol", "get_physu_all_sol"):
        out.append((n, getattr(ig, n), (mf, o[1], p[1]), {"anti": True}))
    out.append(("eri_blocks", ig.eri_blocks, (mf,), {"code": case["code"]}))
    out.append(("get_physu_all_gen", ig.get_physu_all_gen, (mf,), {"anti": True}))
    return out


def _kpt(case, t):
    from cqcpy import integrals as ig
    from pyscf.pbc import scf
    nao = case["nao"]
    t.complex = True
    cell = mfl.cell()
    kpts = cell.make_kpts([1, 1, 2])
    mf = scf.KRHF(cell, kpts=kpts)
    mf.with_df = mfl.FakeDF(kpts, nao, t.rng)
    mf.mo_coeff = [t.array(nao, nao) for _ in kpts]
    mf.mo_occ = [numpy.array([2.0] + [0.0]*(nao - 1)) for _ in kpts]
    hc = numpy.array([problem._herm1(t.array(nao, nao)) for _ in kpts])
    mf.get_hcore = lambda *a, **k: hc
    o = tuple(t.array(nao, k) for k in (1, 2, 2, 1))
    return [("get_chem_solk", ig.get_chem_solk, (mf, (0, 1, 1, 0)) + o, {"anti": True}),
            ("get_phys_solk", ig.get_phys_solk, (mf, [0, 1, 1, 0]) + o, {"anti": True}),
            ("get_solk_integrals", ig.get_solk_integrals, (mf,), {"eriorder": "phys"})]


TABLE = {"so": _so, "u": _u, "r": _r, "spin": _spin, "blocks": _blocks, "ci": _ci,
         "civec": _civec, "ft": _ft, "mol": _mol, "mf": _mf, "sol": _sol, "kpt": _kpt}


def draw(d, groups=GROUPS):
    """Decisions that fix the arguments of all functions of one group."""
    g = d.spread("group", groups)
    case = {"group": g}
    if g == "so":
        case["no"], case["nv"] = d.spread("so-size", [
            (2, 2), (2, 3), (3, 2), (1, 2), (2, 1), (3, 4), (5, 4), (2, 17), (3, 3)])
    elif g == "r":
        case["no"], case["nv"] = d.spread("r-size", [
            (2, 2), (2, 3), (3, 2), (1, 2), (2, 1), (3, 3), (4, 3), (1, 17)])
    elif g in ("u", "spin", "blocks"):
        case["size"] = list(d.choice([(2, 2, 2, 2), (2, 3, 1, 2), (1, 2, 2, 2), (2, 2, 1, 3),
                                      (3, 2, 2, 3), (2, 1, 1, 2), (4, 3, 3, 4), (1, 17, 2, 1),
                                      (17, 1, 1, 2)]))
    elif g in ("ci", "civec"):
        m = case["m"] = d.choice([2, 3, 4])
        case["noa"], case["nob"] = d.integer(1, m - 1), d.integer(1, m - 1)
    elif g == "ft":
        case["beta"] = d.choice([1.0, 10.0, 0.25])
    else:
        case["nao"] = d.choice([2, 3])
        case["code"] = d.integer(0, 9)
    case["seed"] = d.seed()
    return case


def entries(case, dtype="real", kind="uniform"):
    t = gen.Tensors(case["seed"], kind, dtype)
    return TABLE[case["group"]](case, t)
