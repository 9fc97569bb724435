"""C28: exact scaling with units and orbital normalisation; changes of the orbital basis."""
import numpy
from vlib.engine import call, Violation
from vlib.cmp import same, true
from vlib import problem, registry, gen, det, meanfield as mfl

ID = "C28"
RULE = "coupled-cluster functions: at least 2 occupied and 2 virtual orbitals; other " \
       "functions: all cases"
ASSUMPTIONS = [
    "scales are powers of two, so that rescaling is exact in floating point",
    "transformed results are compared after transforming them back, to 1e-9 relative"]
BUDGET = {"quick": (1000, 150), "thorough": (8000, 600)}
SO = problem.SO_SMALL[3:] + [(4, 8), (7, 4), (2, 17), (12, 2)]
U = problem.U_SMALL + problem.U_EQUAL + problem.U_ZERO + [(3, 5, 2, 6), (2, 9, 1, 10)]
R = problem.R_SMALL + problem.R_LARGE[:3] + [(2, 9), (9, 2)]
LETTERS = dict([(c, "v") for c in "abcd"] + [(c, "o") for c in "ijkl"])
U4 = ["aaaa", "bbbb", "abab", "baba"]
U3 = ["aaaa", "bbbb", "abab"]
U2 = {"ciab": U4, "jkai": U4, "cdab": U3, "klij": U3, "bcai": U4, "kaij": U4, "abij": U3,
      "bjai": ["aaaa", "bbbb", "abab", "abba", "baab", "baba"]}
OTHER = ["spin", "civec", "ci", "gci", "mol", "sol", "ft"]


def generate(d):
    form = d.spread("form", ["so", "u", "r", "so", "u", "r"] + OTHER)
    case = {"form": form}
    if form in ("so", "r"):
        case["no"], case["nv"] = d.spread(form, SO if form == "so" else R)
    elif form == "u":
        case["size"] = list(d.spread(form, U))
    elif form == "spin":
        case["size"] = list(d.choice(problem.U_SMALL))
    elif form in ("civec", "ci", "gci"):
        case["m"] = m = d.choice([2, 3, 4]) if form != "gci" else d.choice([2, 3])
        case["noa"], case["nob"] = d.integer(1, m - 1), d.integer(1, m - 1)
        case["order"] = d.choice([2, 3, 4, 1])
    elif form == "ft":
        case["beta"] = d.choice([1.0, 10.0, 0.25])
    else:
        case["nao"] = d.choice([2, 3, 4])
        case["cols"] = [d.integer(1, 3) for _ in range(8)]
    case["how"] = d.choice(["scale", "permute", "rotate", "scale", "scale"])
    # powers of two: virtual orbitals, single orbitals, energies
    case["virtual"] = d.choice([0, -20, 20, -40, 40, -10, 10])
    case["each"] = d.choice([0, 6])
    case["vector"] = d.choice([-70, 60, -50, -120, 0])
    case["unit"] = d.choice([0, -30, 30, -60, 20])
    case.update(problem.draw_tensor_case(d))
    case["tscale"], case["zero"] = 1.0, ""
    return case


def nontrivial(case):
    if case["form"] in ("so", "r"):
        return min(case["no"], case["nv"]) >= 2
    if case["form"] == "u":
        noa, nva, nob, nvb = case["size"]
        return noa + nob >= 2 and nva + nvb >= 2
    return True


# --------------------------------------------------------------- changes of basis
def basis_change(case, rng, no, nv, cplx):
    """Matrices (A, inverse) for the occupied and the virtual orbitals."""
    out = {}
    for k, n in (("o", no), ("v", nv)):
        if case["how"] == "rotate":
            A = numpy.eye(n) + 0.4*rng.uniform(-1, 1, (n, n))/max(1, n)**0.5
            if cplx:
                A = A + 0.4j*rng.uniform(-1, 1, (n, n))/max(1, n)**0.5
            B = numpy.linalg.inv(A)
        else:
            p = rng.permutation(n) if case["how"] == "permute" else numpy.arange(n)
            e = rng.integers(-case["each"], case["each"] + 1, n)
            if k == "v":
                e = e + case["virtual"]
            A, B = numpy.zeros((n, n)), numpy.zeros((n, n))
            A[numpy.arange(n), p] = 2.0**e
            B[p, numpy.arange(n)] = 2.0**(-e)
        out[k] = (A, B)
    return out


def apply(X, pairs, back=False):
    """Transform a tensor; the first half of the indices with A, the second with its inverse."""
    n = len(pairs)
    for k, (A, B) in enumerate(pairs):
        first = (k < n//2) != back
        M = A if first else B
        # X'[..p..] = A[p,q] X[..q..] or X[..q..] B[q,p]
        if k >= n//2:
            M = M.T
        X = numpy.moveaxis(numpy.tensordot(M, X, axes=(1, k)), 0, k)
    return X


def whole(ch):
    """Both spaces together, occupied first."""
    no, nv = ch["o"][0].shape[0], ch["v"][0].shape[0]
    out = []
    for w in (0, 1):
        M = numpy.zeros((no + nv,)*2, dtype=numpy.result_type(ch["o"][w], ch["v"][w]))
        M[:no, :no], M[no:, no:] = ch["o"][w], ch["v"][w]
        out.append(M)
    return tuple(out)


def arrays(x):
    """Arrays of a nested result in order."""
    if isinstance(x, (tuple, list)):
        return [z for y in x for z in arrays(y)]
    return [x]


def so_kinds(name):
    if "energy" in name:
        return [""]
    if "rdm" in name:
        return ["".join(LETTERS[c] for c in name.split("_")[2])]
    doubles = "ccd_" in name
    if "lambda" in name:
        return ["oovv"] if doubles else ["ov", "oovv"]
    return ["vvoo"] if doubles else ["vo", "vvoo"]


def u_kinds(name):
    """(kinds, spins) of every block returned."""
    if "energy" in name:
        return [("", "")]
    if "1rdm" in name:
        k = "".join(LETTERS[c] for c in name.split("_")[2])
        return [(k, "aa"), (k, "bb")]
    if "2rdm" in name:
        name = name.split("_")[2]
        k = "".join(LETTERS[c] for c in name)
        return [(k, s) for s in U2[name]]
    one, two = ("ov", "oovv") if "lambda" in name else ("vo", "vvoo")
    return [(one, "aa"), (one, "bb"), (two, "aaaa"), (two, "abab"), (two, "bbbb")]


def compare(name, got, want, pairs, factor):
    """got, transformed back and divided by the factor, equals want."""
    got, want = arrays(got), arrays(want)
    true("%s: %d results instead of %d" % (name, len(want), len(pairs)),
         len(got) == len(want) == len(pairs))
    for k, (x, y, p) in enumerate(zip(got, want, pairs)):
        x, y = numpy.asarray(x), numpy.asarray(y)
        if x.shape != y.shape or x.ndim != len(p) or \
                any(m[0].shape[0] != n for m, n in zip(p, x.shape)):
            raise Violation("%s: shapes %s and %s" % (name, x.shape, y.shape))
        same("%s: result %d in another basis" % (name, k), apply(x, p, back=True)/factor, y)


def degree(name):
    """Power of the energy unit in a result."""
    return 0 if "rdm" in name else 1


def coupled(case, counter):
    form = case["form"]
    rng = numpy.random.Generator(numpy.random.PCG64(case["seed"] + 17))
    cplx = case["dtype"] == "complex"
    unit = 2.0**case["unit"]
    if form == "u":
        p = problem.make_u(case)
        noa, nva, nob, nvb = p.size
        ch = {"a": basis_change(case, rng, noa, nva, cplx),
              "b": basis_change(case, rng, nob, nvb, cplx)}
        a, b = whole(ch["a"]), whole(ch["b"])

        def blk(X, kinds, spins):
            return apply(X, [ch[s][k] for k, s in zip(kinds, spins)])
        q = problem.U(
            p.size, unit*apply(p.Fa, [a, a]), unit*apply(p.Fb, [b, b]),
            unit*apply(p.Iaa, [a]*4), unit*apply(p.Ibb, [b]*4),
            unit*apply(p.Iab, [a, b, a, b]),
            tuple(blk(x, "vo", s) for x, s in zip(p.T1, ("aa", "bb"))),
            tuple(blk(x, "vvoo", s) for x, s in zip(p.T2, ("aaaa", "abab", "bbbb"))),
            tuple(blk(x, "ov", s) for x, s in zip(p.L1, ("aa", "bb"))),
            tuple(blk(x, "oovv", s) for x, s in zip(p.L2, ("aaaa", "abab", "bbbb"))))
        fns, gns = registry.u_functions(p), registry.u_functions(q)

        def pairs(name):
            return [[ch[s][k] for k, s in zip(kk, ss)] for kk, ss in u_kinds(name)]
    else:
        p = problem.make_so(case) if form == "so" else problem.make_r(case)
        ch = basis_change(case, rng, p.no, p.nv, cplx)
        w = whole(ch)

        def blk(X, kinds):
            return apply(X, [ch[k] for k in kinds])
        amps = [blk(p.T1, "vo"), blk(p.T2, "vvoo"), blk(p.L1, "ov"), blk(p.L2, "oovv")]
        two = p.I if form == "so" else p.V
        q = (problem.SO if form == "so" else problem.R)(
            p.no, p.nv, unit*apply(p.F, [w, w]), unit*apply(two, [w]*4), *amps)
        make = registry.so_functions if form == "so" else registry.r_functions
        fns, gns = make(p), make(q)

        def pairs(name):
            return [[ch[k] for k in kk] for kk in so_kinds(name)]
    for (name, fn, args, kw), (_, gn, brgs, bkw) in zip(fns, gns):
        if name == "lambda_int":
            continue
        counter.label("functions")
        want = call(name, fn, *args, **kw)
        got = call(name + " in another basis", gn, *brgs, **bkw)
        compare(name, got, want, pairs(name), unit**degree(name))


# --------------------------------------------------------------- linear functions
def homogeneous(what, fn, args, scales, factor, kw=None):
    """fn of arguments multiplied by scales equals factor times fn of the arguments."""
    kw = kw or {}
    want = registry.flat(call(what, fn, *args, **kw))
    new = [registry.map_tree(lambda x: x*s, a) for a, s in zip(args, scales)]
    new = [a*s if isinstance(a, float) else a for a, s in zip(new, scales)]
    got = registry.flat(call(what + " rescaled", fn, *new, **kw))
    true(what + ": structure", [k for k, _ in got] == [k for k, _ in want])
    for (k, x), (_, y) in zip(got, want):
        if k.endswith((".len", ".none")) or y.dtype.kind in "bi":
            continue
        same("%s rescaled: %s" % (what, k), numpy.asarray(x)/factor, y)


def linear(case, t, counter):
    u = 2.0**case["unit"]
    for form in ("spin", "blocks"):
        for name, fn, args, kw in registry.TABLE[form](case, t):
            counter.label("functions")
            homogeneous(name, fn, args, [u]*len(args), u, kw)


def operators(case, t, counter):
    u, v = 2.0**case["unit"], 2.0**case["vector"]
    for name, fn, args, kw in registry.TABLE["civec"](case, t):
        if name.endswith("H_on_vec"):
            counter.label("functions")
            homogeneous(name, fn, args, [1, v] + [u]*(len(args) - 2), u*v, kw)
        elif name.endswith("_on_vec"):
            counter.label("functions")
            homogeneous(name, fn, args, [1, v] + [1]*(len(args) - 2), v, kw)
        elif name == "ci_matrixel":
            homogeneous(name, fn, args, [1]*4 + [u]*6, u, kw)
        elif name == "gci_matrixel":
            homogeneous(name, fn, args, [1]*2 + [u]*3, u, kw)


def thermal(case, t, counter):
    u = 2.0**case["unit"]
    for name, fn, args, kw in registry.TABLE["ft"](case, t):
        counter.label("functions")
        power = {"ff": 0, "ffv": 0, "fermi_function": 0, "vfermi_function": 0, "GP0": 1,
                 "uGP0": 1, "grand_potential0": 1, "dGP0": 2, "dgrand_potential0": 2}[name]
        homogeneous(name, fn, args, [1/u] + [u]*(len(args) - 1), u**power, kw)


def excitations(ref, new):
    return [k for k in range(len(ref)) if new[k] and not ref[k]], \
        [k for k in range(len(ref)) if ref[k] and not new[k]]


def coefficients(case, t, counter):
    """CI coefficients from amplitudes of rescaled orbitals."""
    from cqcpy import ci_utils as ci
    m, order, noa, nob = case["m"], case["order"], case["noa"], case["nob"]
    counter.label("functions")
    rng = t.rng
    kind = {1: "cis", 2: "cisd", 3: "cisdt", 4: "cisdtq"}[order] + "_basis"
    no = noa + nob
    if case["form"] == "gci":
        na, nb = no - no//2, no//2
    else:
        na, nb = noa, nob
    ref = [1]*na + [0]*(m - na) + [1]*nb + [0]*(m - nb)
    power = rng.integers(-case["each"], case["each"] + 1, 2*m)
    power = power + case["virtual"]*(1 - numpy.array(ref))

    def rows(ix, X):
        """Rescale an amplitude tensor whose indices are the orbitals ix."""
        n = len(ix)
        for k, i in enumerate(ix):
            f = 2.0**(power[i] if k < n//2 else -power[i])
            X = X*f.reshape([-1 if j == k else 1 for j in range(n)])
        return X
    if case["form"] == "gci":
        o = [p for p in range(2*m) if ref[p]]
        v = [p for p in range(2*m) if not ref[p]]
        nv = 2*m - no
        amps = [t.array(nv, no), t.T2(no, nv)]
        sets = [[v, o], [v, v, o, o]]
        name, fn, head = "gmakeCfromT", ci.gmakeCfromT, (no, nv)
        basis = [det.occ_of(x) for x in getattr(ci, "g" + kind)(2*m, no)]
    else:
        oa, ob = list(range(noa)), [m + k for k in range(nob)]
        va, vb = list(range(noa, m)), [m + k for k in range(nob, m)]
        nva, nvb = m - noa, m - nob
        amps = [t.array(nva, noa), t.array(nvb, nob), t.T2(noa, nva),
                t.array(nva, nvb, noa, nob), t.T2(nob, nvb)]
        sets = [[va, oa], [vb, ob], [va, va, oa, oa], [va, vb, oa, ob], [vb, vb, ob, ob]]
        name, fn, head = "makeCfromT", ci.makeCfromT, (noa, nva, nob, nvb)
        basis = [list(det.occ_of(x)) + list(det.occ_of(y))
                 for x, y in getattr(ci, "u" + kind)(m, noa, nob)]
    want = numpy.asarray(call(name, fn, *(head + tuple(amps)), order=order))
    new = tuple(rows(s, x) for s, x in zip(sets, amps))
    got = numpy.asarray(call(name + " rescaled", fn, *(head + new), order=order))
    true("%s: %s coefficients for %d determinants" % (name, want.shape, len(basis)),
         want.shape == got.shape == (len(basis),))
    f = []
    for x in basis:
        parts, holes = excitations(ref, x)
        f.append(2.0**(sum(power[parts]) - sum(power[holes])))
    same(name + " of rescaled orbitals", got/numpy.array(f), want)


def transforms(case, t, counter):
    """Integral transformations with rescaled coefficient columns."""
    from cqcpy import integrals as ig
    nao, rng = case["nao"], t.rng
    sol = case["form"] == "sol"
    if sol:
        from pyscf.pbc import scf
        kpt = numpy.array([0.1, 0.2, -0.3]) if t.complex else numpy.zeros(3)
        src = scf.RHF(mfl.cell(), kpt=kpt)
        src.with_df = mfl.FakeDF([kpt], nao, rng, real=not t.complex)
    else:
        src = mfl.random_eri(rng, nao)
    tail = "_sol" if sol else ""
    o = [t.array(nao, k) for k in case["cols"][:4]]
    p = [t.array(nao, k) for k in case["cols"][4:]]

    def powers(x):
        return 2.0**(rng.integers(-case["each"], case["each"] + 1, x.shape[1])
                     + case["virtual"])
    fo, fp = [powers(x) for x in o], [powers(x) for x in p]
    o2 = [x*f for x, f in zip(o, fo)]
    p2 = [x*f for x, f in zip(p, fp)]

    def check(name, a, b, fs, **kw):
        fn = getattr(ig, name + tail, None)
        if fn is None:
            return
        counter.label("functions")
        want = numpy.asarray(call(name, fn, src, *a, **kw))
        got = numpy.asarray(call(name + " rescaled", fn, src, *b, **kw))
        true("%s: shapes %s, %s" % (name, want.shape, got.shape),
             want.shape == got.shape == tuple(len(f) for f in fs))
        for k, f in enumerate(fs):
            got = got/f.reshape([-1 if j == k else 1 for j in range(4)])
        same(name + " with rescaled orbitals", got, want)
    both = [numpy.concatenate(x) for x in zip(fo, fp)]
    one = [numpy.concatenate((fo[0], fp[0]))]*4
    for anti in (False, True):
        check("get_chem", o, o2, fo, anti=anti)
        check("get_phys", o, o2, fo, anti=anti)
        check("get_chemu", o + p, o2 + p2, both, anti=anti)
        check("get_chemu_all", [o[0], p[0]], [o2[0], p2[0]], one, anti=anti)
        check("get_physu_all", [o[0], p[0]], [o2[0], p2[0]], one, anti=anti)
    for name in ("get_chem_antiu", "get_phys_antiu"):
        check(name, o + p, o2 + p2, both)
    for name in ("get_chem_antiu_all", "get_phys_antiu_all"):
        check(name, [o[0], p[0]], [o2[0], p2[0]], one)
    for name in ("get_chem_anti", "get_phys_anti"):
        check(name, o, o2, fo)


def execute(case, counter):
    counter.label(case["form"])
    if case["form"] in ("so", "u", "r"):
        counter.label(case["how"])
        return coupled(case, counter)
    dtype = "real" if case["form"] in ("ft", "ci", "gci") else case["dtype"]
    t = gen.Tensors(case["seed"], case["kind"], dtype)
    {"spin": linear, "civec": operators, "ft": thermal, "ci": coefficients,
     "gci": coefficients, "mol": transforms, "sol": transforms}[case["form"]](
        case, t, counter)
