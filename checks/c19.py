"""C19: CI coefficients from amplitudes against exp(T) on the reference in Fock space."""
import numpy
from vlib.engine import call
from vlib.cmp import same, true
from vlib import det, fock, gen

ID = "C19"
RULE = "truncation of at least two with at least two electrons and two holes"
ASSUMPTIONS = [
    "general form: even number of spin orbitals and the reference of the CI bases "
    "(alpha filled first), given explicitly or by default",
    "spin-resolved form: equal numbers of alpha and beta orbitals, as the function requires",
    "basis order taken from the CI basis functions (property C16)"]
BUDGET = {"quick": (900, 240), "thorough": (20000, 700)}

# three or four excitations of one spin need as many electrons and holes of this spin
WIDE = [(6, 3, 0, 3), (6, 0, 3, 3), (6, 3, 1, 3), (6, 1, 3, 3), (6, 3, 1, 4), (6, 1, 3, 4),
        (8, 4, 0, 4), (8, 0, 4, 4), (5, 2, 3, 4), (5, 3, 2, 4), (5, 4, 2, 3), (5, 2, 4, 3)]
# slow; more than one determinant of each highest excitation, very different spins
HUGE = [(6, 4, 2, 4), (6, 2, 4, 4), (6, 3, 2, 4), (6, 2, 3, 4), (9, 0, 4, 4), (9, 5, 0, 4)]
GENERAL = [(5, 4), (5, 6)]
# singles (two), doubles of equal spin (two; the first two factors in the general form), mixed
MISSING = [(0.0, 1.0, 1.0, 1.0, 1.0), (0.0, 0.0, 1.0, 1.0, 1.0), (1.0, 0.0, 1.0, 1.0, 1.0),
           (1.0, 1.0, 0.0, 0.0, 1.0), (1.0, 1.0, 1.0, 1.0, 0.0), (0.0, 0.0, 0.0, 0.0, 1.0),
           (1.0, 1.0, 0.0, 0.0, 0.0), (1.0, 1.0, 1.0, 0.0, 1.0), (1.0, 1.0, 0.0, 1.0, 1.0)]


def generate(d):
    form = d.choice(["u", "g"])
    case = {"form": form}
    if form == "g":
        m = d.choice([2, 1, 3, 4])
        case["m"] = m
        case["no"] = d.integer(0, 2*m)
        case["order"] = d.choice([2, 1, 3, 4])
        if m == 4 and case["order"] == 4 and not d.flag(0.2):
            case["order"] = 3
        case["occ"] = d.flag(0.5)
        big = d.spread("general", [None]*250 + GENERAL)
        if big:
            case["m"], case["no"], case["order"] = big + (4,)
    else:
        m = d.choice([2, 3, 1, 4, 4])
        case["m"] = m
        # every spin-resolved product of up to four excitations needs two of each
        middle = m == 4 and d.flag(0.5)
        case["noa"] = 2 if middle else d.integer(0, m)
        case["nob"] = 2 if middle else d.integer(0, m)
        case["order"] = d.choice([2, 3, 4, 4, 1])
        big = d.spread("big", [None]*50 + WIDE)
        big = d.spread("huge", [None]*250 + HUGE) or big
        if big:
            case["m"], case["noa"], case["nob"], case["order"] = big
    case["kind"] = d.weighted([("int", 1.0), ("uniform", 3.0), ("sparse", 1.0)])
    # amplitudes that are missing or tiny (also in the expansions of highest order), and amplitudes shared by both spins
    case["factors"] = [d.weighted([(1.0, 4.0), (0.0, 1.0), (1e-6, 0.3)]) for _ in range(5)]
    if d.spread("quadruples", [False]*25 + [True]):
        if form == "g":
            case["m"], case["no"], case["order"] = 4, 4, 4
        else:
            case["m"], case["noa"], case["nob"], case["order"] = 4, 2, 2, 4
        case["factors"] = list(d.spread("missing", MISSING))
    case["share"] = d.weighted([("", 4.0), ("singles", 1.0), ("doubles", 1.0), ("all", 1.0)])
    case["seed"] = d.seed()
    case["plain"] = d.flag(0.5)    # leave out arguments that have a default
    case["bad"] = d.choice([5, 0, -1, 7])
    return case


def nontrivial(case):
    m = case["m"]
    k = case["no"] if case["form"] == "g" else case["noa"] + case["nob"]
    return case["order"] >= 2 and 2 <= k <= 2*m - 2


def exponential(n, iocc, ivir, T1, T2):
    """exp(T)|ref> for occupied/virtual orbital positions; dict mask -> coefficient."""
    s = fock.sector(n, len(iocc))
    t1 = numpy.zeros((n, n))
    t2 = numpy.zeros((n, n, n, n))
    t1[numpy.ix_(ivir, iocc)] = T1
    t2[numpy.ix_(ivir, ivir, iocc, iocc)] = T2
    T = s.onebody(t1) + s.twobody(t2)
    v = numpy.zeros(s.dim)
    v[s.index[sum(1 << p for p in iocc)]] = 1.0
    return s, fock.exp_on(T, v)


def execute(case, counter):
    from cqcpy import ci_utils as ci
    m, order = case["m"], case["order"]
    n = 2*m
    t = gen.Tensors(case["seed"], case["kind"])
    counter.label("%s-%d" % (case["form"], order))
    gb = {1: "gcis_basis", 2: "gcisd_basis", 3: "gcisdt_basis", 4: "gcisdtq_basis"}
    ub = {1: "ucis_basis", 2: "ucisd_basis", 3: "ucisdt_basis", 4: "ucisdtq_basis"}
    if case["form"] == "g":
        no = case["no"]
        nv = n - no
        na, nb = no - no//2, no//2
        occ = [1]*na + [0]*(m - na) + [1]*nb + [0]*(m - nb)
        iocc = [p for p in range(n) if occ[p]]
        ivir = [p for p in range(n) if not occ[p]]
        f = case["factors"]
        T1, T2 = f[0]*t.array(nv, no), f[1]*t.T2(no, nv)
        kw = {} if order == 2 and case["plain"] else {"order": order}
        if case["occ"]:
            kw["occ"] = [list, tuple, numpy.array][case["seed"] % 3](occ)
        C = call("gmakeCfromT", ci.gmakeCfromT, no, nv, T1, T2, **kw)
        s, v = exponential(n, iocc, ivir, T1, T2)
        basis = getattr(ci, gb[order])(n, no)
        want = numpy.array([v[s.index[det.mask(det.occ_of(x))]] for x in basis])
        same("gmakeCfromT order %d" % order, C, want)
        bad = (ci.gmakeCfromT, (no, nv, T1, T2))
    else:
        noa, nob = case["noa"], case["nob"]
        nva, nvb = m - noa, m - nob
        Ta, Tb = t.array(nva, noa), t.array(nvb, nob)
        Taa, Tbb, Tab = t.T2(noa, nva), t.T2(nob, nvb), t.array(nva, nvb, noa, nob)
        Ta, Tb, Taa, Tbb, Tab = [x*y for x, y in zip(case["factors"], (Ta, Tb, Taa, Tbb, Tab))]
        if noa == nob and case["share"] in ("singles", "all"):
            Tb = Ta
        if noa == nob and case["share"] in ("doubles", "all"):
            Tbb = Taa
            Tab = Tab + Tab.transpose((1, 0, 3, 2))
        kw = {} if order == 2 and case["plain"] else {"order": order}
        C = call("makeCfromT", ci.makeCfromT, noa, nva, nob, nvb, Ta, Tb, Taa, Tab, Tbb, **kw)
        iocc = list(range(noa)) + [m + p for p in range(nob)]
        ivir = list(range(noa, m)) + [m + p for p in range(nob, m)]
        from vlib import problem
        va, vb = list(range(nva)), list(range(nva, nva + nvb))
        oa, ob = list(range(noa)), list(range(noa, noa + nob))
        no, nv = noa + nob, nva + nvb
        T1 = problem.join1(Ta, Tb, va, vb, oa, ob, (nv, no))
        T2 = problem.join2(Taa, Tbb, Tab, [va, va, oa, oa], [vb, vb, ob, ob],
                           (nv, nv, no, no))
        if noa == 0 or nob == 0:
            # an empty spin takes no part: leave its orbitals out
            shift = m if noa == 0 else 0
            keep = [k for k, p in enumerate(ivir) if shift <= p < shift + m]
            iocc = [p - shift for p in iocc]
            ivir = [ivir[k] - shift for k in keep]
            T1, T2 = T1[keep], T2[numpy.ix_(keep, keep, range(no), range(no))]
            s, v = exponential(m, iocc, ivir, T1, T2)
            v = {x << shift: v[k] for x, k in s.index.items()}
        else:
            s, v = exponential(n, iocc, ivir, T1, T2)
            v = {x: v[k] for x, k in s.index.items()}
        basis = getattr(ci, ub[order])(m, noa, nob)
        want = numpy.array([v[det.joined(det.occ_of(x), det.occ_of(y))]
                            for x, y in basis])
        same("makeCfromT order %d" % order, C, want)
        bad = (ci.makeCfromT, (noa, nva, nob, nvb, Ta, Tb, Taa, Tab, Tbb))
        more = t.array(nvb + 1, nob), t.array(nva, nvb + 1, noa, nob), t.T2(nob, nvb + 1)
        less = Tb[1:], Tab[:, 1:], Tbb[1:, 1:]
        if case["bad"] % 2 and nvb > 0:
            m, (Xb, Xab, Xbb) = nvb - 1, less
        else:
            m, (Xb, Xab, Xbb) = nvb + 1, more
        try:
            ci.makeCfromT(noa, nva, nob, m, Ta, Xb, Taa, Xab, Xbb, order=order)
            ok = False
        except Exception:
            ok = True
        true("different numbers of alpha and beta orbitals accepted", ok)
    try:
        bad[0](*bad[1], order=case["bad"])
        ok = False
    except Exception:
        ok = True
    true("unsupported truncation order %d accepted" % case["bad"], ok)
