"""C16: CI bases and string generators against brute-force enumeration."""
import itertools
import numpy
from vlib.engine import call
from vlib.cmp import true
from vlib import det, fock

ID = "C16"
RULE = "at least two electrons and two holes, or at least two modes"
ASSUMPTIONS = ["general bases take an even number of spin orbitals, the reference fills "
               "alpha and then beta"]
HOLDERS = {"array": numpy.array, "int8": lambda x: numpy.array(x, dtype=numpy.int8),
           "list": list, "tuple": tuple}
BUDGET = {"quick": (4000, 60), "thorough": (12000, 400)}


def generate(d):
    what = d.weighted([("g", 3.0), ("u", 3.0), ("strings", 3.0), ("vib", 1.0)])
    case = {"what": what, "order": d.choice([2, 1, 3, 4])}
    if what == "g":
        m = d.choice([2, 3, 1, 4, 5])
        if d.flag(0.03):
            m, case["order"] = d.choice([(7, 2), (9, 1), (6, 3), (17, 1), (6, 4)])
        case["nmo"] = 2*m
        case["n"] = d.integer(0, 2*m)
        case["gs"] = d.flag(0.7)
    elif what == "u":
        n = d.choice([2, 3, 1, 4, 5])
        if d.flag(0.03):
            n, case["order"] = d.choice([(7, 2), (9, 1), (6, 3), (17, 1), (6, 4)])
        case["n"] = n
        case["na"] = d.integer(0, n)
        case["nb"] = d.integer(0, n)
        case["gs"] = d.flag(0.7)
    elif what == "strings":
        n = d.choice([3, 4, 2, 5, 1, 6, 7, 8, 9])
        if d.flag(0.05):
            n, case["order"] = d.choice([(12, 2), (20, 2), (33, 1), (70, 1), (12, 3), (11, 4)])
        case["n"] = n
        case["occ"] = [int(d.flag()) for _ in range(n)]
        case["holder"] = d.choice(sorted(HOLDERS))
        case["default"] = d.flag(0.3)
    else:
        case["nmode"] = d.choice([12, 20, 33]) if d.flag(0.05) else d.integer(1, 7)
        # quanta in the starting state
        case["start"] = [d.choice([0, 1, 2, 126, 127, 254, 255, 256, 32767, 65535])
                         for _ in range(case["nmode"])] if d.flag(0.3) else []
        case["path"] = [[d.below(case["nmode"]), d.below(2)] for _ in range(d.integer(1, 8))]
    return case


def nontrivial(case):
    w = case["what"]
    if w == "g":
        return 2 <= case["n"] <= case["nmo"] - 2
    if w == "u":
        return case["na"] + case["nb"] >= 2 and \
            2*case["n"] - case["na"] - case["nb"] >= 2
    if w == "strings":
        return 2 <= sum(case["occ"]) <= case["n"] - 2
    return case["nmode"] >= 2


def compare(what, got, want, ref):
    """got, want: lists of occupation tuples; ref: function giving the level."""
    true("%s: %d duplicates" % (what, len(got) - len(set(got))), len(got) == len(set(got)))
    missing = sorted(set(want) - set(got))
    extra = sorted(set(got) - set(want))
    true("%s: missing %s" % (what, missing[:2]), not missing)
    true("%s: should not contain %s" % (what, extra[:2]), not extra)
    lev = [ref(x) for x in got]
    true("%s: levels out of order" % what, lev == sorted(lev))


def level(x, y):
    return sum(1 for p, q in zip(x, y) if p and not q)


def excited(ref, order):
    """All occupations that differ from ref by at most order moved electrons."""
    n, k = len(ref), sum(ref)
    if n <= 10:
        full = [tuple(det.occ(x, n)) for x in fock.dets(n, k)]
        return [x for x in full if level(x, ref) <= order]
    full = det.mask(ref)
    occ, vir = [p for p in range(n) if ref[p]], [p for p in range(n) if not ref[p]]
    out = []
    for k in range(order + 1):
        for holes in itertools.combinations(occ, k):
            for parts in itertools.combinations(vir, k):
                x = full
                for p in holes + parts:
                    x ^= 1 << p
                out.append(tuple(det.occ(x, n)))
    return out


def quanta(nmode, q):
    """All occupations of the modes with q quanta."""
    out = []
    for c in itertools.combinations_with_replacement(range(nmode), q):
        out.append(tuple(c.count(p) for p in range(nmode)))
    return out


def spoil(basis):
    """What a caller may do with a result: change the determinants, empty the list."""
    for x in basis:
        for y in x if isinstance(x, tuple) else (x,):
            try:
                y.occ[:] = 1
            except (TypeError, ValueError):
                pass
    if isinstance(basis, list):
        del basis[:]


def execute(case, counter):
    counter.label("%s-%d" % (case["what"], case["order"]))
    once(case)
    # asking again gives the same whatever was done with the first result
    once(case)


def once(case):
    from cqcpy import ci_utils as ci
    w = case["what"]
    order = case["order"]
    if w == "g":
        nmo, n = case["nmo"], case["n"]
        m = nmo//2
        na, nb = n - n//2, n//2
        ref = tuple([1]*na + [0]*(m - na) + [1]*nb + [0]*(m - nb))
        want = excited(ref, order)
        name = {1: "gcis_basis", 2: "gcisd_basis", 3: "gcisdt_basis", 4: "gcisdtq_basis"}[order]
        if order == 1 and not case["gs"]:
            want = [x for x in want if x != ref]
            basis = call(name, ci.gcis_basis, nmo, n, gs=False)
        else:
            kw = {"gs": True} if order == 1 and n % 2 else {}
            basis = call(name, getattr(ci, name), nmo, n, **kw)
        got = [tuple(det.occ_of(x)) for x in basis]
        spoil(basis)
        compare("%s(%d,%d)" % (name, nmo, n), got, want, lambda x: level(x, ref))
        if ref in want:
            true(name + ": reference not first", got[0] == ref)
        return
    if w == "u":
        n, na, nb = case["n"], case["na"], case["nb"]
        ra = tuple([1]*na + [0]*(n - na))
        rb = tuple([1]*nb + [0]*(n - nb))
        ref = ra + rb
        want = [x for x in excited(ref, order) if sum(x[:n]) == na]
        name = {1: "ucis_basis", 2: "ucisd_basis", 3: "ucisdt_basis", 4: "ucisdtq_basis"}[order]
        if order == 1 and not case["gs"]:
            want = [x for x in want if x != ref]
            basis = call(name, ci.ucis_basis, n, na, nb, gs=False)
        else:
            kw = {"gs": True} if order == 1 and na % 2 else {}
            basis = call(name, getattr(ci, name), n, na, nb, **kw)
        got = [tuple(det.occ_of(x) + det.occ_of(y)) for x, y in basis]
        spoil(basis)
        compare("%s(%d,%d,%d)" % (name, n, na, nb), got, want, lambda x: level(x, ref))
        if ref in want:
            true(name + ": reference not first", got[0] == ref)
        return
    if w == "strings":
        n = case["n"]
        occ = list(case["occ"])
        nocc = sum(occ)
        name = {1: "s_strings", 2: "d_strings", 3: "t_strings", 4: "q_strings"}[order]
        if case["default"]:
            occ = [1]*nocc + [0]*(n - nocc)
            basis = call(name, getattr(ci, name), n, nocc)
        else:
            basis = call(name, getattr(ci, name), n, nocc, occ=HOLDERS[case["holder"]](occ))
        got = [tuple(det.occ_of(x)) for x in basis]
        spoil(basis)
        want = [x for x in excited(occ, order) if level(x, occ) == order]
        compare("%s on %s" % (name, occ), got, want, lambda x: level(x, occ))
        # the level functions count changed occupations
        ref = ci.Dstring(n, occ)
        for x in want[:5]:
            for fn in ("level", "diff"):
                k = call(fn, getattr(ci, fn), ref, ci.Dstring(n, list(x)))
                true("%s is %s instead of %d" % (fn, k, 2*order), k == 2*order)
        return
    nmode = case["nmode"]
    for name, q in (("vcis_basis", 1), ("vcisd_basis", 2)):
        basis = call(name, getattr(ci, name), nmode)
        got = [tuple(det.occ_of(x)) for x in basis]
        spoil(basis)
        want = [x for k in range(q + 1) for x in quanta(nmode, k)]
        compare("%s(%d)" % (name, nmode), got, want, sum)
        true(name + ": vacuum not first", got[0] == (0,)*nmode)
    for name, q in (("s_pstrings", 1), ("d_pstrings", 2)):
        basis = call(name, getattr(ci, name), nmode)
        got = [tuple(det.occ_of(x)) for x in basis]
        spoil(basis)
        want = quanta(nmode, q)
        compare("%s(%d)" % (name, nmode), got, want, sum)
    occ = list(case["start"]) or [0]*nmode
    for wrong in (nmode + 1, nmode - 1, 0):
        try:
            ci.Pstring(wrong, list(occ))
            refused = False
        except Exception:
            refused = True
        true("%d modes accepted as %d" % (nmode, wrong), refused)
    cur = call("Pstring", ci.Pstring, nmode, list(occ))
    true("state not as given", det.occ_of(cur) == occ)
    true("equal states compare unequal", call("equality", cur.__eq__, ci.Pstring(nmode, occ)))
    for p in range(nmode):
        other = occ[:p] + [occ[p] + 1] + occ[p+1:]
        true("states %s and %s compare equal" % (occ, other),
             not call("equality", cur.__eq__, ci.Pstring(nmode, other)))
    true("states with %d and %d modes compare equal" % (nmode, nmode + 1),
         not call("equality", cur.__eq__, ci.Pstring(nmode + 1, occ + [0])))
    for p, up in case["path"]:
        before = det.occ_of(cur)
        if up:
            new = call("raize", cur.raize, p)
            back = call("lower", new.lower, p)
            true("lowering does not undo raising", back is not None and back == cur)
            occ = occ[:p] + [occ[p] + 1] + occ[p+1:]
        else:
            new = call("lower", cur.lower, p)
            if occ[p] == 0:
                true("lowered below the vacuum", new is None)
                new = cur
            else:
                true("lowering returned nothing", new is not None)
                true("raising does not undo lowering", new.raize(p) == cur)
                occ = occ[:p] + [occ[p] - 1] + occ[p+1:]
        true("original state changed", det.occ_of(cur) == before)
        cur = new
        true("wrong occupations %s, expected %s" % (det.occ_of(cur), occ),
             det.occ_of(cur) == occ)
