"""C15: determinant strings against bit-string fermion algebra."""
import numpy
from vlib.engine import call, Violation
from vlib.cmp import true
from vlib import det

ID = "C15"
RULE = "at least two electrons, one hole and three moves"
ASSUMPTIONS = ["a move that is not possible is reported by a missing determinant (None)"]
BUDGET = {"quick": (20000, 60), "thorough": (100000, 300)}

LONG = [10, 16, 17, 31, 32, 33, 40, 63, 64, 65, 70, 127, 130, 257, 300]


def generate(d):
    n = d.choice(LONG) if d.flag(0.1) else d.integer(1, 9)
    p = d.choice([0.5, 0.25, 0.75])
    occ = [int(d.flag(p)) for _ in range(n)]
    moves = [[d.below(n), d.below(n)] for _ in range(d.integer(1, 8))]
    return {"n": n, "occ": occ, "moves": moves,
            "container": d.choice(["list", "array", "tuple", "int8"])}


def nontrivial(case):
    return sum(case["occ"]) >= 2 and 0 in case["occ"] and len(case["moves"]) >= 3


def make(case):
    occ = case["occ"]
    c = case["container"]
    if c == "array":
        occ = numpy.array(occ)
    elif c == "int8":
        occ = numpy.array(occ, dtype=numpy.int8)
    elif c == "tuple":
        occ = tuple(occ)
    else:
        occ = list(occ)
    from cqcpy.ci_utils import Dstring
    return call("Dstring", Dstring, case["n"], occ)


def execute(case, counter):
    from cqcpy.ci_utils import Dstring
    n = case["n"]
    cur = make(case)
    m = det.mask(case["occ"])
    sign, want_sign = 1, 1
    for i, a in case["moves"]:
        before = det.occ_of(cur)
        got = call("excite(%d,%d) on %s" % (i, a, before), cur.excite, i, a)
        what = "moving %d to %d in %s" % (i, a, before)
        true(what + ": no (sign, determinant) pair", isinstance(got, tuple) and len(got) == 2)
        s, new = got
        ws, wm = det.hop(m, i, a)
        true(what + ": original determinant changed", det.occ_of(cur) == before)
        if ws == 0:
            counter.label("impossible")
            true(what + ": possible although it must not be", new is None)
            continue
        counter.label("number" if i == a else "move")
        if new is None:
            raise Violation(what + ": reported impossible")
        true("%s: sign %s instead of %s" % (what, s, ws), s == ws)
        true("%s: gives %s" % (what, det.occ_of(new)), det.occ_of(new) == det.occ(wm, n))
        true(what + ": wrong size", new.n == n)
        sign *= s
        want_sign *= ws
        # equality depends on size and occupation only
        other = Dstring(n, det.occ(wm, n))
        true(what + ": equal determinants compare different", new == other and other == new)
        true(what + ": different determinants compare equal",
             (new == cur) == (det.occ(wm, n) == before))
        # same number of electrons, in the positions a packed or hashed form might mix up
        for k in (1, 8, 32, 64, n//2):
            turned = det.occ(wm, n)[k % n:] + det.occ(wm, n)[:k % n]
            true("%s: compares equal to %s" % (det.occ(wm, n), turned),
                 (new == Dstring(n, turned)) == (turned == det.occ(wm, n)))
        for p in (0, i, n - 1):
            q = (p + 64) % n
            mixed = det.occ(wm, n)
            mixed[p], mixed[q] = mixed[q], mixed[p]
            true("%s: compares equal to %s" % (det.occ(wm, n), mixed),
                 (new == Dstring(n, mixed)) == (mixed == det.occ(wm, n)))
        true("different sizes compare equal",
             not (Dstring(n + 1, det.occ(wm, n) + [0]) == other))
        cur, m = new, wm
    true("sign of the sequence", sign == want_sign)
    # index lookup in lists, as the CI code uses it
    lst = [Dstring(n, det.occ(x, n)) for x in range(min(2**n, 16))]
    if m < len(lst):
        true("list lookup", call("list lookup", lst.index, cur) == m)
    for wrong in (n + 1, n - 1, 2*n + 3, 0):
        try:
            Dstring(wrong, case["occ"])
            bad = True
        except Exception:
            bad = False
        true("%d orbitals accepted as %d" % (n, wrong), not bad)
