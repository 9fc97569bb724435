"""C18: excitation operators on CI vectors against bit-string operators."""
import numpy
from vlib.engine import call
from vlib.cmp import same
from vlib import det, fock, gen

ID = "C18"
RULE = "basis of at least four determinants and at least one matrix element is non-zero " \
       "over the operators tried (counted by label 'nonzero')"
ASSUMPTIONS = ["a double excitation is the product of its two single excitations, first "
               "the first pair of indices and then the second"]
BUDGET = {"quick": (4000, 60), "thorough": (15000, 400)}


def generate(d):
    form = d.choice(["g", "u"])
    n = d.choice([3, 2, 4, 5, 1, 6]) if form == "g" else d.choice([2, 3, 1, 4])
    case = {"form": form, "n": n, "nbasis": d.choice([4, 8, 2, 15, 30]),
            "ops": [[d.below(n) for _ in range(4)] for _ in range(d.integer(1, 6))],
            "mixed": d.flag(0.25), "seed": d.seed()}
    if d.flag(0.08):
        case["n"] = n = d.choice([9, 12, 17, 33, 40, 65])
        case["long"] = True
        case["ops"] = [[d.below(n) for _ in range(4)] for _ in range(3)]
    case["fill"] = [d.integer(0, n), d.integer(0, n)]
    return case


def nontrivial(case):
    return case["nbasis"] >= 4 and 0 < case["fill"][0] < case["n"]


def project(basis, vec, ops):
    """Basis projection of a product of hops, rightmost first; ops on joined masks."""
    pos = {m: k for k, m in enumerate(basis)}
    out = numpy.zeros(len(basis), dtype=vec.dtype)
    for k, m in enumerate(basis):
        sign, x = 1, m
        for i, a in ops:
            s, x = det.hop(x, i, a)
            sign *= s
            if s == 0:
                break
        else:
            if x in pos:
                out[pos[x]] += sign*vec[k]
    return out


def reachable(rng, n, case):
    """Determinants connected by the operators of the case."""
    def some(k):
        return sum(1 << int(p) for p in rng.permutation(n)[:k])
    g = case["form"] == "g"
    out = []
    for i, j, a, b in case["ops"]:
        for _ in range(3):
            x = some(case["fill"][0])
            for p in (i, j):
                x |= (1 << p)*int(rng.integers(2))
            for p in (a, b):
                x &= ~((1 << p)*int(rng.integers(2)))
            if not g:
                y = some(case["fill"][1])
                for p in (i, j):
                    y |= (1 << p)*int(rng.integers(2))
                x |= y << n
            ops = [[(i, a)], [(i, a), (j, b)]]
            if not g:
                ops += [[(i + n, a + n)], [(i + n, a + n), (j + n, b + n)],
                        [(i, a), (j + n, b + n)]]
            out.append(x)
            for moves in ops:
                m = x
                for p, q in moves:
                    s, m = det.hop(m, p, q)
                    if not s:
                        break
                else:
                    out.append(m)
    return sorted(set(out))


def execute(case, counter):
    from cqcpy import ci_utils as ci
    n = case["n"]
    rng = gen.Tensors(case["seed"]).rng
    fa, fb = case["fill"]
    if case.get("long"):
        pool = reachable(rng, n, case)
        counter.label("long")
    elif case["form"] == "g":
        # possibly determinants with different electron numbers
        pool = list(range(2**n)) if case["mixed"] else fock.dets(n, fa)
    else:
        if case["mixed"]:
            pool = list(range(4**n))
        else:
            pool = [x | y << n for x in fock.dets(n, fa) for y in fock.dets(n, fb)]
    pick = rng.permutation(len(pool))[:case["nbasis"]]
    masks = [pool[k] for k in pick]
    vec = rng.uniform(-1, 1, len(masks))
    if case["form"] == "g":
        basis = [ci.Dstring(n, det.occ(m, n)) for m in masks]
    else:
        basis = [(ci.Dstring(n, det.occ(m & (2**n - 1), n)), ci.Dstring(n, det.occ(m >> n, n)))
                 for m in masks]
    perm = rng.permutation(len(masks))
    pbasis = [basis[k] for k in perm]
    pvec = vec[perm]

    def check(name, args, ops):
        ref = project(masks, vec, ops)
        if ref.any():
            counter.label("nonzero")
        counter.label(name)
        fn = getattr(ci, name)
        what = "%s%s" % (name, tuple(args))
        same(what, call(what, fn, basis, vec, *args), ref, rtol=1e-13)
        same(what + " with the basis reordered",
             call(what, fn, pbasis, pvec, *args), ref[perm], rtol=1e-13)
        same(what + " on a scaled vector",
             call(what, fn, basis, -2.5*vec, *args), -2.5*ref, rtol=1e-13)

    for i, j, a, b in case["ops"]:
        if case["form"] == "g":
            check("s_on_vec", (i, a), [(i, a)])
            check("d_on_vec", (i, j, a, b), [(i, a), (j, b)])
        else:
            check("sa_on_vec", (i, a), [(i, a)])
            check("sb_on_vec", (i, a), [(i + n, a + n)])
            check("da_on_vec", (i, j, a, b), [(i, a), (j, b)])
            check("db_on_vec", (i, j, a, b), [(i + n, a + n), (j + n, b + n)])
            check("sasb_on_vec", (i, j, a, b), [(i, a), (j + n, b + n)])
