"""C25: shapes, symmetries, consistency and repeatability of the random tensor helpers."""
import numpy
from vlib.engine import call
from vlib.cmp import same, shaped, exactly, true

ID = "C25"
RULE = "every size at least 2 and not all sizes equal"
ASSUMPTIONS = ["the global numpy random state is what determines the tensors",
               "symmetries are compared to 1e-12 of the largest element"]
BUDGET = {"quick": (5000, 60), "thorough": (20000, 300)}
FNS = {"F": 2, "I": 2, "I_anti": 2, "Itot": 1, "Ifull": 2, "Ifull_gen": 8, "integrals": 2,
       "T": 2, "T1_spatial": 4, "T2_spatial": 4, "L": 2, "ft_integrals": 1, "ft_T": 2,
       "ft_T1_spatial": 3, "ft_T2_spatial": 3, "ft_D": 1, "ft_D1": 1, "ft_D2": 2}
NINE = "vvvv vvvo vovv vvoo vovo oovv vooo ooov oooo".split()
SIXTEEN = NINE + "vvov ovvv ovov voov ovvo ovoo oovo".split()


def generate(d):
    name = d.spread("fn", sorted(FNS))
    top = 7 if FNS[name] <= 4 else 4
    if name == "Itot" or name.startswith("ft_"):
        top = 6
    big = d.flag(0.04) and FNS[name] <= 2
    if big:
        top = 13
    sizes = [d.integer(1, top) for _ in range(FNS[name])]
    return {"fn": name, "sizes": sizes, "seed": d.seed(), "other": d.seed()}


def nontrivial(case):
    s = case["sizes"]
    return min(s) >= 2 and (len(s) == 1 or len(set(s)) > 1)


def nonzero(what, x, forced=False):
    """Not identically zero (and not constant) unless empty or forced by symmetry."""
    if not forced and x.size:
        true("%s is identically zero" % what, bool(numpy.any(x != 0)))
        if x.size > 1:
            true("%s is constant" % what, not bool(numpy.all(x == x.flat[0])))


def sym(what, x, perm, sign=1.0):
    same("%s under the permutation %s" % (what, perm), sign*x.transpose(perm), x, rtol=1e-12)


def anti(what, x, lead=0):
    """Antisymmetric in the first two and in the last two (after lead) indices."""
    p = list(range(lead))
    for a, b in ((0, 1), (2, 3)):
        q = [0, 1, 2, 3]
        q[a], q[b] = b, a
        sym(what, x, p + [lead + k for k in q], -1.0)
    nonzero(what, x, x.shape[lead] < 2 or x.shape[lead + 2] < 2)


def free(what, x, lead=0):
    nonzero(what, x)
    slices(what, x, lead)


def slices(what, x, lead):
    if lead and x.shape[0] > 1 and x[0].size > 1 and numpy.any(x[0]):
        true("%s repeats for every point of the grid" % what, not numpy.array_equal(x[0], x[1]))


def fblocks(F, no, nv):
    size = {"o": no, "v": nv}
    for b in ("oo", "ov", "vo", "vv"):
        shaped("F." + b, getattr(F, b, None), [size[c] for c in b])
        nonzero("F." + b, getattr(F, b))
    sym("F.oo", F.oo, (1, 0))
    sym("F.vv", F.vv, (1, 0))
    same("F.vo against F.ov", F.vo, F.ov.T, rtol=1e-12)


def iblocks(I, names, sizes, antisym):
    """Blocks have the right shapes and satisfy every symmetry relating two of them."""
    perms = [((1, 0, 3, 2), 1.0)]
    if antisym:
        perms += [((1, 0, 2, 3), -1.0), ((0, 1, 3, 2), -1.0)]
    if antisym is None:
        perms = []
    for n in names:
        x = shaped("I." + n, getattr(I, n, None), [sizes[k][c] for k, c in enumerate(n)])
        forced = antisym and any(n[k] == n[k+1] and x.shape[k] < 2 for k in (0, 2))
        nonzero("I." + n, x, forced)
    for n in names:
        x = getattr(I, n)
        for perm, sign in perms:
            m = "".join(n[k] for k in perm)
            if m in names:
                same("I.%s from I.%s" % (m, n), getattr(I, m), sign*x.transpose(perm),
                     rtol=1e-12)


def doubles(what, X, rows, cols):
    """aa, ab, bb blocks; rows, cols: (alpha, beta) sizes."""
    true("%s has three blocks" % what, len(X) == 3)
    lead = [rows[2]] if len(rows) > 2 else []
    for x, (s, t), name in zip(X, ((0, 0), (0, 1), (1, 1)), ("aa", "ab", "bb")):
        w = "%s %s" % (what, name)
        shaped(w, x, lead + [rows[s], rows[t], cols[s], cols[t]])
        if s == t:
            anti(w, x, len(lead))
        else:
            free(w, x)
        slices(w, x, len(lead))


def energies(D1):
    """D1[a,i] = e_a - e_i for one set of energies."""
    n = D1.shape[0]
    same("diagonal of the one-particle denominator", numpy.diag(D1), numpy.zeros(n))
    same("one-particle denominator is a difference", D1, D1[:, :1] + D1[:1, :], rtol=1e-12)
    nonzero("one-particle denominator", D1, n < 2)


def check(name, s, X):
    if name in ("F", "I", "I_anti", "Ifull", "integrals"):
        no, nv = s
        size = [{"o": no, "v": nv}]*4
        if name == "integrals":
            true("two sets of integrals", len(X) == 2)
            fblocks(X[0], no, nv)
            iblocks(X[1], NINE, size, True)
        elif name == "F":
            fblocks(X, no, nv)
        else:
            iblocks(X, SIXTEEN if name == "Ifull" else NINE, size, name != "I")
    elif name == "Ifull_gen":
        size = [{"o": s[2*k], "v": s[2*k+1]} for k in range(4)]
        iblocks(X, SIXTEEN, size, None)
    elif name == "Itot":
        shaped("integrals", X, [s[0]]*4)
        for perm in ((1, 0, 3, 2), (2, 3, 0, 1), (3, 2, 1, 0)):
            sym("integrals", X, perm)
        nonzero("integrals", X)
    elif name in ("T", "L"):
        no, nv = s
        a, b = (nv, no) if name == "T" else (no, nv)
        true("singles and doubles", len(X) == 2)
        free("singles", shaped("singles", X[0], (a, b)))
        anti("doubles", shaped("doubles", X[1], (a, a, b, b)))
    elif name == "T1_spatial":
        noa, nva, nob, nvb = s
        true("two blocks", len(X) == 2)
        free("alpha singles", shaped("alpha singles", X[0], (nva, noa)))
        free("beta singles", shaped("beta singles", X[1], (nvb, nob)))
    elif name == "T2_spatial":
        noa, nva, nob, nvb = s
        doubles("doubles", X, (nva, nvb), (noa, nob))
    elif name == "ft_integrals":
        n, = s
        true("two sets of integrals", len(X) == 2)
        nonzero("Fock matrix", shaped("Fock matrix", X[0], (n, n)))
        sym("Fock matrix", X[0], (1, 0))
        anti("integrals", shaped("integrals", X[1], (n,)*4))
    elif name == "ft_T":
        ng, n = s
        true("singles and doubles", len(X) == 2)
        free("singles", shaped("singles", X[0], (ng, n, n)), 1)
        anti("doubles", shaped("doubles", X[1], (ng, n, n, n, n)), 1)
        slices("doubles", X[1], 1)
    elif name == "ft_T1_spatial":
        ng, na, nb = s
        true("two blocks", len(X) == 2)
        free("alpha singles", shaped("alpha singles", X[0], (ng, na, na)), 1)
        free("beta singles", shaped("beta singles", X[1], (ng, nb, nb)), 1)
    elif name == "ft_T2_spatial":
        ng, na, nb = s
        doubles("doubles", X, (na, nb, ng), (na, nb))
    elif name in ("ft_D", "ft_D1"):
        n, = s
        D1 = X[0] if name == "ft_D" else X
        energies(shaped("one-particle denominator", D1, (n, n)))
        if name == "ft_D":
            true("two denominators", len(X) == 2)
            D2 = shaped("two-particle denominator", X[1], (n,)*4)
            same("two-particle denominator", D2,
                 D1[:, None, :, None] + D1[None, :, None, :], rtol=1e-12)
    else:
        na, nb = s
        D2 = shaped("two-particle denominator", X, (na, nb, na, nb))
        A, B = D2[:, 0, :, 0], D2[0, :, 0, :]
        energies(A)
        energies(B)
        same("two-particle denominator", D2, A[:, None, :, None] + B[None, :, None, :],
             rtol=1e-12)


def leaves(X):
    if isinstance(X, numpy.ndarray):
        return [X]
    if isinstance(X, (tuple, list)):
        return [y for x in X for y in leaves(x)]
    return [y for b in SIXTEEN + ["oo", "ov", "vo", "vv"]
            if getattr(X, b, None) is not None for y in leaves(getattr(X, b))]


def execute(case, counter):
    from cqcpy import test_utils
    name, s = case["fn"], case["sizes"]
    counter.label(name)
    fn = getattr(test_utils, "make_random_" + name)

    def get(seed):
        numpy.random.seed(seed)
        return call("make_random_" + name, fn, *s)
    X = get(case["seed"])
    check(name, s, X)
    first = [x.copy() for x in leaves(X)]
    Z = leaves(get(case["other"]))
    for x, y in zip(leaves(X), first):
        exactly("an earlier result after another call", x, y)
    again = leaves(get(case["seed"]))
    true("the same number of tensors", len(again) == len(first) == len(Z))
    for x, y in zip(first, again):
        exactly("a tensor from an equal random state", y, x)
    if case["seed"] != case["other"] and any(x.size > 1 and numpy.any(x) for x in first):
        true("different random states give equal tensors",
             any(not numpy.array_equal(x, z) for x, z in zip(first, Z)))
