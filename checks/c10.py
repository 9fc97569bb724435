"""C10: orbital rotations and non-interacting subsystems, for every spin form."""
import numpy
from vlib.engine import call
from vlib.cmp import same, shaped, true
from vlib import problem, gen
from vlib.ccref import ein

ID = "C10"
RULE = "at least 2 occupied and 2 virtual orbitals (rotations), or two subsystems of which " \
       "one has more than one occupied or virtual orbital; no tensor zeroed"
ASSUMPTIONS = [
    "rotations are real orthogonal, made from a random matrix or a signed permutation",
    "in the combined system the amplitudes and multipliers coupling the subsystems are zero; "
    "Lambda updates and two-particle densities then couple them by products of "
    "one-particle quantities only"]
BUDGET = {"quick": (300, 120), "thorough": (4000, 700)}
KIND = {"a": "v", "b": "v", "c": "v", "d": "v", "i": "o", "j": "o", "k": "o", "l": "o"}
SO = [(2, 2), (1, 2), (2, 1), (2, 3), (3, 3), (4, 4), (3, 6), (6, 4), (5, 8), (8, 6)]
USIZES = problem.U_SMALL + problem.U_LARGE[:3]
RS = problem.R_SMALL + [(3, 3), (3, 5), (5, 3)]
PAIRS = [((1, 1), (1, 1)), ((2, 2), (1, 1)), ((1, 2), (2, 1)), ((2, 2), (2, 3)),
         ((3, 2), (1, 2)), ((2, 3), (3, 2))]
UPAIRS = [((1, 1, 1, 1), (1, 1, 1, 1)), ((1, 2, 1, 1), (2, 1, 1, 2)),
          ((2, 2, 1, 1), (1, 1, 1, 2)), ((1, 1, 2, 1), (2, 2, 2, 2))]
D1 = ["1rdm_ba", "1rdm_ji", "1rdm_ai"]
D2 = ["2rdm_cdab", "2rdm_ciab", "2rdm_bcai", "2rdm_bjai", "2rdm_abij", "2rdm_jkai",
      "2rdm_kaij", "2rdm_klij"]
OPT = ["1rdm_ai_opt", "2rdm_cdab_opt", "2rdm_bcai_opt", "2rdm_bjai_opt", "2rdm_abij_opt",
       "2rdm_kaij_opt", "2rdm_klij_opt"]
USPIN = {"ciab": "aaaa bbbb abab baba", "jkai": "aaaa bbbb abab baba",
         "cdab": "aaaa bbbb abab", "bjai": "aaaa bbbb abab abba baab baba",
         "klij": "aaaa bbbb abab", "bcai": "aaaa bbbb abab baba",
         "kaij": "aaaa bbbb abab baba", "abij": "aaaa bbbb abab"}


def generate(d):
    case = {"law": d.spread("law", ["rotate", "separate"]),
            "form": d.spread("form", ["so", "u", "r"])}
    if case["law"] == "rotate":
        if case["form"] == "so":
            case["no"], case["nv"] = d.spread("so", SO)
        elif case["form"] == "u":
            case["size"] = list(d.spread("u", USIZES))
        else:
            case["no"], case["nv"] = d.spread("r", RS)
        case["perm"] = d.flag(0.3)
    elif case["form"] == "u":
        case["pair"] = [list(x) for x in d.choice(UPAIRS)]
    else:
        case["pair"] = [list(x) for x in d.choice(PAIRS)]
    case.update(problem.draw_tensor_case(d))
    return case


def nontrivial(case):
    if case["zero"]:
        return False
    if case["law"] == "separate":
        return max(max(x) for x in case["pair"]) > 1
    return min(case.get("size", [case.get("no"), case.get("nv")])) >= 2


# ------------------------------------------------------------------ everything computed
def results(form, p):
    """name -> (list of (index kinds, spins), list of tensors) for every function."""
    from cqcpy import cc_equations as eq, cc_energy as en
    out = {}

    def put(name, sig, got):
        true("%s returns %d tensors" % (name, len(sig)), len(got) == len(sig))
        out[name] = (sig, list(got))

    def kinds(name):
        return "".join(KIND[c] for c in name)
    if form == "so":
        F, I = p.Fb(), p.Ib()
        T, L = (p.T1, p.T2), (p.L1, p.L2)
        s1, s2 = [("vo", ""), ("vvoo", "")], [("ov", ""), ("oovv", "")]
        for n in ("cc_energy", "mp2_energy"):
            put(n, [("", "")], [call(n, getattr(en, n), p.T1, p.T2, F.ov, I.oovv)])
        for n in ("ccsd_simple", "ccsd_stanton", "lccsd_simple"):
            put(n, s1, call(n, getattr(eq, n), F, I, *T))
        for n in ("ccd_simple", "ccd_stanton", "lccd_simple"):
            put(n, s1[1:], [call(n, getattr(eq, n), F, I, p.T2)])
        for n in ("ccd_ladder_simple", "ccd_ring_simple"):
            put(n, s1[1:], [call(n, getattr(eq, n), I, p.T2)])
        for n in ("ccsd_lambda_simple", "ccsd_lambda_opt", "ccsd_lambda_stanton"):
            put(n, s2, call(n, getattr(eq, n), F, I, *(L + T)))
        x = call("lambda_int", eq.lambda_int, F, I, *T)
        put("ccsd_lambda_opt_int", s2, call("ccsd_lambda_opt_int", eq.ccsd_lambda_opt_int,
                                            F, I, *(L + T + (x,))))
        put("ccd_lambda_simple", s2[1:], [call("ccd_lambda_simple", eq.ccd_lambda_simple,
                                               F, I, p.L2, p.T2)])
        for n in D1 + D2 + OPT:
            put(n, [(kinds(n.split("_")[1]), "")],
                [call(n, getattr(eq, "ccsd_" + n), *(T + L))])
        return out
    if form == "u":
        b = p.blocks()
        s1 = [("vo", "aa"), ("vo", "bb"), ("vvoo", "aaaa"), ("vvoo", "abab"),
              ("vvoo", "bbbb")]
        s2 = [(k[len(k)//2:] + k[:len(k)//2], s) for k, s in s1]
        e = (p.T1, p.T2, b[0].ov, b[1].ov, b[2].oovv, b[3].oovv, b[4].oovv)
        for n in ("ucc_energy", "ump2_energy"):
            put(n, [("", "")], [call(n, getattr(en, n), *e)])
        x = call("uccsd_stanton", eq.uccsd_stanton, *(b + (p.T1, p.T2)))
        put("uccsd_stanton", s1, list(x[0]) + list(x[1]))
        x = call("uccsd_lambda_opt", eq.uccsd_lambda_opt, *(b + (p.L1, p.L2, p.T1, p.T2)))
        put("uccsd_lambda_opt", s2, list(x[0]) + list(x[1]))
        for n in D1:
            put(n, [(kinds(n[5:]), "aa"), (kinds(n[5:]), "bb")],
                call(n, getattr(eq, "uccsd_" + n), *p.amps()))
        for n in D2:
            put(n, [(kinds(n[5:]), s) for s in USPIN[n[5:]].split()],
                call(n, getattr(eq, "uccsd_" + n), *p.amps()))
        return out
    F, I = p.blocks()
    T, L = (p.T1, p.T2), (p.L1, p.L2)
    put("rcc_energy", [("", "")], [call("rcc_energy", en.rcc_energy, p.T1, p.T2, F.ov,
                                        I.oovv)])
    put("rccsd_stanton", [("vo", "aa"), ("vvoo", "abab")],
        call("rccsd_stanton", eq.rccsd_stanton, F, I, *T))
    put("rccsd_lambda_opt", [("ov", "aa"), ("oovv", "abab")],
        call("rccsd_lambda_opt", eq.rccsd_lambda_opt, F, I, *(L + T)))
    for n in D1:
        put(n, [(kinds(n[5:]), "aa")], [call(n, getattr(eq, "rccsd_" + n), *(T + L))])
    for n in D2 + ["2rdm_bjia"]:
        put(n, [(kinds(n[5:]), "abab")], [call(n, getattr(eq, "rccsd_" + n), *(T + L))])
    return out


# ------------------------------------------------------------------------- rotations
def rotation(rng, n, perm):
    if n == 0:
        return numpy.zeros((0, 0))
    if perm:
        u = numpy.zeros((n, n))
        u[numpy.arange(n), rng.permutation(n)] = rng.choice([-1.0, 1.0], n)
        return u
    return numpy.linalg.qr(rng.standard_normal((n, n)))[0]


def turn(x, us):
    for k, u in enumerate(us):
        x = numpy.moveaxis(numpy.tensordot(u, x, axes=(1, k)), 0, k)
    return x


def full(uo, uv):
    no, nv = uo.shape[0], uv.shape[0]
    u = numpy.zeros((no + nv, no + nv))
    u[:no, :no] = uo
    u[no:, no:] = uv
    return u


def rotated(form, p, rng, perm):
    """(rotated problem, rotation per (kind, spin))"""
    if form == "u":
        noa, nva, nob, nvb = p.size
        U = {"oa": rotation(rng, noa, perm), "va": rotation(rng, nva, perm),
             "ob": rotation(rng, nob, perm), "vb": rotation(rng, nvb, perm)}
        a, b = full(U["oa"], U["va"]), full(U["ob"], U["vb"])

        def t(x, k, s):
            return turn(x, [U[c + z] for c, z in zip(k, s)])
        q = problem.U(
            p.size, turn(p.Fa, [a, a]), turn(p.Fb, [b, b]), turn(p.Iaa, [a]*4),
            turn(p.Ibb, [b]*4), turn(p.Iab, [a, b, a, b]),
            (t(p.T1[0], "vo", "aa"), t(p.T1[1], "vo", "bb")),
            tuple(t(x, "vvoo", s) for x, s in zip(p.T2, ("aaaa", "abab", "bbbb"))),
            (t(p.L1[0], "ov", "aa"), t(p.L1[1], "ov", "bb")),
            tuple(t(x, "oovv", s) for x, s in zip(p.L2, ("aaaa", "abab", "bbbb"))))
        return q, U
    o, v = rotation(rng, p.no, perm), rotation(rng, p.nv, perm)
    U = {"oa": o, "va": v, "ob": o, "vb": v, "o": o, "v": v}
    w = full(o, v)
    I = p.V if form == "r" else p.I
    cls = problem.R if form == "r" else problem.SO
    q = cls(p.no, p.nv, turn(p.F, [w, w]), turn(I, [w]*4), turn(p.T1, [v, o]),
            turn(p.T2, [v, v, o, o]), turn(p.L1, [o, v]), turn(p.L2, [o, o, v, v]))
    return q, U


def rotate(case, counter):
    form = case["form"]
    p = {"so": problem.make_so, "u": problem.make_u, "r": problem.make_r}[form](case)
    rng = gen.Tensors(case["seed"] + 1).rng
    q, U = rotated(form, p, rng, case["perm"])
    before, after = results(form, p), results(form, q)
    for name in before:
        sig, xs = before[name]
        ys = after[name][1]
        for (kinds, spins), x, y in zip(sig, xs, ys):
            us = [U[c + (spins[k] if spins else "")] for k, c in enumerate(kinds)]
            shaped(name, numpy.asarray(x), [u.shape[0] for u in us])
            same("%s %s after an orbital rotation" % (name, spins), y,
                 turn(numpy.asarray(x), us), rtol=1e-9)


# ------------------------------------------------------------------------ subsystems
def side(x, y, off):
    """x and y placed on the diagonal of a zero tensor; off: sizes of the first system."""
    out = numpy.zeros([m + n for m, n in zip(x.shape, y.shape)],
                      dtype=numpy.result_type(x, y))
    out[tuple(slice(0, m) for m in off)] = x
    out[tuple(slice(m, None) for m in off)] = y
    return out


def interleave(x, y, na, nb):
    """Full-space tensors, occupied orbitals of both systems first.

    na, nb: (occupied, virtual) per index of the first and the second system."""
    out = numpy.zeros([sum(a) + sum(b) for a, b in zip(na, nb)],
                      dtype=numpy.result_type(x, y))
    ia = [list(range(a[0])) + [a[0] + b[0] + k for k in range(a[1])] for a, b in zip(na, nb)]
    ib = [[a[0] + k for k in range(b[0])] + [a[0] + b[0] + a[1] + k for k in range(b[1])]
          for a, b in zip(na, nb)]
    out[numpy.ix_(*ia)] = x
    out[numpy.ix_(*ib)] = y
    return out


def combine(form, p, q):
    def s(x, y):
        return side(x, y, x.shape)
    if form == "u":
        A, B = (p.size[:2], p.size[2:]), (q.size[:2], q.size[2:])

        def f(x, y, spins):
            return interleave(x, y, [A[k] for k in spins], [B[k] for k in spins])
        size = tuple(m + n for m, n in zip(p.size, q.size))
        return problem.U(
            size, f(p.Fa, q.Fa, (0, 0)), f(p.Fb, q.Fb, (1, 1)), f(p.Iaa, q.Iaa, (0,)*4),
            f(p.Ibb, q.Ibb, (1,)*4), f(p.Iab, q.Iab, (0, 1, 0, 1)),
            tuple(s(x, y) for x, y in zip(p.T1, q.T1)),
            tuple(s(x, y) for x, y in zip(p.T2, q.T2)),
            tuple(s(x, y) for x, y in zip(p.L1, q.L1)),
            tuple(s(x, y) for x, y in zip(p.L2, q.L2)))
    A, B = (p.no, p.nv), (q.no, q.nv)
    cls = problem.R if form == "r" else problem.SO
    key = "V" if form == "r" else "I"
    return cls(p.no + q.no, p.nv + q.nv, interleave(p.F, q.F, [A]*2, [B]*2),
               interleave(getattr(p, key), getattr(q, key), [A]*4, [B]*4),
               s(p.T1, q.T1), s(p.T2, q.T2), s(p.L1, q.L1), s(p.L2, q.L2))


def without_multipliers(form, p):
    if form == "u":
        return problem.U(p.size, p.Fa, p.Fb, p.Iaa, p.Ibb, p.Iab, p.T1, p.T2,
                         tuple(0*x for x in p.L1), tuple(0*x for x in p.L2))
    cls = problem.R if form == "r" else problem.SO
    return cls(p.no, p.nv, p.F, p.V if form == "r" else p.I, p.T1, p.T2, 0*p.L1, 0*p.L2)


def one_body(form, res, p):
    """(kind pair, spin) -> one-particle density block, the ov block being L1."""
    L1 = p.L1 if form == "u" else (p.L1, p.L1)
    out = {}
    for k, s in enumerate("ab"):
        j = k if form == "u" else 0
        out["vv", s] = res["1rdm_ba"][1][j]
        out["oo", s] = res["1rdm_ji"][1][j]
        out["vo", s] = res["1rdm_ai"][1][j]
        out["ov", s] = L1[k]
    return out


def separate(case, counter):
    form = case["form"]
    make = {"so": problem.make_so, "u": problem.make_u, "r": problem.make_r}[form]
    parts = []
    for k, size in enumerate(case["pair"]):
        sub = dict(case, seed=case["seed"] + k)
        if form == "u":
            sub["size"] = size
        else:
            sub["no"], sub["nv"] = size
        parts.append(make(sub))
    p, q = parts
    A, B, AB = results(form, p), results(form, q), results(form, combine(form, p, q))
    zp, zq = without_multipliers(form, p), without_multipliers(form, q)
    A0, B0 = results(form, zp), results(form, zq)
    dens = [one_body(form, A, p), one_body(form, B, q)]
    dens0 = [one_body(form, A0, zp), one_body(form, B0, zq)]
    for name in AB:
        sig, xs = AB[name]
        for k, (kinds, spins) in enumerate(sig):
            x = numpy.asarray(xs[k])
            a, b = numpy.asarray(A[name][1][k]), numpy.asarray(B[name][1][k])
            what = "%s %s of two separate systems" % (name, spins)
            if not kinds:
                same(what, x, a + b)
                continue
            want = side(a, b, a.shape)
            m = a.shape
            if "lambda" in name and len(kinds) == 4:
                couple_lambda(form, name, want, spins, m, (p, q), (A0, B0))
            if name.startswith("2rdm"):
                couple_density(form, want, kinds, spins, m, dens, dens0)
            same(what, x, want)


def outer(want, m, x, y, swap, sign, first):
    """Add sign * x[p,r] y[q,s] to the coupled block p in one system, q in the other."""
    # index positions: (0,2),(1,3) when not swapped, (0,3),(1,2) when swapped
    sysx, sysy = (0, 1) if first else (1, 0)
    pos = [sysx, sysy, sysx, sysy] if not swap else [sysx, sysy, sysy, sysx]
    sl = tuple(slice(0, m[k]) if s == 0 else slice(m[k], None) for k, s in enumerate(pos))
    spec = 'pr,qs->pqrs' if not swap else 'ps,qr->pqrs'
    want[sl] += sign*ein(spec, x, y)


def couple_lambda(form, name, want, spins, m, ps, zero):
    """Coupled Lambda doubles: singles multiplier of one times energy gradient of other."""
    if name == "ccd_lambda_simple":
        return
    s = spins or "aaaa"

    def single(k, spin):
        L1 = ps[k].L1
        return L1["ab".index(spin)] if form == "u" else L1

    def grad(k, spin):
        g = zero[k][name][1]
        return g["ab".index(spin)] if form == "u" else g[0]
    for first in (True, False):
        i, j = (0, 1) if first else (1, 0)
        x = (grad(i, s[0]), single(j, s[1]))
        y = (single(i, s[0]), grad(j, s[1]))
        outer(want, m, x[0], x[1], False, 1.0, first)
        outer(want, m, y[0], y[1], False, 1.0, first)
        if form == "so" or s[0] == s[1]:
            outer(want, m, x[0], x[1], True, -1.0, first)
            outer(want, m, y[0], y[1], True, -1.0, first)


def couple_density(form, want, kinds, spins, m, dens, dens0):
    """Coupled two-particle density: product of one-particle densities of which at most
    one contains multipliers."""
    s = spins or "aaaa"
    for swap in (False, True):
        r, t = (3, 2) if swap else (2, 3)
        if spins and (s[0] != s[r] or s[1] != s[t]):
            continue
        kx, ky = kinds[0] + kinds[r], kinds[1] + kinds[t]
        for first in (True, False):
            i, j = (0, 1) if first else (1, 0)
            x, x0 = dens[i][kx, s[0]], dens0[i][kx, s[0]]
            y, y0 = dens[j][ky, s[1]], dens0[j][ky, s[1]]
            sign = -1.0 if swap else 1.0
            outer(want, m, x0, y, swap, sign, first)
            outer(want, m, x - x0, y0, swap, sign, first)


def execute(case, counter):
    counter.label("%s-%s" % (case["law"], case["form"]))
    if case["law"] == "rotate":
        rotate(case, counter)
    else:
        separate(case, counter)
