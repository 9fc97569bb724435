"""C13: spin assembly and extraction against explicit element-by-element placement."""
import numpy
from vlib.engine import call
from vlib.cmp import exactly, same, true
from vlib import problem, gen

ID = "C13"
RULE = "all four sizes at least 1, alpha and beta sizes differ"
ASSUMPTIONS = ["integer and floating values; placement compared exactly, real data only "
               "(complex data is property C26)"]
BUDGET = {"quick": (2500, 90), "thorough": (10000, 400)}
SIZES = problem.U_SMALL + problem.U_ZERO + problem.U_LARGE + [
    (1, 2, 3, 4), (4, 3, 2, 1), (0, 1, 1, 0), (1, 0, 0, 1), (3, 0, 1, 2), (2, 5, 2, 5), (9, 1, 1, 10),
    (1, 9, 10, 2), (1, 17, 2, 1), (17, 1, 1, 3), (1, 1, 1, 18), (2, 1, 17, 1), (7, 6, 5, 8)]


def generate(d):
    return {"size": list(d.spread("size", SIZES)),
            "kind": d.weighted([("int", 1.0), ("uniform", 2.0), ("positive", 1.0),
                                ("graded", 1.0)]),
            "zero": d.weighted([("", 4.0), ("T1", 1.0), ("F", 1.0)]),
            "share": d.weighted([("", 3.0), ("all", 1.0), ("T", 1.0), ("integrals", 1.0)]),
            "herm": d.flag(0.2), "near": d.flag(0.2), "seed": d.seed()}


def nontrivial(case):
    noa, nva, nob, nvb = case["size"]
    return min(case["size"]) >= 1 and (noa, nva) != (nob, nvb)


def execute(case, counter):
    from cqcpy import spin_utils as su
    c = dict(case, dtype="real", tscale=1.0)
    p = problem.make_u(c)
    so = p.so
    noa, nva, nob, nvb = size = p.size
    no = noa + nob
    counter.label("zero-size" if min(size) == 0 else "full-size")
    Fa, Fb, Ia, Ib, Iab = p.blocks()

    # one-electron
    F = call("F_to_spin", su.F_to_spin, Fa, Fb, *size)
    want = gen.f_blocks(so.F, no)
    for k in ("oo", "ov", "vo", "vv"):
        exactly("F_to_spin " + k, getattr(F, k), getattr(want, k))
    Ga, Gb = call("F_to_spatial", su.F_to_spatial, want, *size)
    for k in ("oo", "ov", "vo", "vv"):
        exactly("F_to_spatial alpha " + k, getattr(Ga, k), getattr(Fa, k))
        exactly("F_to_spatial beta " + k, getattr(Gb, k), getattr(Fb, k))

    # amplitudes
    exactly("T1_to_spin", call("T1_to_spin", su.T1_to_spin, p.T1[0], p.T1[1], *size), so.T1)
    got = call("T1_to_spatial", su.T1_to_spatial, so.T1, *size)
    for x, y in zip(got, p.T1):
        exactly("T1_to_spatial", x, y)
    exactly("T2_to_spin", call("T2_to_spin", su.T2_to_spin, *(p.T2 + size)), so.T2)
    got = call("T2_to_spatial", su.T2_to_spatial, so.T2, *size)
    true("T2_to_spatial returns three blocks", len(got) == 3)
    for x, y in zip(got, p.T2):
        exactly("T2_to_spatial", x, y)
    # multipliers go through the same functions with the roles of o and v exchanged
    sw = (nva, noa, nvb, nob)
    exactly("T1_to_spin on multipliers",
            call("T1_to_spin", su.T1_to_spin, p.L1[0], p.L1[1], *sw), so.L1)
    exactly("T2_to_spin on multipliers",
            call("T2_to_spin", su.T2_to_spin, *(p.L2 + sw)), so.L2)

    # denominators
    t = gen.Tensors(case["seed"] + 1, case["kind"])
    eo = [t.array(noa), t.array(nob)]
    ev = [t.array(nva), t.array(nvb)]

    def den(x, y):
        return (ev[x][:, None, None, None] + ev[y][None, :, None, None]
                - eo[x][None, None, :, None] - eo[y][None, None, None, :])
    got = call("D2_to_spin", su.D2_to_spin, den(0, 0), den(0, 1), den(1, 1), *size)
    EO, EV = numpy.concatenate(eo), numpy.concatenate(ev)
    full = (EV[:, None, None, None] + EV[None, :, None, None]
            - EO[None, None, :, None] - EO[None, None, None, :])
    sv = [0]*nva + [1]*nvb
    so_ = [0]*noa + [1]*nob
    nv = nva + nvb
    mask = numpy.zeros((nv, nv, no, no), dtype=bool)
    for a in range(nv):
        for b in range(nv):
            for i in range(no):
                for j in range(no):
                    mask[a, b, i, j] = sv[a] + sv[b] == so_[i] + so_[j]
    same("D2_to_spin", got, numpy.where(mask, full, 0.0), rtol=1e-13)
    exactly("D2_to_spin forbidden elements", got[~mask], numpy.zeros((~mask).sum()))

    # integrals already antisymmetrised within one spin
    want = gen.i_blocks(so.I, no)
    got = call("int_to_spin2", su.int_to_spin2, Ia, Ib, Iab, *size)
    for k in gen.NINE:
        exactly("int_to_spin2 " + k, getattr(got, k), getattr(want, k))
    Ja, Jb, Jab = call("int_to_spatial", su.int_to_spatial, want, noa, nob, nva, nvb)
    for k in gen.NINE:
        exactly("int_to_spatial alpha " + k, getattr(Ja, k), getattr(Ia, k))
        exactly("int_to_spatial beta " + k, getattr(Jb, k), getattr(Ib, k))
    for k in gen.SIXTEEN:
        exactly("int_to_spatial mixed " + k, getattr(Jab, k), getattr(Iab, k))

    # direct integrals
    na, nb = noa + nva, nob + nvb
    Va, Vb, Vab = t.pair(na, na, na, na), t.pair(nb, nb, nb, nb), p.Iab
    q = problem.U(size, p.Fa, p.Fb, Va - Va.transpose((0, 1, 3, 2)),
                  Vb - Vb.transpose((0, 1, 3, 2)), Vab, p.T1, p.T2, p.L1, p.L2)
    got = call("int_to_spin", su.int_to_spin, gen.i_blocks_full(Va, (noa,)*4),
               gen.i_blocks_full(Vb, (nob,)*4), Iab, *size)
    want = gen.i_blocks(q.so.I, no)
    for k in gen.NINE:
        exactly("int_to_spin " + k, getattr(got, k), getattr(want, k))

    # matrices are cheap enough for many orbitals
    if case["seed"] % 8 == 0:
        many = tuple(int(x) for x in t.rng.integers(0, 70, 4))
        noa, nva, nob, nvb = many
        A, B = t.array(noa + nva, noa + nva), t.array(nob + nvb, nob + nvb)
        index = numpy.concatenate([numpy.arange(noa), noa + nva + numpy.arange(nob),
                                   noa + numpy.arange(nva), noa + nva + nob + numpy.arange(nvb)])
        both = numpy.zeros((len(index),)*2)
        both[:noa + nva, :noa + nva] = A
        both[noa + nva:, noa + nva:] = B
        both = both[numpy.ix_(index, index)]
        Fa, Fb = gen.f_blocks(A, noa), gen.f_blocks(B, nob)
        want = gen.f_blocks(both, noa + nob)
        F = call("F_to_spin", su.F_to_spin, Fa, Fb, *many)
        Ga, Gb = call("F_to_spatial", su.F_to_spatial, want, *many)
        for k in ("oo", "ov", "vo", "vv"):
            exactly("F_to_spin %s %s" % (k, many), getattr(F, k), getattr(want, k))
            exactly("F_to_spatial alpha %s %s" % (k, many), getattr(Ga, k), getattr(Fa, k))
            exactly("F_to_spatial beta %s %s" % (k, many), getattr(Gb, k), getattr(Fb, k))
        exactly("T1_to_spin %s" % (many,),
                call("T1_to_spin", su.T1_to_spin, Fa.vo, Fb.vo, *many), want.vo)
        got = call("T1_to_spatial", su.T1_to_spatial, want.vo, *many)
        exactly("T1_to_spatial alpha %s" % (many,), got[0], Fa.vo)
        exactly("T1_to_spatial beta %s" % (many,), got[1], Fb.vo)

    # the general block builder, all sizes different
    a = [t.rng.integers(0, 4) for _ in range(4)]
    b = [t.rng.integers(0, 4) for _ in range(4)]
    blocks = {}
    for s in ("aaaa", "bbbb", "abab", "baba", "abba", "baab"):
        blocks[s] = t.array(*[int((a if c == "a" else b)[k]) for k, c in enumerate(s)])
    ints = [int(x) for x in a + b]
    got = call("int_to_spin_block", su.int_to_spin_block,
               *([blocks[s] for s in ("aaaa", "bbbb", "abab", "baba", "abba", "baab")] + ints))
    want = numpy.zeros([x + y for x, y in zip(a, b)])
    for s, x in blocks.items():
        want[tuple(slice(0, a[k]) if c == "a" else slice(a[k], None)
                   for k, c in enumerate(s))] = x
    exactly("int_to_spin_block", got, want)
