"""C14: blocking, denominators and block-diagonal assembly, element by element."""
import itertools
import numpy
from vlib.engine import call
from vlib.cmp import exactly, same, true
from vlib import gen

ID = "C14"
RULE = "the eight sizes are not all equal and none is zero"
ASSUMPTIONS = ["a shape that does not match must raise any exception"]
BUDGET = {"quick": (4000, 60), "thorough": (20000, 300)}


def generate(d):
    pool = d.weighted([([1, 2, 3, 0, 4], 7.0), ([2, 3, 5, 1], 3.0), ([1, 2, 9, 4, 11], 0.3),
                       ([1, 0, 3, 17], 0.3)])
    return {"sizes": [d.choice(pool) for _ in range(8)],
            # the spins have equal, nearly equal or the same energies
            "energies": d.weighted([("", 3.0), ("near", 1.0), ("equal", 1.0)]),
            "same": d.flag(0.2), "seed": d.seed(),
            "kind": d.weighted([("int", 1.0), ("uniform", 2.0), ("graded", 1.0), ("sparse", 0.5)]),
            "diag": [d.choice([1, 3, 40, 70]) for _ in range(4)] if d.flag(0.05) else [],
            "dtype": d.weighted([("real", 2.0), ("complex", 1.0)])}


def nontrivial(case):
    return not case["same"] and min(case["sizes"]) > 0 and len(set(case["sizes"])) > 1


def execute(case, counter):
    from cqcpy import ov_blocks as ob, utils
    s = list(case["sizes"])
    if case["same"]:
        s = s[:2]*4
    nos, nvs = s[0::2], s[1::2]
    t = gen.Tensors(case["seed"], case["kind"], case["dtype"])
    shape = [x + y for x, y in zip(nos, nvs)]
    I = t.array(*shape)
    full = call("make_two_e_blocks_full", ob.make_two_e_blocks_full, I, *s)
    nine = call("make_two_e_blocks", ob.make_two_e_blocks, I, *s)
    for names, obj in ((gen.SIXTEEN, full), (gen.NINE, nine)):
        for name in names:
            exactly("block " + name, getattr(obj, name), gen.cut(I, name, nos))
    # containers keep each argument under its own name
    vals = {k: gen.cut(I, k, nos) for k in gen.SIXTEEN}
    obj = call("two_e_blocks_full", ob.two_e_blocks_full, **vals)
    for k in gen.SIXTEEN:
        exactly("two_e_blocks_full " + k, getattr(obj, k), vals[k])
    obj = call("two_e_blocks", ob.two_e_blocks, **{k: vals[k] for k in gen.NINE})
    for k in gen.NINE:
        exactly("two_e_blocks " + k, getattr(obj, k), vals[k])
    f = [t.array(2, 2) for _ in range(4)]
    obj = call("one_e_blocks", ob.one_e_blocks, *f)
    for k, x in zip(("oo", "ov", "vo", "vv"), f):
        exactly("one_e_blocks " + k, getattr(obj, k), x)
    # wrong shapes are rejected
    for k, step in itertools.product(range(8), (1, -1, 3)):
        bad = list(s)
        bad[k] += step
        if bad[k] < 0:
            continue
        for fn in (ob.make_two_e_blocks_full, ob.make_two_e_blocks):
            try:
                fn(I, *bad)
                rejected = False
            except Exception:
                rejected = True
            true("size %d wrong by %d accepted" % (k, step), rejected)
    # denominators
    r = gen.Tensors(case["seed"] + 1, case["kind"])
    nv, no, nvb, nob = s[0], s[1], s[2], s[3]
    ev, eo, evb, eob = r.array(nv), r.array(no), r.array(nvb), r.array(nob)
    if case["energies"] == "equal":
        evb, eob = ev, eo
    elif case["energies"] == "near":
        evb, eob = (1 + 1e-7)*ev, (1 - 1e-6)*eo
    nvb, nob = len(evb), len(eob)
    d1 = call("D1", utils.D1, ev, eo)
    d2 = call("D2", utils.D2, ev, eo)
    d2u = call("D2u", utils.D2u, ev, evb, eo, eob)
    w1, w2 = numpy.zeros((nv, no)), numpy.zeros((nv, nv, no, no))
    w2u = numpy.zeros((nv, nvb, no, nob))
    for a, i in itertools.product(range(nv), range(no)):
        w1[a, i] = ev[a] - eo[i]
    for a, b, i, j in itertools.product(range(nv), range(nv), range(no), range(no)):
        w2[a, b, i, j] = ev[a] + ev[b] - eo[i] - eo[j]
    for a, b, i, j in itertools.product(range(nv), range(nvb), range(no), range(nob)):
        w2u[a, b, i, j] = ev[a] + evb[b] - eo[i] - eob[j]
    same("D1", d1, w1, rtol=1e-13)
    same("D2", d2, w2, rtol=1e-13)
    same("D2u", d2u, w2u, rtol=1e-13)
    # block diagonal
    s[4:] = case["diag"] or s[4:]
    A, B = t.array(s[4], s[5]), t.array(s[6], s[7])
    if case["same"]:
        B = A.copy() if case["seed"] % 2 else A
        s[6:] = s[4:6]
    got = call("block_diag", utils.block_diag, A, B)
    want = numpy.zeros((s[4] + s[6], s[5] + s[7]), dtype=A.dtype)
    want[:s[4], :s[5]] = A
    want[s[4]:, s[5]:] = B
    exactly("block_diag", got, want)
