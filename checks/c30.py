"""C30: memory of returned arrays: not the caller's, not shared, not reused."""
import numpy
from vlib.engine import call
from vlib.cmp import true
from vlib import registry

ID = "C30"
RULE = "the case calls a group of functions with arrays of more than one element (all do)"
ASSUMPTIONS = [
    "functions that cut a tensor into blocks may return parts of the tensor itself",
    "mean-field objects own their orbitals, occupations and k-points",
    "determinants may occur several times in one list of determinants"]
BUDGET = {"quick": (500, 120), "thorough": (6000, 600)}
CUTS = ("F_to_spatial", "int_to_spatial", "make_two_e_blocks", "make_two_e_blocks_full")


def generate(d):
    case = registry.draw(d)
    case["dtype"] = "real" if case["group"] == "ft" else d.choice(["real", "complex"])
    # vanishing and equal data are no reason to hand back an argument or one array twice
    case["data"] = d.weighted([("", 4.0), ("zero", 1.0), ("allzero", 1.0), ("equal", 2.0)])
    if "size" in case and d.flag(0.3):
        case["size"] = list(d.choice([(2, 2, 2, 2), (2, 3, 2, 3), (3, 1, 3, 1)]))
    case["pick"] = d.seed()
    case["seed2"] = d.seed()
    case["order"] = d.seed()
    return case


def nontrivial(case):
    return True


def memory(x, out):
    """All arrays reachable from an argument."""
    registry.map_tree(lambda y: out.append(y) or y, x)
    for y in x if isinstance(x, (tuple, list)) else [x]:
        if registry.is_meanfield(y):
            for k in registry.MF_FIELDS:
                registry.map_tree(lambda z: out.append(z) or z, registry.read(y, k))
    return out


def arrays(res):
    return [(k, v) for k, v in registry.flat(res)
            if isinstance(v, numpy.ndarray) and v.ndim and v.size]


def overlap(x, y):
    return numpy.may_share_memory(x, y) and numpy.shares_memory(x, y)


def filled(args, how, rng):
    """Arguments some or all of whose number arrays are constant."""
    def f(x):
        if x.dtype.kind not in "fc" or how == "zero" and rng.random() < 0.5:
            return x
        return numpy.zeros_like(x) if "zero" in how else numpy.full_like(x, 0.5)
    return tuple(x if isinstance(x, list) or hasattr(x, "occ") or registry.is_meanfield(x)
                 else registry.map_tree(f, x) for x in args)


def execute(case, counter):
    counter.label(case["group"])
    A = registry.entries(case, case["dtype"])
    B = registry.entries(dict(case, seed=case["seed2"]), case["dtype"])
    rng = numpy.random.Generator(numpy.random.PCG64(case["pick"]))
    if case["data"]:
        counter.label(case["data"])
        A = [(name, fn, filled(args, case["data"], rng), kw) for name, fn, args, kw in A]
    counter.label("functions", len(A))
    kept = []
    for name, fn, args, kw in A:
        res = arrays(call(name, fn, *args, **kw))
        if name in CUTS:
            kept.append(None)
            continue
        own = memory(args, memory(tuple(kw.values()), []))
        for k, v in res:
            true("%s: %s is memory of an argument" % (name, k),
                 not any(overlap(v, x) for x in own))
            true("%s: %s cannot be written to" % (name, k), v.flags.writeable)
        data = [(k, v) for k, v in res if v.dtype.kind in "fc"]
        for n, (k, v) in enumerate(data):
            for j, w in data[:n]:
                true("%s: %s and %s are the same memory" % (name, j, k), not overlap(v, w))
        kept.append((res, [v.copy() for _, v in res]))
    # later calls leave a result alone
    rng = numpy.random.Generator(numpy.random.PCG64(case["order"]))
    for k in rng.permutation(len(B)):
        name, fn, args, kw = B[k]
        call(name, fn, *args, **kw)
    for n, ((name, fn, args, kw), old) in enumerate(zip(A, kept)):
        if old is None:
            continue
        for (k, v), c in zip(*old):
            true("%s: %s changed during later calls" % (name, k), numpy.array_equal(v, c))
        again = arrays(call(name, fn, *args, **kw))
        for (k, v), (_, w) in zip(again, old[0]):
            true("%s: %s is the array returned before" % (name, k), not overlap(v, w))
            if w.dtype.kind in "fc":
                w[...] = -7.0
        for (k, v), c in zip(again, old[1]):
            true("%s: %s changed with an earlier result" % (name, k),
                 v.shape == c.shape and numpy.allclose(v, c, rtol=1e-9, atol=1e-9))
