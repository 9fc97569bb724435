"""C11: argument snapshots, memory layouts and call sequences over all public functions."""
import numpy
from vlib.engine import call
from vlib.cmp import same, true
from vlib import registry

ID = "C11"
RULE = "the case calls a group of functions with arrays of more than one element (all do)"
ASSUMPTIONS = [
    "mean-field objects are watched through their orbitals, occupations and k-points",
    "results of equal calls agree to 1e-11 relative (summation order may depend on layout)"]
BUDGET = {"quick": (300, 180), "thorough": (4000, 600)}
LAYOUTS = ["fortran", "strided", "readonly", "reversed", "offset"]


def generate(d):
    case = registry.draw(d)
    case["dtype"] = d.choice(["real", "complex"])
    if case["group"] in ("ft",):
        case["dtype"] = "real"
    case["layout"] = d.choice(LAYOUTS)
    case["seed2"] = d.seed()
    case["order"] = d.seed()
    case["tie"] = d.choice(["boxes", "arrays"])
    case["rate"] = d.choice([1.0, 0.5])
    return case


def nontrivial(case):
    return True


def relay(x, layout):
    """The same values in another memory layout."""
    if x.ndim == 0:
        return x.copy()
    if layout == "fortran":
        return numpy.asfortranarray(x.copy())
    if layout == "readonly":
        y = x.copy()
        y.flags.writeable = False
        return y
    if layout == "reversed":
        s = tuple(slice(None, None, -1) for _ in x.shape)
        return x[s].copy()[s]
    if layout == "offset":
        big = numpy.zeros([k + 2 for k in x.shape], dtype=x.dtype) - 3.5
        v = big[tuple(slice(1, 1 + k) for k in x.shape)]
        v[...] = x
        return v
    big = numpy.zeros([2*k for k in x.shape], dtype=x.dtype) + 9.0
    v = big[tuple(slice(None, None, 2) for _ in x.shape)]
    v[...] = x
    return v


def settle(res):
    """Result as detached arrays."""
    out = registry.flat(res)
    return [(k, numpy.array(v, dtype=int if v.dtype == bool else None)) for k, v in out]


def overwrite(res, args, kw):
    """A caller reuses the arrays it was given back, unless they are parts of the input."""
    own = []
    registry.map_tree(lambda x: own.append(x) or x, [args, kw])
    for k, v in registry.flat(res):
        if v.ndim and v.size and v.flags.writeable and v.dtype.kind in "ifc" and \
                not any(numpy.may_share_memory(v, x) for x in own):
            v[...] = -7


def surroundings():
    """Settings shared by everything that uses numpy in this process."""
    r = numpy.random.get_state()
    return (numpy.geterr(), numpy.get_printoptions(), r[0], r[1].tobytes(), r[2:])


def agree(what, got, want):
    true("%s: structure of the result changed" % what,
         [k for k, _ in got] == [k for k, _ in want])
    for (k, x), (_, y) in zip(got, want):
        same("%s: %s" % (what, k), x, y, rtol=1e-11)


def execute(case, counter):
    counter.label(case["group"])
    A = registry.entries(case, case["dtype"])
    other = dict(case, seed=case["seed2"])
    B = registry.entries(other, case["dtype"])
    counter.label("functions", len(A))
    outside = surroundings()
    first = []
    for name, fn, args, kw in A:
        before = registry.freeze([args, kw])
        res = call(name, fn, *args, **kw)
        first.append(settle(res))
        true("%s changed the random state or the numerical settings" % name,
             surroundings() == outside)
        overwrite(res, args, kw)
        diff = registry.changed(before, registry.freeze([args, kw]))
        true("%s changed its input: %s" % (name, diff), diff is None)
    # other calls in between, in a random order
    rng = numpy.random.Generator(numpy.random.PCG64(case["order"]))
    for k in rng.permutation(len(B)):
        name, fn, args, kw = B[k]
        call(name, fn, *args, **kw)
    for k in rng.permutation(len(A)):
        name, fn, args, kw = A[k]
        agree(name + " called again", settle(call(name, fn, *args, **kw)), first[k])
        args2 = registry.map_tree(lambda x: relay(x, case["layout"]), args)
        before = registry.freeze([args2, kw])
        agree("%s with %s arguments" % (name, case["layout"]),
              settle(call(name, fn, *args2, **kw)), first[k])
        diff = registry.changed(before, registry.freeze([args2, kw]))
        true("%s changed its input: %s" % (name, diff), diff is None)
    # equal inputs passed as one object or as separate copies
    for name, fn, args, kw in A:
        own = registry.map_tree(lambda x: x.copy(), args)
        tied = registry.tie(own, rng, case["rate"], case["tie"], {})
        apart = registry.map_tree(lambda x: x.copy(), tied)
        want = settle(call(name, fn, *apart, **kw))
        counter.label("tied")
        before = registry.freeze([tied, kw])
        agree("%s with equal %s passed as one object" % (name, case["tie"]),
              settle(call(name, fn, *tied, **kw)), want)
        diff = registry.changed(before, registry.freeze([tied, kw]))
        true("%s changed its input: %s" % (name, diff), diff is None)
    # the same array objects holding new values
    for (name, fn, args, kw), (_, _, brgs, bkw) in zip(A, B):
        if any(registry.is_meanfield(x) for x in args):
            continue
        src = []
        registry.map_tree(lambda x: src.append(x) or x, brgs)
        dst = []
        own = registry.map_tree(lambda x: x.copy(), args)
        registry.map_tree(lambda x: dst.append(x) or x, own)
        rest_a = registry.freeze(registry.map_tree(lambda x: None, args))
        rest_b = registry.freeze(registry.map_tree(lambda x: None, brgs))
        if registry.changed(rest_a, rest_b) or len(src) != len(dst) or not src or \
                any(x.shape != y.shape for x, y in zip(src, dst)):
            continue
        call(name, fn, *own, **kw)
        for x, y in zip(dst, src):
            x[...] = y
        counter.label("refilled")
        agree("%s with refilled arrays" % name, settle(call(name, fn, *own, **kw)),
              settle(call(name, fn, *brgs, **bkw)))
