"""C29: integers, single precision and mixed number types against double precision."""
import numpy
from vlib.engine import call
from vlib.cmp import same, true
from vlib import registry

ID = "C29"
RULE = "at least one but not every number argument has the other type, or all of them have"
ASSUMPTIONS = [
    "values are integers or halves of small size, so that every type holds them exactly",
    "raising an error for a number type is accepted and counted",
    "results are compared to 1e-9, with single precision arguments to 2e-5, of the largest "
    "element"]
BUDGET = {"quick": (400, 120), "thorough": (6000, 600)}
GROUPS = ["spin", "blocks", "civec", "ft", "ci", "so", "u", "r", "mol", "sol", "spin", "blocks"]
TYPES = {"int": numpy.int64, "int32": numpy.int32, "single": numpy.float32,
         "csingle": numpy.complex64}
SKIP = ("level", "diff", "excite", "raize", "lower", "strings", "basis")


def generate(d):
    case = registry.draw(d, GROUPS)
    case["type"] = d.choice(["int", "single", "int32", "csingle"])
    case["mode"] = d.choice(["one", "some", "all"])
    case["pick"] = d.seed()
    return case


def nontrivial(case):
    return True


def numbers(x):
    """Arrays of matrix elements, amplitudes or coefficients; not occupations."""
    if isinstance(x, list) or hasattr(x, "occ"):
        return False
    found = []
    registry.map_tree(lambda y: found.append(y) or y, x)
    return len(found) > 0


def rounded(x):
    """Integers of small size with the permutation symmetries of x."""
    return numpy.trunc(3*x)


def execute(case, counter):
    counter.label(case["group"])
    rng = numpy.random.Generator(numpy.random.PCG64(case["pick"]))
    new = TYPES[case["type"]]
    single = "single" in case["type"]
    for name, fn, args, kw in registry.entries(case):
        if any(s in name for s in SKIP):
            continue
        slots = [k for k, x in enumerate(args) if numbers(x)]
        if not slots and case["group"] != "ft":
            continue
        if case["mode"] == "all":
            chosen = slots
        elif case["mode"] == "one" and slots:
            chosen = [slots[int(rng.integers(len(slots)))]]
        else:
            chosen = [k for k in slots if rng.random() < 0.5] or slots[:1]
        base = [registry.map_tree(rounded, x) if k in chosen else x
                for k, x in enumerate(args)]
        if case["group"] == "ft" and not single:
            # scalars as integers too; the inverse temperature stays positive
            base = [float(max(1, round(x)) if k == 0 else round(x))
                    if isinstance(x, float) else x for k, x in enumerate(base)]
        cast = [registry.map_tree(lambda y: y.astype(new), x) if k in chosen else x
                for k, x in enumerate(base)]
        if case["group"] == "ft" and not single:
            cast = [int(x) if isinstance(x, float) else x for x in cast]
        if case["mode"] == "all":
            # sizes and indices as the numpy integers that arrays hand out
            cast = [numpy.int64(x) if type(x) is int else x for x in cast]
        what = "%s with argument%s %s of type %s" % (
            name, "" if len(chosen) == 1 else "s", ",".join(str(k) for k in chosen),
            numpy.dtype(new).name)
        try:
            res = registry.flat(fn(*cast, **kw))
        except Exception:
            counter.label("raised")
            continue
        counter.label("compared")
        ref = registry.flat(call(name, fn, *base, **kw))
        true("%s: structure of the result differs" % what,
             [k for k, _ in res] == [k for k, _ in ref])
        for (k, x), (_, y) in zip(res, ref):
            same("%s: %s" % (what, k), x, y, rtol=2e-5 if single else 1e-9)
