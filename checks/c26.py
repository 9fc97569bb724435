"""C26: results for complex data against analytic continuation of results for real data."""
import numpy
from vlib.engine import call
from vlib.cmp import same, true
from vlib import registry

ID = "C26"
RULE = "some but not all array arguments complex, or all of them; imaginary parts non-zero"
ASSUMPTIONS = [
    "every function tried is a polynomial of total degree at most 8 in its array arguments, "
    "so values on the real line determine the value at the imaginary unit",
    "raising an error for a mixture of real and complex arguments is accepted and counted",
    "integral transformations conjugate coefficients and are covered with complex "
    "coefficients by C22 to C24"]
BUDGET = {"quick": (420, 120), "thorough": (4000, 600)}
GROUPS = ["spin", "civec", "ci", "blocks", "so", "u", "r", "spin", "civec"]
NODES = numpy.cos(numpy.pi*(2*numpy.arange(9) + 1)/18.0)
SKIP = ("level", "diff", "excite", "raize", "lower", "strings", "basis")


def weights(z):
    return [numpy.prod([(z - y)/(x - y) for y in NODES if y != x]) for x in NODES]


W = {1.0: weights(1j), 1e-6: weights(1e-6j)}


def generate(d):
    case = registry.draw(d, GROUPS)
    case["mode"] = d.choice(["all", "some", "one", "zero"])
    # size of the imaginary part; whether there is a real part
    case["im"] = d.weighted([(1.0, 3.0), (1e-6, 1.0)])
    case["real"] = case["im"] < 1.0 or not d.flag(0.15)
    case["pick"] = d.seed()
    return case


def nontrivial(case):
    return case["mode"] != "zero"


def numbers(x):
    """Arrays of matrix elements, amplitudes or coefficients; not occupations."""
    if isinstance(x, list) or hasattr(x, "occ"):
        return False
    found = []
    registry.map_tree(lambda y: found.append(y) or y, x)
    return len(found) > 0


def execute(case, counter):
    counter.label(case["group"])
    rng = numpy.random.Generator(numpy.random.PCG64(case["pick"]))
    for name, fn, args, kw in registry.entries(case):
        if any(s in name for s in SKIP):
            continue
        slots = [k for k, x in enumerate(args) if numbers(x)]
        if not slots:
            continue
        if case["mode"] in ("all", "zero"):
            chosen = slots
        elif case["mode"] == "one":
            chosen = [slots[int(rng.integers(len(slots)))]]
        else:
            chosen = [k for k in slots if rng.random() < 0.5] or slots[:1]

        def imag(x):
            # keeps permutation symmetries of the tensor
            return 0.6*x[tuple(slice(None, None, -1) for _ in x.shape)] + 0.3*x
        parts = [registry.map_tree(imag, x) if k in chosen else None
                 for k, x in enumerate(args)]

        def at(z):
            out = []
            for k, x in enumerate(args):
                if k not in chosen:
                    out.append(x)
                    continue
                b = []
                registry.map_tree(lambda y: b.append(y) or y, parts[k])
                it = iter(b)
                base = 1.0 if case["real"] else 0.0
                out.append(registry.map_tree(lambda y: base*y + z*next(it), x))
            return out
        what = "%s with argument%s %s complex" % (
            name, "" if len(chosen) == 1 else "s", ",".join(str(k) for k in chosen))
        if case["mode"] == "zero":
            ref = registry.flat(call(name, fn, *args, **kw))
            true("%s: complex result for real data" % name,
                 not any(x.dtype.kind == "c" for _, x in ref))
            cast = [registry.map_tree(lambda y: y.astype(complex), x) if numbers(x) else x
                    for x in args]
            try:
                res = registry.flat(fn(*cast, **kw))
            except Exception:
                counter.label("raised")
                continue
            true("%s: structure of the result differs" % name,
                 [k for k, _ in res] == [k for k, _ in ref])
            for (k, x), (_, y) in zip(res, ref):
                same("%s on complex data without imaginary part: %s" % (name, k), x, y,
                     rtol=1e-11)
            continue
        try:
            res = registry.flat(fn(*at(case["im"]*1j), **kw))
        except Exception:
            counter.label("raised")
            continue
        counter.label("compared")
        vals = [registry.flat(call(name, fn, *at(z), **kw)) for z in NODES]
        true("%s: structure of the result differs" % what,
             [k for k, _ in res] == [k for k, _ in vals[0]])
        for k in range(len(res)):
            stack = [v[k][1] for v in vals]
            want = sum(w*x for w, x in zip(W[case["im"]], stack))
            top = max([abs(x).max() for x in stack if x.size] + [1.0])
            same("%s: %s" % (what, res[k][0]), res[k][1], want, scale=top,
                 rtol=1e-8 if case["im"] == 1.0 else 1e-12)
