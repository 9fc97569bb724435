"""C20: Fermi functions against 60-digit decimal arithmetic."""
import math
import sys
from decimal import Decimal
import numpy
from vlib.engine import call
from vlib.cmp import true, shaped
from vlib import thermal

ID = "C20"
RULE = "the arguments include one within 50 of zero and at least two different energies"
ASSUMPTIONS = [
    "inverse temperature not negative, all inputs finite",
    "relative tolerance 3e-13 plus the rounding of the argument (4 ulp times its size), "
    "absolute tolerance of a few subnormals"]
BUDGET = {"quick": (10000, 60), "thorough": (60000, 400)}
EPS = sys.float_info.epsilon
EDGES = [0.0, 1.0, 20.0, 30.0, 36.0, 37.0, 40.0, 700.0, 709.78, 745.0, 746.0, 1e3, 1e5, 1e300]


def number(d):
    """A finite float; simplest first."""
    k = d.weighted([("edge", 2.0), ("small", 3.0), ("medium", 4.0), ("tiny", 1.0),
                    ("nextto", 2.0), ("switch", 2.0)])
    s = d.choice([1.0, -1.0])
    if k == "edge":
        return s*d.choice(EDGES)
    if k == "small":
        return s*d.below(1000)/100.0
    if k == "switch":
        return s*(d.choice([20.0, 30.0]) + d.integer(-400, 400)/100.0)
    if k == "medium":
        return s*d.below(100000)/1000.0
    if k == "tiny":
        return s*d.choice([1e-3, 1e-8, 1e-16, 1e-300, 5e-324])
    x = d.choice([20.0, 30.0, 1.0, 0.0])
    for _ in range(d.integer(1, 3)):
        x = math.nextafter(x, d.choice([math.inf, -math.inf]))
    return s*x


def several(d, n):
    """n numbers; long lists repeat a few of them, partly shifted, in an order of their own."""
    if n <= 9:
        return [number(d) for _ in range(n)]
    few = [number(d) for _ in range(4)]
    out = []
    for k in range(n):
        x = few[d.below(4)]
        out.append(x if abs(x) > 1e5 or d.flag(0.3) else x + d.integer(-300, 300)/16.0)
    if d.flag(0.3):
        out.sort()
    return out


def length(d, low, high):
    return d.choice([17, 33, 64, 70, 129, 260]) if d.flag(0.01) else d.integer(low, high)


def generate(d):
    kind = d.choice(["direct", "scaled"])
    n = length(d, 1, 5)
    xs = several(d, n)
    if kind == "direct":
        beta, mu = 1.0, 0.0
    else:
        beta = d.choice([2.0, 0.5, 1e-3, 10.0, 1e3, 1e-6, 1e6, 0.0, 315774.6, 0.37])
        mu = d.choice([0.0, 0.25, -1.5, 100.0, 1e-9])
        if beta > 0 and d.flag(0.7):
            xs = [x/beta + mu if abs(x) < 1e10 else x for x in xs]
    if d.flag(0.15):
        xs = [int(max(-1e6, min(1e6, x))) for x in xs]
    return {"beta": beta, "mu": mu, "e": xs}


def nontrivial(case):
    b = case["beta"]
    return len(set(case["e"])) >= 2 and any(abs(b*(x - case["mu"])) < 50 for x in case["e"])


def spread(beta, e, mu):
    """Rounding of the argument however beta*(e - mu) is grouped."""
    return min(4*EPS*beta*(abs(float(e)) + abs(mu)), 1e-6) if mu else 0.0


def close(what, got, want, x, more):
    got = float(got)
    true("%s is %r" % (what, got), math.isfinite(got) and 0.0 <= got <= 1.0)
    tol = abs(float(want))*(3e-13 + 4*EPS*min(abs(float(x)), 2000.0) + more) + 2e-323
    err = abs(float(thermal.CTX.subtract(Decimal(got), want)))
    true("%s is %r, expected %.17g" % (what, got, want), err <= tol)


def execute(case, counter):
    from cqcpy import ft_utils as ft
    beta, mu, es = case["beta"], case["mu"], case["e"]
    arr = numpy.array(es)
    occ, vir = [], []
    for e in es:
        x = thermal.argument(beta, e, mu)
        f = call("fermi_function", ft.fermi_function, beta, e, mu)
        v = call("vfermi_function", ft.vfermi_function, beta, e, mu)
        at = "(%r, %r, %r)" % (beta, e, mu)
        close("occupied fraction at " + at, f, thermal.fermi(x), x, spread(beta, e, mu))
        close("virtual fraction at " + at, v, thermal.fermi(-x), x, spread(beta, e, mu))
        true("fractions do not sum to one at " + at, abs(float(f) + float(v) - 1.0) <= 1e-15*4)
        # reflection about the chemical potential (exact when mu is zero)
        if mu == 0.0:
            r = call("vfermi_function", ft.vfermi_function, beta, -e, mu)
            true("no reflection symmetry at " + at,
                 abs(float(r) - float(f)) <= 4e-13*abs(float(f)) + 2e-323)
        occ.append(float(f))
        vir.append(float(v))
        counter.label("tail" if abs(x) > 30 else "centre")
    # monotone in the energy, up to rounding
    order = sorted(range(len(es)), key=lambda k: es[k])
    for j, k in zip(order, order[1:]):
        more = 1 + 1e-12 + spread(beta, es[j], mu) + spread(beta, es[k], mu)
        true("occupation increases between %r and %r" % (es[j], es[k]),
             occ[k] <= occ[j]*more + 2e-323)
        true("vacancy decreases between %r and %r" % (es[j], es[k]),
             vir[j] <= vir[k]*more + 2e-323)
    got_o = shaped("ff", call("ff", ft.ff, beta, arr, mu), arr.shape)
    got_v = shaped("ffv", call("ffv", ft.ffv, beta, arr, mu), arr.shape)
    for e, f, v in zip(es, got_o, got_v):
        x = thermal.argument(beta, e, mu)
        close("ff at %r" % e, f, thermal.fermi(x), x, spread(beta, e, mu))
        close("ffv at %r" % e, v, thermal.fermi(-x), x, spread(beta, e, mu))
    # energy to temperature is linear through the origin with the CODATA ratio
    t = call("HtoK", ft.HtoK, es[0])
    u = call("HtoK", ft.HtoK, 2.0*es[0])
    if 1e-290 < abs(es[0]) < 1e290:
        true("HtoK not linear", abs(u - 2.0*t) <= 1e-12*abs(u))
        true("HtoK(%r) = %r" % (es[0], t), abs(t - 315775.13*es[0]) <= 1e-5*abs(t))
