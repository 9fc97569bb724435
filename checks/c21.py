"""C21: grand potentials and their derivatives against 60-digit decimal arithmetic."""
import math
import sys
from decimal import Decimal
import numpy
from vlib.engine import call
from vlib.cmp import true, shaped
from vlib import thermal
from checks.c20 import length, several, spread

ID = "C21"
RULE = "the arguments include one within 50 of zero and at least two different energies"
ASSUMPTIONS = [
    "positive inverse temperature, finite inputs with beta*(e-mu) below 1e280",
    "tolerance 2.5e-15*(1+|x|) in units of 1/beta (1/beta^2 for the derivative); beyond "
    "x = 20.5 in addition 1e-8 relative"]
BUDGET = {"quick": (10000, 90), "thorough": (60000, 400)}


def generate(d):
    n = length(d, 1, 5)
    nb = length(d, 0, 4)
    xs = several(d, n) + several(d, nb)
    kind = d.choice(["direct", "scaled"])
    if kind == "direct":
        beta, mu = 1.0, 0.0
    else:
        beta = d.choice([2.0, 0.5, 1e-3, 10.0, 1e3, 1e-6, 1e6, 315774.6, 0.37])
        mu = d.choice([0.0, 0.25, -1.5, 100.0, 1e-9])
        if d.flag(0.7):
            xs = [x/beta + mu for x in xs]
    xs = [x if abs(x)*beta < 1e250 else 0.0 for x in xs]
    if d.flag(0.15):
        xs = [int(max(-1e6, min(1e6, x))) for x in xs]
    return {"beta": beta, "mu": mu, "e": xs[:n], "eb": xs[n:]}


def nontrivial(case):
    b = case["beta"]
    return len(set(case["e"])) >= 2 and any(abs(b*(x - case["mu"])) < 50 for x in case["e"])


def close(what, got, want, x, unit, more):
    got = float(got)
    true("%s is %r" % (what, got), math.isfinite(got))
    err = abs(float(thermal.CTX.subtract(Decimal(got), want)))
    ax = min(abs(float(x)), 1e250)
    w = abs(float(want))
    tol = (2.5e-15*(1.0 + ax) + more)*unit
    if x > Decimal("20.5"):
        # exponentially small region: relative accuracy of the leading exponential
        tol = w*(1e-8 + 1e-15*min(ax, 1e4) + more) + 1e-300
    true("%s is %.17g, expected %.17g" % (what, got, want), err <= tol)


def execute(case, counter):
    from cqcpy import ft_utils as ft
    beta, mu = case["beta"], case["mu"]
    for e in case["e"] + case["eb"]:
        x = thermal.argument(beta, e, mu)
        at = "(%r, %r, %r)" % (beta, e, mu)
        g = call("grand_potential0", ft.grand_potential0, beta, e, mu)
        close("grand potential at " + at, g, thermal.grand(beta, x), x, 1.0/beta,
              spread(beta, e, mu))
        dg = call("dgrand_potential0", ft.dgrand_potential0, beta, e, mu)
        close("derivative at " + at, dg, thermal.dgrand(beta, x), x, 1.0/beta**2,
              spread(beta, e, mu))
        counter.label("low" if x < -20 else "high" if x > 20 else "centre")
    ea, eb = numpy.array(case["e"]), numpy.array(case["eb"])
    got = call("uGP0", ft.uGP0, beta, ea, eb, mu)
    true("uGP0 returns two vectors", len(got) == 2)
    for name, es, v in (("GP0", ea, call("GP0", ft.GP0, beta, ea, mu)),
                        ("uGP0 alpha", ea, got[0]), ("uGP0 beta", eb, got[1]),
                        ("dGP0", ea, call("dGP0", ft.dGP0, beta, ea, mu))):
        shaped(name, v, es.shape)
        for e, y in zip(es.tolist(), v):
            x = thermal.argument(beta, e, mu)
            if name == "dGP0":
                close("dGP0 at %r" % e, y, thermal.dgrand(beta, x), x, 1.0/beta**2,
                      spread(beta, e, mu))
            else:
                close("%s at %r" % (name, e), y, thermal.grand(beta, x), x, 1.0/beta,
                      spread(beta, e, mu))
