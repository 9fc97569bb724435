"""Exact thermal functions in 60-digit decimal arithmetic."""
import decimal
from decimal import Decimal

CTX = decimal.Context(prec=60, Emin=-10**9, Emax=10**9,
                      traps=[decimal.InvalidOperation, decimal.DivisionByZero])
BIG = Decimal(10)**6


def dec(x):
    return Decimal(float(x))


def argument(beta, e, mu):
    return CTX.multiply(dec(beta), CTX.subtract(dec(e), dec(mu)))


def exp(x):
    """exp, flushed to 0 for arguments below -1e6"""
    if x < -BIG:
        return Decimal(0)
    return CTX.exp(x)


def fermi(x):
    if x > 0:
        t = exp(-x)
        return CTX.divide(t, CTX.add(1, t))
    return CTX.divide(1, CTX.add(1, exp(x)))


def log1pexp(x):
    """ln(1 + exp(x))"""
    if x > 0:
        return CTX.add(x, log1pexp(-x))
    t = exp(x)
    if t < Decimal(10)**-25:
        return CTX.subtract(t, CTX.divide(CTX.multiply(t, t), 2))
    return CTX.ln(CTX.add(1, t))


def grand(beta, x):
    """-ln(1+exp(-x))/beta"""
    return CTX.divide(-log1pexp(-x), dec(beta))


def dgrand(beta, x):
    """d/dbeta at fixed energy: (ln(1+exp(-x)) + x f(x))/beta^2"""
    b = dec(beta)
    num = CTX.add(log1pexp(-x), CTX.multiply(x, fermi(x)))
    return CTX.divide(num, CTX.multiply(b, b))
