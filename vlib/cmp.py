"""Comparisons with stated tolerances."""
import numpy
from .engine import Violation

RTOL = 1e-9


def same(what, got, want, rtol=RTOL, scale=None, key=None):
    """got equals want, elementwise, relative to the largest magnitude involved."""
    want = numpy.asarray(want)
    if got is None:
        raise Violation("%s: nothing returned" % what, key)
    try:
        got = numpy.asarray(got)
        shape = got.shape
    except Exception as e:
        raise Violation("%s: not an array (%s)" % (what, e), key)
    if shape != want.shape:
        raise Violation("%s: shape %s instead of %s" % (what, shape, want.shape), key)
    if got.dtype == object:
        raise Violation("%s: object array returned" % what, key)
    if want.size == 0:
        return
    if not numpy.all(numpy.isfinite(got)):
        raise Violation("%s: non-finite values" % what, key)
    err = numpy.abs(got - want)
    top = float(numpy.max(numpy.abs(want)))
    if scale is not None:
        top = max(top, float(scale))
    lim = rtol*max(1.0, top)
    worst = float(numpy.max(err))
    if not worst <= lim:
        at = tuple(int(x) for x in numpy.unravel_index(numpy.argmax(err), err.shape))
        raise Violation("%s: element %s is %s, expected %s (difference %.3g, limit %.3g)" % (
            what, at, got[at], want[at], worst, lim), key)


def at_scale(power):
    """same(), after both sides were divided by a power of two."""
    def compare(what, got, want, **kw):
        if got is not None and getattr(got, "dtype", None) != object:
            got = numpy.asarray(got)*2.0**-power
        same(what, got, numpy.asarray(want)*2.0**-power, **kw)
    return compare


def exactly(what, got, want, key=None):
    got = numpy.asarray(got)
    want = numpy.asarray(want)
    if got.shape != want.shape:
        raise Violation("%s: shape %s instead of %s" % (what, got.shape, want.shape), key)
    if not numpy.array_equal(got, want):
        bad = numpy.argwhere(got != want)[0]
        at = tuple(int(x) for x in bad)
        raise Violation("%s: element %s is %s, expected %s" % (
            what, at, got[at], want[at]), key)


def true(what, cond, key=None):
    if not cond:
        raise Violation(what, key)


def shaped(what, got, shape, key=None):
    """got is an array of the given shape."""
    if got is None or not hasattr(got, "shape") or got.shape != tuple(shape):
        raise Violation("%s: %s returned instead of an array of shape %s" % (
            what, getattr(got, "shape", type(got).__name__), tuple(shape)), key)
    return got


def elementwise(what, got, want, rtol=1e-13):
    """Each element equals its own reference to a relative tolerance."""
    got = shaped(what, numpy.asarray(got), numpy.asarray(want).shape)
    bad = ~(numpy.abs(got - want) <= rtol*numpy.abs(want) + 1e-307)
    if bad.any():
        at = tuple(int(x) for x in numpy.argwhere(bad)[0])
        raise Violation("%s: element %s is %r, expected %r" % (what, at, got[at], want[at]))
