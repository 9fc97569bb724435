"""Tensors made from a recorded seed, and the library's containers around them."""
import numpy

KINDS = [("int", 1.0), ("uniform", 3.0), ("positive", 1.0), ("sparse", 1.0)]


class Tensors(object):
    """Reproducible random tensors; kind, scale and element type fixed per case."""

    def __init__(self, seed, kind="uniform", dtype="real", scale=1.0):
        self.rng = numpy.random.Generator(numpy.random.PCG64(seed))
        self.kind = kind
        self.complex = dtype == "complex"
        self.scale = scale
        self.imag = 1.0

    def _real(self, shape):
        r = self.rng
        if self.kind == "int":
            return r.integers(-2, 3, size=shape).astype(float)
        if self.kind == "positive":
            return r.random(size=shape)
        if self.kind == "graded":
            return r.uniform(-1, 1, size=shape)*10.0**(-16*r.random(size=shape))
        if self.kind == "sparse":
            return r.uniform(-1, 1, size=shape)*(r.random(size=shape) < 0.4)
        return r.uniform(-1, 1, size=shape)

    def array(self, *shape):
        x = self._real(shape)
        if self.complex:
            x = x + 1j*self.imag*self._real(shape)
        return x*self.scale

    def anti(self, n):
        """Full antisymmetric two-electron tensor, no Hermitian symmetry."""
        return antisym(self.array(n, n, n, n))

    def T2(self, no, nv):
        return antisym(self.array(nv, nv, no, no))

    def L2(self, no, nv):
        return antisym(self.array(no, no, nv, nv))

    def pair(self, *shape):
        """Tensor with x[p,q,r,s] = x[q,p,s,r]"""
        x = self.array(*shape)
        return x + x.transpose((1, 0, 3, 2))


def antisym(x):
    x = x - x.transpose((1, 0, 2, 3))
    x = x - x.transpose((0, 1, 3, 2))
    return 0.5*x


def f_blocks(F, no):
    from cqcpy import ov_blocks
    o, v = slice(0, no), slice(no, None)
    return ov_blocks.one_e_blocks(
        F[o, o].copy(), F[o, v].copy(), F[v, o].copy(), F[v, v].copy())


NINE = ["vvvv", "vvvo", "vovv", "vvoo", "vovo", "oovv", "vooo", "ooov", "oooo"]
SIXTEEN = [a+b+c+d for a in "ov" for b in "ov" for c in "ov" for d in "ov"]


def cut(I, name, nos):
    """The block of I named by index types, with nos[k] occupied on index k."""
    return I[tuple(slice(0, k) if t == "o" else slice(k, None)
                   for t, k in zip(name, nos))]


def i_blocks(I, no):
    """Nine blocks of an antisymmetric tensor."""
    from cqcpy import ov_blocks
    return ov_blocks.two_e_blocks(
        **{k: cut(I, k, (no,)*4).copy() for k in NINE})


def i_blocks_full(I, nos):
    from cqcpy import ov_blocks
    return ov_blocks.two_e_blocks_full(
        **{k: cut(I, k, nos).copy() for k in SIXTEEN})
