"""Assumed contract of scipy.fft.rfftn / irfftn: a linear pair; the modes are opaque, the shapes and the identity of the
transformed array are recorded. Complex modes are scaled by real factors only (anything else leaves the subset), so a
mode is represented by one opaque scalar."""
from ..harness import *
from ..arr import SArr, asarr
from .. import npm


class FFT:
    """stands for the module scipy.fft"""

    def __init__(self, h):
        self.h, self.fwd, self.inv = h, [], []

    def rfftn(self, x, s=None, axes=None, norm=None, overwrite_x=False, workers=None):
        npm.trust('scipy.fft.rfftn: real-to-complex transform of all three axes; shape (n0, n1, n2 // 2 + 1); input kept unless overwrite_x')
        h = self.h
        x = asarr(x)
        if axes is not None: raise Unsupported('rfftn of selected axes')
        if s is not None:
            CTX.side('rfftn: neither cropped nor padded', C.tobool(conj(*[S(C.lift(a)) == S(C.lift(d)) for a, d in zip(s, x._shape)])) if len(s) == x.ndim else z3.BoolVal(False))
        sh = x.shape
        out = (sh[0], sh[1], S(C.lift(sh[2])) // 2 + 1)
        m = h.array('modes', out, 'c16')
        self.fwd.append((x.snap(), x._shape, norm, m, m.snap()))
        if overwrite_x is not False:
            x[...] = h.array('clobbered', x.shape)
        return m

    def irfftn(self, y, s=None, axes=None, norm=None, overwrite_x=False, workers=None):
        npm.trust('scipy.fft.irfftn: inverse of rfftn for the given output shape; the last axis defaults to the even size 2 (m - 1)')
        h = self.h
        y = asarr(y)
        if axes is not None: raise Unsupported('irfftn of selected axes')
        sh = y.shape
        out = (sh[0], sh[1], 2 * (S(C.lift(sh[2])) - 1)) if s is None else tuple(s)
        r = h.array('field', out)
        self.inv.append((y.snap(), y._shape, norm, r, r.snap()))
        if overwrite_x is not False:
            y[...] = h.array('clobbered', y.shape, 'c16')
        return r


def install(h):
    f = FFT(h)
    h.mod('field.cubic_box.fft').scipy_fft = f
    return f


def wave(i, n, last=False):
    """signed wave number of mode i of n (the last axis of a real transform holds 0 .. n // 2)"""
    return i if last else ite(i > n // 2, i - n, i)


def modes_idx(h, n):
    ix = h.idx(n), h.idx(n), h.idx(n // 2 + 1)
    k = wave(ix[0], n), wave(ix[1], n), ix[2]
    return ix, [S(C.toreal(v)) for v in k]


def gauss(k, r, L):
    """exp(-K^2 r^2 / 2) with K = 2 pi k / L"""
    pi = S(C.PI)
    K = [2 * pi * v / L for v in k]
    return C.m_exp(-(K[0] * K[0] + K[1] * K[1] + K[2] * K[2]) * r * r / 2)


def cic(k, n):
    """assignment window: product over the axes of sinc^2(pi k / n)"""
    pi = S(C.PI)
    w = S(z3.RealVal(1))
    for v in k:
        x = pi * v / S(C.toreal(n))
        s = S(C.sinF(C.toreal(x))) / x
        w = w * ite(v == 0, 1., s * s)
    return w
