"""Executable contracts: spectral smoothing (oracle: explicit complex FFT over signed wave numbers)."""
import numpy as np
from dyn.fw import *
from pyhipp.field.cubic_box import mesh as G, field as F, smoothing as SM, mass_assignment as MA


def wave(n):
    return np.fft.fftfreq(n, 1. / n)


def kgrid(n):
    k = wave(n)
    return np.meshgrid(k, k, k, indexing='ij')


def window(method, kx, ky, kz, r, L):
    k = 2 * np.pi / L * np.sqrt(kx ** 2 + ky ** 2 + kz ** 2)
    x = k * r
    if method == 'gaussian': return np.exp(-x ** 2 / 2)
    xs = np.where(x < 1e-3, 1., x)
    return np.where(x < 1e-3, 1 - x ** 2 / 10, 3 * (np.sin(xs) - xs * np.cos(xs)) / xs ** 3)


def cic(kx, ky, kz, n):
    return (np.sinc(kx / n) * np.sinc(ky / n) * np.sinc(kz / n)) ** 2


def apply(d, w):
    return np.fft.ifftn(np.fft.fftn(d) * w).real


def draw(r, lo=1):
    n = r.int(lo, 8); L = r.pos(1., 300.)
    rs = r.pick([0., .1, .3, 1.]) * L / max(n, 1) * r.pick([1., 2., .5])
    d = np.exp(r.arr((n, n, n), -2, 2))
    if r.bool(.1): d[...] = r.pos(.1, 10)
    if r.bool(.2): d = np.zeros((n, n, n)); d[tuple(r.iarr(3, 0, n - 1))] = 1.
    return n, L, rs, d * r.pick([1., 10., 1e-3])


@contract('plain smoothing')
def _(r):
    n, L, rs, d = draw(r)
    if r.bool(.3): d = d - d.mean()
    method = r.pick(['gaussian', 'tophat'])
    r.note(n=n, L=L, r=rs, method=method, data=d)
    d0 = d.copy()
    M = G.Mesh.new(n, L)
    sm = SM.FFTSmoothing(r_sm=rs, method=method)
    o = sm.run(F.Field.new_by_data(d, M)).data
    sc = 1e-9 * (1 + np.abs(d).max())
    ensure_close(o, apply(d, window(method, *kgrid(n), rs, L)), 'smoothed field', atol=sc, rtol=1e-7)
    ensure_close(o.mean(), d.mean(), 'mean', atol=sc)
    ensure_eq(d, d0, 'input')
    s = tuple(r.iarr(3, -n, n))
    o2 = sm.run(F.Field.new_by_data(np.ascontiguousarray(np.roll(d, s, (0, 1, 2))), M)).data
    ensure_close(o2, np.roll(o, s, (0, 1, 2)), 'translation', atol=sc)
    e = r.arr((n, n, n)); a = r.real()
    o3 = sm.run(F.Field.new_by_data(d + a * e, M)).data
    ensure_close(o3, o + a * sm.run(F.Field.new_by_data(e, M)).data, 'linear', atol=1e-7 + sc)
    ensure_raises(ValueError, lambda: SM.FFTSmoothing(method='other').run(F.Field.new_by_data(d, M)), 'unknown method')


@contract('corrected smoothing')
def _(r):
    n, L, rs, d = draw(r)
    method = r.pick(['gaussian', 'tophat'])
    r.note(n=n, L=L, r=rs, method=method, data=d)
    d0 = d.copy()
    M = G.Mesh.new(n, L)
    o = SM.FourierSpaceSmoothing(r_sm=rs, method=method).run(F.Field.new_by_data(d, M))
    delta = d / d.mean() - 1
    sc = 1e-9 * (1 + np.abs(delta).max())
    ensure_close(o.delta_x, delta, 'overdensity', atol=sc)
    k = kgrid(n)
    w = window(method, *k, rs, L) / cic(*k, n)
    ensure_close(o.delta_sm_x, apply(delta, w), 'smoothed overdensity', atol=sc, rtol=1e-7)
    h = n // 2 + 1
    fac = n ** 1.5
    ensure_close(np.abs(o.delta_sm_k - o.delta_k * w[..., :h] if n % 2 else 0), np.zeros((n, n, h)) if n % 2 else 0., 'modes', atol=sc * fac)
    ensure(abs(o.delta_sm_x.mean()) < sc * 10, 'zero mean')
    ensure_eq(o.rho_x, d0, 'reported density'); ensure_eq(d, d0, 'input')
    ensure(o.n_grids == n and o.l_box == L, 'reported mesh')
    bad = d - d.mean() * r.pick([1.5, 2., 1. + 1e-6])
    ensure_raises(ValueError, lambda: SM.FourierSpaceSmoothing(r_sm=rs, method=method).run(F.Field.new_by_data(bad, M)), 'no positive mean')


@contract('windows', .5)
def _(r):
    n = r.int(1, 20); L = r.pos(1., 300.); rs = r.pos(.01, 100.)
    m = G._Mesh(n, L)
    k = r.iarr(3, -n // 2, n // 2).astype(float) if r.bool(.8) else np.zeros(3)
    r.note(n=n, L=L, r=rs, k=k)
    ensure_close(SM._Gaussian(rs, m).window_at_ki(k), window('gaussian', *k, rs, L), 'Gaussian')
    ensure_close(SM._Tophat(rs, m).window_at_ki(k), window('tophat', *k, rs, L), 'top-hat', atol=1e-6)
    s = MA._LinearShapeFn(m)
    ensure_close(s.shape_at_ki_nd(k), cic(*k, n), 'assignment window')
    ensure_close(s.shape_at_k(k[0] * 2 * np.pi / L), np.sinc(k[0] / n) ** 2, 'in wave number units', atol=1e-6)
