"""Executable contracts: tidal tensor (oracle: explicit modes)."""
import numpy as np
from dyn.fw import *
from dyn.C12 import draw, window, cic, kgrid, wave, apply
from pyhipp.field.cubic_box import mesh as G, field as F, gravity as GR
import dyn.fw as _fw
_fw.CONTRACTS.clear()


@contract('tidal field')
def _(r):
    n, L, rs, d = draw(r)
    shape = r.pick(['cic', False])
    r.note(n=n, L=L, r=rs, correct=shape, data=d)
    d0 = d.copy()
    M = G.Mesh.new(n, L)
    o = GR.TidalField(r_sm=rs, correct_shape=shape).run(F.Field.new_by_data(d, M))
    delta = d / d.mean() - 1
    sc = 1e-8 * (1 + np.abs(delta).max())
    ensure_close(o.delta_x, delta, 'overdensity', atol=sc)
    k = kgrid(n)
    w = window('gaussian', *k, rs, L) / (cic(*k, n) if shape else 1.)
    sm = apply(delta, w)
    ensure_close(o.delta_sm_x, sm, 'smoothed overdensity', atol=sc, rtol=1e-7)
    h = n // 2 + 1
    kh = [a[..., :h].copy() for a in k]
    kh[2] = np.abs(kh[2])
    for a in (0, 1): kh[a] = np.where(kh[a] == -n / 2, n / 2, kh[a])
    k2 = kh[0] ** 2 + kh[1] ** 2 + kh[2] ** 2
    f = n ** 1.5
    ensure_close(np.abs(o.delta_k - np.fft.rfftn(delta, norm='ortho')), np.zeros(k2.shape), 'modes', atol=sc * f)
    ensure_close(np.abs(o.delta_sm_k - o.delta_k * w[..., :h]), np.zeros(k2.shape), 'smoothed modes', atol=sc * f)
    nz = k2 > 0
    ensure_close(np.abs(k2 * o.phi_k + o.delta_sm_k)[nz], np.zeros(nz.sum()), 'Poisson equation', atol=sc * f)
    ensure(abs(o.phi_k[0, 0, 0]) == 0, 'zero mode')
    ensure(o.T_x.shape == (n, n, n, 3, 3), 'shape')
    for i in range(3):
        for j in range(3):
            t = np.fft.irfftn(-kh[i] * kh[j] * o.phi_k, s=(n, n, n), axes=(0, 1, 2), norm='ortho')
            ensure_close(o.T_x[..., i, j], t, f'tensor entry {i}{j}', atol=sc)
    ensure_close(o.T_x, np.swapaxes(o.T_x, -1, -2), 'symmetric', atol=1e-12)
    ensure_close(np.trace(o.T_x, axis1=-2, axis2=-1), sm, 'trace', atol=sc * 10)
    ensure(np.all(np.diff(o.lam, axis=-1) >= 0), 'ascending eigenvalues')
    ensure_close(o.lam, np.linalg.eigvalsh(o.T_x), 'eigenvalues', atol=sc)
    ensure_close(o.lam.sum(-1), sm, 'eigenvalue sum', atol=sc * 10)
    ensure_eq(d, d0, 'input'); ensure_eq(o.rho_x, d0, 'reported density')
    c = r.pick([2., 100., .125])
    o2 = GR.TidalField(r_sm=rs, correct_shape=shape).run(F.Field.new_by_data(d * c, M))
    ensure_close(o2.T_x, o.T_x, 'normalisation', atol=sc * 10)
    bad = d - d.mean() * r.pick([1.5, 2.])
    ensure_raises(ValueError, lambda: GR.TidalField(r_sm=rs).run(F.Field.new_by_data(bad, M)), 'no positive mean')
