"""Executable contracts: angle conversions and direction vectors."""
import math
import numpy as np
from dyn.fw import *
from pyhipp.astro.coords import cvt
from pyhipp.core.dataproc.frame import Polar


@contract('sexagesimal', 2)
def _(r):
    d = r.pick([0., -0., float(r.int(-90, 90)), r.real(-90, 90)]); m, s = r.pick([0., 30., r.real(0, 60)]), r.pick([0., 36., r.real(0, 60)])
    if r.bool(.3): d, m, s = (int(d), int(m), int(s))
    r.note(d=d, m=m, s=s)
    want = math.copysign(1, d) * (abs(d) + m / 60 + s / 3600)
    txt = f'{d!r}:{m!r}:{s!r}'
    if isinstance(d, float) and d == int(d) and r.bool(): txt = ('-' if math.copysign(1, d) < 0 else r.pick(['', '+'])) + f'{abs(int(d)):02d}:{m!r}:{s!r}'
    for arg in ((d, m, s), [d, m, s], txt):
        ensure_close(cvt.dms_to_deg(arg), want, 'degrees'); ensure_close(cvt.hms_to_deg(arg), 15 * want, 'hours')


@contract('unit vectors', 1)
def _(r):
    sh = r.pick([(), (r.int(0, 5),), (2, 3)])
    t, p = (r.arr(sh, -7, 7, special=(0., np.pi, np.pi / 2)), r.arr(sh, -7, 7, special=(0., np.pi)))
    if sh == (): t, p = float(t), float(p)
    r.note(t=t, p=p)
    want = np.array([np.sin(t) * np.cos(p), np.sin(t) * np.sin(p), np.cos(t)])
    ensure_close(Polar.unit_vec_to_cart(t, p), np.moveaxis(want, 0, -1), 'stacked')
    for a, w in zip(Polar.unit_vec_to_cart(t, p, stack=False), want): ensure_close(a, w, 'components')
    ensure_close(Polar.unit_vec_to_cart_2d(t), np.stack([np.cos(t), np.sin(t)], -1), '2-d'); ensure_close(Polar.unit_vec_to_cart_2d(t, stack=False)[1], np.sin(t), '2-d')


@contract('frame', 2)
def _(r):
    n = r.int(1, 4); sc = 10. ** r.real(-6, 6)
    if r.bool(.2): x = r.iarr((n, 3), -4, 4)
    else: x = r.arr((n, 3), special=(0., 1e-4, -1e-4), p=.3) * sc
    if x.dtype.kind == 'f' and r.bool(.3): x = x * 10. ** -r.g.uniform(0, 12, x.shape)   # near planes and axes
    x = x[(np.hypot(x[:, 0], x[:, 1]) > 1e-9 * np.linalg.norm(x, axis=-1)) & (np.linalg.norm(x, axis=-1) > 1e-9)]
    if not len(x): raise Skip
    v = r.arr((len(x), 3)); r.note(x=x, v=v)
    x0, v0 = x.copy(), v.copy()
    arg = x if r.bool(.8) else x.tolist()
    o = Polar.rt_to_cart(arg, v)
    ensure_close((o ** 2).sum(-1), (v ** 2).sum(-1), 'length preserved'); u = x / np.linalg.norm(x, axis=-1)[:, None]
    ensure_close((o * u).sum(-1), v[:, 2], 'radial component')
    e = [Polar.rt_to_cart(arg, np.tile(np.eye(3)[k], (len(x), 1))) for k in range(3)]
    ensure_close(e[2], u, 'radial axis')
    for a in range(3):
        for c in range(3): ensure_close((e[a] * e[c]).sum(-1), np.full(len(x), float(a == c)), 'orthonormal')
    ensure_close(np.cross(e[0], e[1]), e[2], 'right-handed'); ensure_close(o, sum(e[k] * v[:, [k]] for k in range(3)), 'combination of the axes')
    ensure_eq(x, x0, 'positions unchanged'); ensure_eq(v, v0, 'vectors unchanged')
