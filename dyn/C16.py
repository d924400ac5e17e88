"""Executable contracts: periodic radius queries."""
import numpy as np
from dyn.fw import *
from pyhipp.field.neighbor.kd_tree import PE


@contract('periodic radius query')
def _(r):
    n, d = r.int(0 if r.bool(.05) else 1, 40), r.int(1, 3)
    L = r.pick([1., 2., 10., 3, 100.]) if r.bool(.6) else r.pos(.1, 50.)
    draw = lambda sh: np.minimum(r.arr(sh, 0., 1., special=(0., .5, np.nextafter(1., 0.), .25)), np.nextafter(1., 0.)) * L
    clip = lambda a: np.where(a < L, a, np.nextafter(float(L), 0.))
    xs, x = clip(draw((n, d))), clip(draw((d,)))
    if L == 3 and r.bool(.5): xs, x = r.iarr((n, d), 0, 2), r.iarr((d,), 0, 2)
    rad = r.pick([.05, .2, .45, .5, .3]) * L * (1. if r.bool() else r.real(.01, .99))
    kw = {} if r.bool() else dict(copy_data=r.bool(), balanced_tree=r.bool(), compact_nodes=r.bool(), n_workers=r.pick([1, 2]))
    r.note(xs=xs, x=x, l_box=L, r=rad, kw=kw)
    xs0, x0 = xs.copy(), x.copy()
    t = PE(xs, L, **kw)
    a = np.abs(xs0 - x0); a = np.minimum(a, L - a)
    want = np.sqrt((a.astype(float) ** 2).sum(-1)) if n else np.zeros(0)
    tol = 1e-9 * L
    q = x.tolist() if r.bool(.2) else x
    for rep in range(2):
        ids = t.query_r_1(q, rad)
        ensure(np.issubdtype(ids.dtype, np.integer), 'integer indices')
        ensure(len(set(ids.tolist())) == len(ids), 'no index twice')
        ensure(set(np.flatnonzero(want < rad - tol).tolist()) <= set(ids.tolist()), 'a point within the radius is missing', ids)
        ensure(set(ids.tolist()) <= set(np.flatnonzero(want <= rad + tol).tolist()), 'a point beyond the radius is returned', ids)
        ids2, dist = t.query_r_1(q, rad, return_d=True)
        ensure_eq(np.sort(ids2), np.sort(ids), 'same points with distances')
        ensure_close(dist, want[ids2], 'minimum-image distances in the order of the indices', 1e-9, 1e-9 * L)
    ensure_eq(xs, xs0, 'points untouched'); ensure_eq(x, x0, 'query untouched'); ensure_eq(t.impl.data, xs0, 'stored points untouched')
    j = r.int(0, d - 1)
    for v in (-1e-6 * L, L, 1.5 * L, -L):
        y = np.array(x0, float); y[j] = v
        ensure_raises(AssertionError, lambda: t.query_r_1(y, rad), f'query at {v} outside the box')
        ensure_raises(AssertionError, lambda: t.query_r_1(y, rad, return_d=True), f'query at {v} outside the box')
