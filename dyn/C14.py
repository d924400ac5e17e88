"""Executable contracts: cosmic-web classes."""
import numpy as np
from dyn.fw import *
from dyn.C10 import grid, pos
from pyhipp.field.cubic_box import mesh as G, cosmic_web as W
import dyn.fw as _fw
_fw.CONTRACTS.clear()
NAMES = dict(knot=3, filament=2, sheet=1, void=0, k=3, f=2, s=1, v=0)


def lams(r, n):
    l = r.arr((n, n, n, 3), -1, 1, special=(0., .25, .5))
    if r.bool(.1): l[...] = l[0, 0, 0]
    l.sort(axis=-1)
    return l.astype(np.float32).astype(float)


@contract('classes')
def _(r):
    n, L = grid(r)
    lam = lams(r, n)
    th = r.pick([0., .25, -.25, .5, 2., -2.])
    r.note(n=n, L=L, lam=lam, th=th)
    l0 = lam.copy()
    M = G.Mesh.new(n, L)
    t = W.TidalClassifier(lam, M, lam_th=th) if r.bool(.7) or th else W.TidalClassifier(lam, M)
    c = (lam > th).sum(-1)
    ensure_eq(t.n_lams, c, 'class'); ensure_close(t.lam, lam, 'eigenvalues')
    fs = []
    for nm in ('knot', 'filament', 'sheet', 'void'):
        ensure_eq(getattr(t, 'is_' + nm), c == NAMES[nm], 'is_' + nm)
        f = getattr(t, 'f_' + nm); fs.append(f)
        ensure(abs(f - (c == NAMES[nm]).mean()) < 1e-12, 'fraction of ' + nm, f)
    ensure(abs(sum(fs) - 1) < 1e-12, 'fractions')
    P = r.int(0, 6)
    xs = np.array([[pos(r, n, L) for _ in range(3)] for _ in range(P)], float).reshape(P, 3)
    r.note(xs=xs)
    k = np.floor(xs / (L / n) + .5).astype(int) % n
    ensure_eq(t.web_type_at(xs), c[tuple(k.T)], 'class at points')
    ensure_close(t.lam_at(xs), lam[tuple(k.T)], 'eigenvalues at points')
    for nm, v in NAMES.items():
        ensure_close(t.grid_points_of_web_type(nm), np.argwhere(c == v) * (L / n), 'grid points of ' + nm, rtol=1e-6, atol=1e-4)
        ensure(t.web_types[nm] == v, 'name')
    ensure_eq(lam, l0, 'input')


@contract('refusals', .5)
def _(r):
    n = r.int(1, 5)
    M = G.Mesh.new(n, 1.)
    lam = lams(r, n)
    r.note(n=n)
    for bad in (lam[..., :2], lam[..., 0], np.zeros((n + 1, n, n, 3)), np.zeros((n, n, n + 1, 3))):
        ensure_raises(AssertionError, lambda: W.TidalClassifier(bad, M), f'shape {bad.shape}')
    i = tuple(r.int(0, n - 1) for _ in range(3))
    c = r.int(0, 1)
    b = lam.copy(); b[i][c] = b[i][c + 1] + 1
    ensure_raises(AssertionError, lambda: W.TidalClassifier(b, M), 'descending')


@contract('stored', .3)
def _(r):
    import tempfile
    from pyhipp.io import h5
    n, L = grid(r)
    lam, th = lams(r, n), r.pick([0., .25, -.25, .5, 2.])
    r.note(n=n, L=L, lam=lam, th=th)
    with tempfile.TemporaryDirectory(prefix='c14-') as d, h5.File(d + '/f.h5', flag='x') as f:
        g = f.create_group('t')
        g.dump(dict(lam=lam, l_box=L, n_grids=n))
        t = W.TidalClassifier.new_from_file(g, lam_th=th)
    ensure_eq(t.n_lams, (lam > th).sum(-1), 'class')
    ensure(t.mesh.l_box == L and t.mesh.n_grids == n, 'mesh')
