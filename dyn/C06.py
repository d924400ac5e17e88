"""Executable contracts: bins and grids."""
import numpy as np
from dyn.fw import *
from pyhipp.stats import binning as BN
from pyhipp.core.dataproc import Grid1d, GridMd
EXT = (np.inf, -np.inf, 1e30, -1e30, 1e300)


def check(i, x, e, msg, tol=0.):
    """index of the half-open cell; tol: relative slack of the edges (equal-width edges are rounded)"""
    i, x, n = np.asarray(i), np.asarray(x, dtype=float), len(e) - 1
    ensure(i.shape == x.shape and i.dtype.kind == 'i', msg + ' shape', i.shape, x.shape)
    d = tol * (abs(e[0]) + abs(e[-1]))
    for k, v in zip(i.ravel(), x.ravel()):
        ensure(-1 <= k <= n, msg + ' range', k, v)
        lo = -np.inf if k == -1 else e[k]
        hi = np.inf if k == n else e[k + 1]
        ensure(lo - d <= v and (v < hi + d or v == hi == np.inf), msg, int(k), float(v), float(lo), float(hi))


def values(r, e, shape):
    n = len(e)
    x = r.arr(shape, e[0] - 1, e[-1] + 1, special=EXT + tuple(e[: min(n, 4)]) + (e[-1],), p=.4)
    return x


def shp(r): return r.pick([(r.int(0, 6),), (r.int(1, 3), r.int(1, 3)), ()])


@contract('equal', 2)
def _(r):
    n = r.int(1, 12); lo = r.pick([0., r.real(-10, 10)]); hi = lo + r.pick([1., float(n), r.pos(1e-2, 100)])
    b = BN.EqualSpaceBins((lo, hi), n)
    e = b.x_edges
    ensure(b.n_bins == n and e.shape == (n + 1,), 'counts'); ensure_close(e, lo + (hi - lo) * np.arange(n + 1) / n, 1e-12)
    ensure(bool((np.diff(e) > 0).all()), 'ascending'); ensure_close(b.x_centers, .5 * (e[1:] + e[:-1]), 1e-12)
    x = values(r, e, shp(r)); r.note(lo=lo, hi=hi, n=n, x=x)
    if x.shape == (): x = float(x)
    i = b.locate(x)
    check(i, x, e, 'cell', 1e-13)
    bounds(r, b, x, np.asarray(i), e)
    if isinstance(x, float): return
    xi = r.iarr(x.shape, -5, 5); check(b.locate(xi), xi, e, 'cell of integers', 1e-13)
    s = BN.BiSearchBins(e)
    inner = np.abs(x[..., None] - e).min(-1) > 1e-9
    ensure(bool((np.asarray(s.locate(x))[inner] == np.asarray(i)[inner]).all()), 'explicit bins agree')


def bounds(r, b, x, i, e):
    n = len(e) - 1
    ensure_eq(np.asarray(b.locate_bound(x)), np.clip(i, 0, n - 1), 'bounded'); ensure_eq(np.asarray(b.locate_bound(x, upper=False)), np.maximum(i, 0), 'lower only')
    ensure_eq(np.asarray(b.locate_bound(x, lower=False)), np.minimum(i, n - 1), 'upper only'); ensure_eq(np.asarray(b.locate_bound(x, False, False)), i, 'unbounded')
    m = np.asarray(b.locate_nearest(x))
    ensure(m.shape == i.shape, 'nearest shape')
    for k, v in zip(m.ravel(), np.asarray(x, float).ravel()):
        ensure(0 <= k <= n, 'valid edge', k)
        if np.isinf(v): ensure(e[k] == (e[-1] if v > 0 else e[0]), 'nearest edge of infinity', k); continue
        d = np.abs(e - v)
        ensure(d[k] <= d.min() * (1 + 1e-12) + 1e-12 * (abs(e[0]) + abs(e[-1])), 'nearest edge', int(k), float(v))


@contract('explicit', 2)
def _(r):
    n = r.int(1, 8)
    e = r.asc(n + 1)
    if r.bool(.2): e[r.int(0, n)] = e[0]
    raw = r.g.permutation(e); keep = raw.copy()
    b = BN.BiSearchBins(raw)
    e = np.sort(e)
    ensure_eq(raw, keep, 'input'); ensure_eq(b.x_edges, e, 'sorted edges'); ensure(b.n_bins == n, 'count'); ensure_close(b.x_centers, .5 * (e[1:] + e[:-1]), 1e-12)
    x = values(r, e, shp(r)); r.note(e=raw, x=x)
    if x.shape == (): x = float(x)
    i = b.locate(x); check(i, x, e, 'cell')
    if not isinstance(x, float) or True: bounds(r, b, x, np.asarray(i), e)
    raw[:] = 0
    ensure_eq(b.x_edges, e, 'edges are independent of the caller')


@contract('refused', .3)
def _(r):
    lo = r.real(); ensure_raises(AssertionError, lambda: BN.EqualSpaceBins((lo, lo - r.pos()), 3), 'refused'); ensure_raises(AssertionError, lambda: BN.EqualSpaceBins((lo, lo + 1), -r.int(0, 3)), 'refused')
    a = r.asc(r.int(2, 5)); ensure_raises(AssertionError, lambda: Grid1d(a[::-1]), 'refused')


@contract('grid', 2)
def _(r):
    D = r.int(1, 4)
    es = [r.asc(r.int(1, 5)) for _ in range(D)]
    src = [e.copy() if r.bool(.7) else Grid1d(e) for e in es]
    g = GridMd(*src)
    for s in src:
        if isinstance(s, np.ndarray): s[:] = -1
    ensure(g.n_dims == D and g.n_locs == tuple(len(e) for e in es), 'counts')
    for a, e in zip(g.locs_1d, es): ensure_eq(a, e, 'locations')
    for a, e in zip(g.extent, es): ensure(tuple(a) == (e[0], e[-1]), 'extent')
    for a, e in zip(g.centers.locs_1d if all(len(e) > 1 for e in es) else [], es): ensure_close(a, .5 * (e[1:] + e[:-1]), 1e-12)
    for a, m in zip(g.locs, np.meshgrid(*es, indexing='ij')): ensure_eq(a, m, 'mesh')
    N = r.int(0, 6)
    x = np.stack([values(r, e, (N,)) for e in es], 1); r.note(es=es, x=x)
    L = g.locate(x)
    ensure(len(L) == D, 'one per axis')
    for d in range(D):
        check(L[d], x[:, d], es[d], f'axis {d}'); check(g.grids_1d[d].locate(x[:, d]), x[:, d], es[d], f'grid {d}')


@contract('slices', .2)
def _(r):
    n, m = r.int(2, 6), r.int(2, 5)
    g = GridMd.at[0.:1.:complex(0, n), 2.:5.:complex(0, m)]
    ensure_close(g.locs_1d[0], np.linspace(0, 1, n), 1e-12); ensure_close(g.locs_1d[1], np.linspace(2, 5, m), 1e-12)
