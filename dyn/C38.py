"""Executable contracts: two-dimensional density maps."""
import numpy as np
from dyn.fw import *
from pyhipp.plot.two_dim import DensityEstimator2D, Histogram2D, KNearestNeighbor2D, Scatter2D


class Axes:
    def __init__(self): self.drawn = []; self._raw = self

    def __getattr__(self, k):
        if k.startswith('_'): raise AttributeError(k)

        def draw(*a, **kw):
            self.drawn.append((k, a, kw)); return k, len(self.drawn)
        return draw


def points(r, n):
    if r.bool(): return r.g.normal(size=n), r.g.normal(size=n)
    return r.g.integers(-8, 9, n) / 4., r.g.integers(-8, 9, n) / 4.      # many values on the edges of cells


def cell(e, v):
    k = [i for i in range(len(e) - 1) if e[i] <= v < e[i + 1] or i == len(e) - 2 and v == e[-1]]
    return k[0] if k else None


@contract('histogram', 3)
def _(r):
    n = r.int(1, 40); x, y = points(r, n)
    w = r.pick([None, r.g.uniform(.1, 3, n)])
    nx, ny = r.int(1, 8), r.int(1, 8)
    if r.bool(): lim = dict(x_range=(-2., 2.), y_range=(-1., 1.5))
    else: lim = dict(x_range=(x.min(), x.max()), y_range=(y.min(), y.max()))
    if lim['x_range'][0] == lim['x_range'][1] or lim['y_range'][0] == lim['y_range'][1]: raise Skip
    ex, ey = np.linspace(*lim['x_range'], nx + 1), np.linspace(*lim['y_range'], ny + 1)
    bx, by = nx, ny
    if r.bool():
        bx = ex = np.sort(r.g.choice(np.arange(-16, 17) / 8., nx + 1, replace=False)); by = ey = np.sort(r.g.choice(np.arange(-16, 17) / 8., ny + 1, replace=False)); lim = {}
    mode = r.pick(['zero', 'fixed', None])
    r.note(x=x, y=y, w=w, bins=(bx, by), lim=lim, mode=mode)
    ww = np.ones(n) if w is None else w
    H = np.zeros((nx, ny))
    for a, b_, c in zip(x, y, ww):
        i, j = cell(ex, a), cell(ey, b_)
        if i is not None and j is not None: H[i, j] += c
    if H.sum() == 0: raise Skip
    H = H / H.sum() / np.outer(np.diff(ex), np.diff(ey))
    e = Histogram2D(x_bins=bx, y_bins=by, **lim, **({'out_of_range': mode} if mode else {}))
    o = e.fit(x, y, w) if w is not None else e.fit(x, y)
    ensure(o is e, 'the estimator itself')
    if not lim or lim['x_range'] == (-2., 2.): ensure_close(e.z, H, 'density per cell')
    ensure_close(e.x_c, (ex[1:] + ex[:-1]) / 2, 'centres'); ensure_close(e.y_c, (ey[1:] + ey[:-1]) / 2, 'centres')
    qx, qy = points(r, 30)
    qx, qy = np.concatenate([qx, r.g.choice(e.x_e, 9), [e.x_e[0], e.x_e[-1]]]), np.concatenate([qy, r.g.choice(e.y_e, 9), [e.y_e[-1], e.y_e[0]]])
    z = e.z.copy()
    for _ in range(2):
        o = e.on(qx, qy)
        ensure(o.shape == qx.shape, 'one value per point')
        for a, b_, v in zip(qx, qy, o):
            i, j = cell(e.x_e, a), cell(e.y_e, b_)
            if i is not None and j is not None: ensure(v == z[i, j], 'the cell that counts the point', a, b_, v)
            elif mode != 'fixed': ensure(v == 0, 'nothing outside', a, b_, v)
            else:
                i = i if i is not None else 0 if a < e.x_e[0] else nx - 1; j = j if j is not None else 0 if b_ < e.y_e[0] else ny - 1
                ensure(v == z[i, j], 'the nearest cell outside', a, b_, v)
        ensure_eq(e.z, z, 'the map is left alone')
    ensure_raises(AssertionError, lambda: Histogram2D(out_of_range='nearest'), 'unknown treatment')


@contract('nearest neighbours', 2)
def _(r):
    n, m, k = r.int(1, 15), r.int(1, 8), r.int(1, 18)
    x, y, w = r.g.normal(size=n), r.g.normal(size=n), r.pick([None, r.g.uniform(.1, 3, n)])
    qx, qy = r.g.normal(size=m), r.g.normal(size=m)
    r.note(x=x, y=y, w=w, k=k, qx=qx, qy=qy)
    e = KNearestNeighbor2D(k=k)
    o = e.fit(x, y, weight=w) if w is not None else e.fit(x, y)
    ensure(o is e, 'the estimator itself')
    o = e.on(qx, qy)
    for t in range(m):
        d = np.hypot(x - qx[t], y - qy[t]); near = np.argsort(d)[:k]
        ensure_close(o[t], (len(near) if w is None else w[near].sum()) / (np.pi * d[near[-1]]**2), 'number of neighbours over their area')


class Fn(DensityEstimator2D):
    def __init__(self, r): super().__init__(); self.c = r.g.uniform(.2, 2, 4)

    def fit(self, x, y, weight=None): self.data = x, y, weight; return self

    def on(self, x, y):
        ensure(np.ndim(x) == 1 and np.shape(x) == np.shape(y), 'flat coordinates')
        return np.exp(-self.c[0] * (x - self.c[1])**2 - self.c[2] * (y + self.c[3])**2)


@contract('mesh', 1)
def _(r):
    f = Fn(r); nx, ny = r.int(1, 6), r.int(1, 6); idx = r.pick([None, 'xy', 'ij'])
    x, y, a = r.arr((nx,)), r.arr((ny,)), r.g.uniform(-2, 2, 4)
    r.note(x=x, y=y, a=a, idx=idx)
    kw = {} if idx is None else {'indexing': idx}
    if r.bool(): g = f.on_meshgrid(x, y, **kw)
    elif r.bool(): g = f.on_meshgrid(x, y_range=a[2:], n_y=ny, **kw); y = np.linspace(a[2], a[3], ny)
    else: g = f.on_meshgrid(x_range=a[:2], y_range=a[2:], n_x=nx, n_y=ny, **kw); x, y = np.linspace(a[0], a[1], nx), np.linspace(a[2], a[3], ny)
    X, Y = np.meshgrid(x, y, indexing=idx or 'xy')
    ensure_close(g.x, x, 'x'); ensure_close(g.y, y, 'y'); ensure_close(g.x_m, X, 'x mesh'); ensure_close(g.y_m, Y, 'y mesh')
    ensure_close(g.z_m, f.on(X.ravel(), Y.ravel()).reshape(X.shape), 'density at the position')


@contract('plots', 4)
def _(r):
    n, nx, ny = r.int(2, 40), r.int(1, 7), r.int(1, 7)
    x, y = points(r, n); w = r.pick([None, r.g.uniform(.1, 3, n)])
    lims = ((-3., 2.5), (-2., 3.)) if r.bool() else ((x.min(), x.max()), (y.min(), y.max()))
    if lims[0][0] >= lims[0][1] or lims[1][0] >= lims[1][1]: raise Skip
    own = r.bool(); f = Fn(r) if own else None
    tr = r.pick([None, np.sqrt, lambda z: z * 3 + 1])
    if r.bool(): ny = nx; nb = nx
    else: nb = (nx, ny)
    r.note(x=x, y=y, w=w, lims=lims, own=own, nb=nb)
    if not own and np.histogram2d(x, y, bins=(nx, ny), range=lims)[0].sum() == 0: raise Skip
    ax = Axes()
    s = Scatter2D(ax, x, y, **({'range': lims} if lims[0][0] == -3. or r.bool() else {}), n_bins=nb, weight=w, z_transform=tr, density_estimator=f)
    xe, ye = np.linspace(*lims[0], nx + 1), np.linspace(*lims[1], ny + 1); xc, yc = (xe[1:] + xe[:-1]) / 2, (ye[1:] + ye[:-1]) / 2
    ensure_close(s.range, lims, 'range')
    for a, b_, t in ((s.edges, (xe, ye), 'edges'), (s.centers, (xc, yc), 'centres')):
        ensure_close(a[0], b_[0], t); ensure_close(a[1], b_[1], t)
    ensure_close(s.step, ((lims[0][1] - lims[0][0]) / nx, (lims[1][1] - lims[1][0]) / ny), 'steps')
    X, Y = np.meshgrid(xc, yc)
    if own:
        ensure(f.data[0] is not None and np.array_equal(f.data[0], x) and np.array_equal(f.data[1], y) and (f.data[2] is w or np.array_equal(f.data[2], w)), 'fitted to the data')
        z, zp = f.on(X.ravel(), Y.ravel()).reshape(X.shape), f.on(x, y)
    else:
        H, hx, hy = np.histogram2d(x, y, bins=(nx, ny), range=lims, weights=w, density=True)
        z = H.T
        at = [(cell(hx, a), cell(hy, b_)) for a, b_ in zip(x, y)]
        zp = np.array([0. if None in q else H[q] for q in at])
    if tr is not None: z, zp = tr(z), tr(zp)
    ensure_close(s.transformed_density_on_mesh, z, 'densities on the cells')
    flat = np.sort(z.ravel()); cum = np.cumsum(flat) / flat.sum()
    zs, pm = s.cum_prob_mass
    ensure_close(zs, flat, 'cells ascending'); ensure_close(pm, cum, 'fraction up to the cell')
    ps = np.array([p for p in r.g.uniform(0, 1, 6) if np.abs(cum - (1 - p)).min() > 1e-6] or [2.])
    if ps[0] < 2.:
        lev = s.z_level_at_percentile(ps)
        want = np.array([flat[np.flatnonzero(cum >= 1 - p)[0]] for p in ps])
        ensure_close(lev, want, 'levels')
        p = float(ps[0]); r.note(p=p)
        k = np.flatnonzero(cum >= 1 - p)[0]; lv = flat[max(k - 1, 0)]
        near = np.abs(zp - lv) <= 1e-9 * (1 + abs(lv))
        o = s.scatter(hidden_in_p=p, s=3, zorder=7); ensure(o is s, 'chained')
        k_, (gx, gy), kw = ax.drawn[-1]
        ensure(k_ == 'scatter' and kw == dict(marker='o', s=3, c='k', edgecolors='none', alpha=None, linewidths=1, zorder=7), 'options', kw)
        sel = zp < lv
        if own and not near.any(): ensure_eq(gx, x[sel], 'points below the level'); ensure_eq(gy, y[sel], 'points below the level')
        elif not own:
            lv = s.z_level_at_percentile([p], id_shift=-1)[0]
            sel = (s.density_estimator.on(x, y) if tr is None else tr(s.density_estimator.on(x, y))) < lv
            ensure_eq(gx, x[sel], 'points below the level'); ensure_eq(gy, y[sel], 'points below the level')
            if not near.any(): ensure_eq(sel, zp < lv, 'points below the level')
    s.scatter(alpha=.5); k_, (gx, gy), kw = ax.drawn[-1]
    ensure_eq(gx, x, 'all points'); ensure_eq(gy, y, 'all points'); ensure(k_ == 'scatter' and kw['alpha'] == .5 and kw['s'] == 10, 'options', kw)
    s.mesh(vmin=1, rasterized=True); k_, (gx, gy, gz), kw = ax.drawn[-1]
    ensure_close(gx, xe, 'mesh edges'); ensure_close(gy, ye, 'mesh edges'); ensure_close(gz, z, 'mesh values'); ensure(k_ == 'pcolormesh' and kw['vmin'] == 1 and kw['rasterized'] is True and kw['cmap'] == 'jet', 'options', kw)
    fill = r.bool(); q = r.pick([None, [.9, .5], [.3]])
    s.contour(q, use_fill=fill, vmax=4); k_, (gx, gy, gz), kw = ax.drawn[-1]
    ensure(k_ == ('contourf' if fill else 'contour') and kw['vmax'] == 4 and ('linewidths' in kw) == (not fill), 'options', kw)
    ensure_close(gx, xc, 'contour x'); ensure_close(gy, yc, 'contour y'); ensure_close(gz, z, 'contour values')
    ensure_close(kw['levels'], s.z_level_at_percentile((.99, .95, .68) if q is None else q), 'contour levels')
    ensure(len(s.plot_outs) == len(ax.drawn), 'what was drawn is kept')


@contract('levels', 2)
def _(r):
    """integer densities of a power-of-two total: fractions and percentiles exact"""
    nx, ny = r.int(1, 4), r.int(1, 4); n = nx * ny
    v = r.g.integers(0, 5, n).astype(float); t = 2. ** np.ceil(np.log2(v.sum() + 1)); v[r.int(0, n - 1)] += t - v.sum()
    r.note(v=v, shape=(ny, nx))

    class E(DensityEstimator2D):
        def fit(self, x, y, weight=None): return self
        def on(self, x, y): return v.copy() if len(x) == n else pv.copy()
    pv = r.g.choice(np.r_[v, v + .5], n + 1)
    x, y = np.arange(n + 1.), np.arange(n + 1.) * 2
    ax = Axes(); s = Scatter2D(ax, x, y, n_bins=(nx, ny), density_estimator=E())
    flat = np.sort(v); cum = np.cumsum(flat) / t
    ps = np.r_[1 - cum, r.g.uniform(0, 1, 3), 0., 1.]; r.note(ps=ps)
    k = np.array([np.flatnonzero(cum >= 1 - p)[0] for p in ps])
    ensure_eq(s.z_level_at_percentile(ps), flat[k], 'levels'); ensure_eq(s.z_level_at_percentile(list(ps), id_shift=-1), flat[np.maximum(k - 1, 0)], 'the cell before')
    p, k = [(p, q) for p, q in zip(ps, k)][r.int(0, len(ps) - 1)]
    s.scatter(hidden_in_p=p); gx, gy = ax.drawn[-1][1]; sel = pv < flat[max(k - 1, 0)]
    r.note(p=p)
    ensure_eq(gx, x[sel], 'hidden points'); ensure_eq(gy, y[sel], 'hidden points')
