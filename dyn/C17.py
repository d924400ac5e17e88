"""Executable contracts: local regression, kernels, masked fractions."""
import numpy as np
from dyn.fw import *
from pyhipp.stats import reduction as RD
from pyhipp.stats.kernel import Gaussian, Tophat, predefined as kernels
from pyhipp.stats.regression import KernelRegressionND, KernelRegression1D


def kernel(r):
    s = r.pick([.3, 1., 2.5])
    c = r.int(0, 6)
    g = lambda s: lambda d: np.exp(-.5 * d * d / s / s)
    t = lambda s: lambda d: (d < s).astype(float)
    return [(None, None), (s, g(s)), ('gaussian', g(1.)), (('gaussian', {'sigma': s}), g(s)), ('tophat', t(1.)), (('tophat', {'radius': s}), t(s)),
            (Gaussian(s) if r.bool() else Tophat(s), None)][c]


def reds(r):
    pool = ['mean', 'sum', 'count', 'cnt', 'sd', 'median', 'errorbar', ('errorbar', {'reduce': 'mean+sd'}), ('quantile', {'ps': [.1, .5]}), 'qs', ('mean', {'empty_fill': -5.}), RD.Sum()]
    return [pool[r.int(0, len(pool) - 1)] for _ in range(r.int(0 if r.bool(.1) else 1, 3))]


def setup(r):
    n, d, m = r.int(1, 25), r.int(1, 3), r.int(1, 6)
    flat = d == 1 and r.bool()
    X, xp = r.arr((n, d), 0, 3), r.arr((m, d), -.5, 3.5)
    if r.bool(.2): X = r.iarr((n, d), 0, 4).astype(float)
    y = r.iarr((n,)).astype(float) if r.bool(.2) else r.arr((n,))
    w = r.arr((n,), .1, 2.) if r.bool() else None
    dist = np.sqrt(((xp[:, None] - X[None]) ** 2).sum(-1))
    return n, m, flat, X, xp, y, w, dist


def ties(row, v, tol=1e-9):
    return (np.abs(row - v) < tol).any()


def check(r, out, req, rows, xp, once):
    """rows: per point (values, weights) of the neighbours that count"""
    ensure_eq(out['x'], xp, 'the prediction points'); ensure(len(out['y']) == len(req), 'one result per reduction', len(out['y']))
    names = []
    for q, spec in enumerate(req):
        nm, red = RD.predefined.create(spec); names.append(nm)
        want = np.array([red(y, w) for y, w in rows])
        ok = np.isfinite(want)
        ensure_close(np.where(ok, out['y'][q], 0), np.where(ok, want, 0), f'{nm}: reduction of the neighbours', 1e-7, 1e-7)
    for nm in set(names):
        q = max(i for i, k in enumerate(names) if k == nm)
        ensure(np.array_equal(out['y_' + nm], out['y'][q], equal_nan=True), 'under its name')


@contract('nearest neighbours')
def _(r):
    n, m, flat, X, xp, y, w, dist = setup(r)
    k = r.int(1, n); lim = r.pick([None, .5, 1., 2., 0.]); ks, kf = kernel(r); req = reds(r); once = r.bool(.3)
    if ks is not None and kf is None: kf = ks
    single = len(req) == 1 and r.bool()
    r.note(X=X, y=y, w=w, xp=xp, k=k, max_dx=lim, kernel=str(ks), reduce=str(req))
    order = np.argsort(dist, axis=1, kind='stable')
    if k < n and any(abs(dist[i, order[i, k]] - dist[i, order[i, k - 1]]) < 1e-9 for i in range(m)): raise Skip
    if lim is not None and ties(dist, lim) or kf is not None and (ties(dist, 1.) or ties(dist, .3) or ties(dist, 2.5)): raise Skip
    cp = [a.copy() for a in (X, y, xp)] + ([w.copy()] if w is not None else [])
    fn = KernelRegressionND.by_knn if r.bool() else KernelRegression1D.by_knn
    out = fn(X[:, 0] if flat else X, y, xp[:, 0] if flat else xp, k=k, max_dx=lim, reduce=req[0] if single else iter(req) if once else req, kernel=ks, weight=w)
    for a, c in zip((X, y, xp, w), cp): ensure_eq(a, c, 'inputs untouched')
    rows = []
    for i in range(m):
        ids = order[i, :k]; d = dist[i, ids]
        ww = None if w is None and kf is None else (np.ones(k) if w is None else w[ids]) * (1. if kf is None else kf(d))
        use = np.ones(k, bool) if lim is None else d < lim
        rows.append((y[ids][use], None if ww is None else ww[use]))
    if any(w_ is not None and len(w_) and w_.sum() < 1e-6 for _, w_ in rows): raise Skip
    # quantiles of ties in y depend on the order of the neighbours
    if w is not None or kf is not None:
        if len(set(y)) < len(y): raise Skip
    check(r, out, req, rows, xp, once)


@contract('fixed radius')
def _(r):
    n, m, flat, X, xp, y, w, dist = setup(r)
    rad = r.pick([.5, 1., 2., None, 10., 0.]); ks, kf = kernel(r); req = reds(r); once = r.bool(.3)
    if ks is not None and kf is None: kf = ks
    single = len(req) == 1 and r.bool()
    r.note(X=X, y=y, w=w, xp=xp, max_dx=rad, kernel=str(ks), reduce=str(req))
    R_ = xp.std(0).mean() / 10. if rad is None else rad
    if ties(dist, R_) or kf is not None and (ties(dist, 1.) or ties(dist, .3) or ties(dist, 2.5)): raise Skip
    if len(set(y)) < len(y): raise Skip
    cp = [a.copy() for a in (X, y, xp)] + ([w.copy()] if w is not None else [])
    out = KernelRegressionND.by_local_kernel(X[:, 0] if flat else X, y, xp[:, 0] if flat else xp, max_dx=rad, reduce=req[0] if single else iter(req) if once else req, kernel=ks, weight=w)
    for a, c in zip((X, y, xp, w), cp): ensure_eq(a, c, 'inputs untouched')
    rows = []
    for i in range(m):
        ids = np.flatnonzero(dist[i] < R_); d = dist[i, ids]
        ww = None if w is None and kf is None else (np.ones(len(ids)) if w is None else w[ids]) * (1. if kf is None else kf(d))
        rows.append((y[ids], ww))
    if any(w_ is not None and len(w_) and w_.sum() < 1e-6 for _, w_ in rows): raise Skip
    check(r, out, req, rows, xp, once)


@contract('kernel values', .5)
def _(r):
    sh = r.pick([(), (r.int(0, 6),), (3, 2)])
    d = r.arr(sh, 0, 5, special=(0., 1., 2.)); s = r.pick([.5, 1., 2., 3.])
    r.note(d=d, s=s)
    d0 = np.array(d)
    for g in (Gaussian(s), kernels.create(s)[1], kernels.create(('gaussian', {'sigma': s}))[1]): ensure_close(g(d), np.exp(-d0 ** 2 / (2 * s * s)), 'gaussian', 1e-12, 1e-300)
    for t in (Tophat(s), kernels.create(('tophat', {'radius': s}))[1]): ensure_eq(t(d), (d0 < s) * 1., 'top-hat'); ensure(t(d).dtype == float, 'real numbers')
    ensure_close(kernels.create('gaussian')[1](d), np.exp(-d0 ** 2 / 2), 'default'); ensure_eq(kernels.create('tophat')[1](d), (d0 < 1) * 1., 'default')
    ensure_eq(d, d0, 'distances untouched')
    ensure_close(Gaussian(s)(d.tolist()), np.exp(-d0 ** 2 / (2 * s * s)), 'list')


@contract('masked fraction')
def _(r):
    n, m, flat, X, xp, y, w, dist = setup(r)
    k = r.int(1, n); lim = r.pick([None, .5, 1., 2., 0.]); ks, kf = kernel(r)
    if ks is not None and kf is None: kf = ks
    mask = r.mask((n,)); mc = r.pick([None, 0, 1, 3, k, k + 1])
    r.note(X=X, mask=mask, w=w, xp=xp, k=k, max_dx=lim, kernel=str(ks), min_count=mc)
    order = np.argsort(dist, axis=1, kind='stable')
    if k < n and any(abs(dist[i, order[i, k]] - dist[i, order[i, k - 1]]) < 1e-9 for i in range(m)): raise Skip
    if lim is not None and ties(dist, lim) or kf is not None and (ties(dist, 1.) or ties(dist, .3) or ties(dist, 2.5)): raise Skip
    m0 = mask.copy()
    res = KernelRegressionND.masked_fraction_by_knn(X[:, 0] if flat else X, mask, xp[:, 0] if flat else xp, k=k, max_dx=lim, kernel=ks, weight=w, **({} if mc is None else {'min_count': mc}))
    ensure_eq(mask, m0, 'mask untouched')
    mc = 10 if mc is None else mc
    for i in range(m):
        ids = order[i, :k]; d = dist[i, ids]
        use = np.ones(k, bool) if lim is None else d < lim
        ww = ((np.ones(k) if w is None else w[ids]) * (1. if kf is None else kf(d)))[use]; mm = mask[ids][use]
        if ww.sum() > 1e-9: ensure_close(res.values[i], ww[mm].sum() / ww.sum(), 'share of masked neighbours')
        ensure(-1e-12 <= res.values[i] <= 1 + 1e-12, 'between zero and one', res.values[i])
        ensure(bool(res.invalid[i]) == bool(use.sum() < mc), 'invalid where too few neighbours were found')
        ensure(bool(np.ma.getmaskarray(res.values_ma)[i]) == bool(use.sum() < mc), 'masked where invalid')
    ensure_eq(res.values_ma.data, res.values, 'same values')
