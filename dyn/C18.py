"""Executable contracts: density estimates, ball volumes."""
import math
import numpy as np
from dyn.fw import *
from pyhipp.core.dataproc import GridMd
from pyhipp.stats.kernel import Gaussian, Tophat
from pyhipp.stats.density_estimation import DensityEstimationND, DensityEstimation1D


def vol(d, r): return math.pi ** (d / 2) * r ** d / math.gamma(d / 2 + 1)


@contract('volume of a ball')
def _(r):
    d = r.int(0, 12); a = r.arr((r.int(0, 5),), 0, 4); x = r.real(0, 4)
    r.note(d=d, radius=x, radii=a)
    ensure_close(Tophat._ball_volume(d, x), vol(d, x), 'pi^(d/2) r^d / Gamma(d/2+1)')
    ensure_close(np.broadcast_to(Tophat._ball_volume(d, a), a.shape), np.array([vol(d, v) for v in a]), 'many radii')
    ensure_close(Tophat(1.5).volume(d, x), vol(d, min(1.5, x)), 'cut at the limit')
    ensure_raises(AssertionError, lambda: Tophat._ball_volume(-1 - d, x), 'negative dimension')


@contract('histogram')
def _(r):
    D = r.int(1, 3); flat = D == 1 and r.bool()
    N, M = r.int(1, 30), r.int(0, 8)
    es = [r.asc(r.int(2, 5), 0, 3, .2) for _ in range(D)]
    X, xp = r.arr((N, D), -.5, 3.5), r.arr((M, D), -.5, 3.5)
    for a in (X, xp):
        for i in range(len(a)):
            for d in range(D):
                if r.bool(.15): a[i, d] = es[d][r.int(0, len(es[d]) - 1)]
    w = r.arr((N,), .1, 2) if r.bool() else None
    dens, fill = r.bool(), r.pick([0., -3., 7.5])
    def cell(a, top):
        out = []
        for d in range(D):
            e = es[d]; k = np.searchsorted(e, a[d], side='right') - 1
            if top and a[d] == e[-1]: k = len(e) - 2
            if k < 0 or k > len(e) - 2: return None
            out.append(int(k))
        return tuple(out)
    H = {}
    for i in range(N):
        c = cell(X[i], True)
        if c is not None: H[c] = H.get(c, 0.) + (1. if w is None else w[i])
    tot = sum(H.values())
    r.note(edges=[e.tolist() for e in es], x=X, xp=xp, w=w, density=dens, fill=fill)
    if dens and tot == 0: raise Skip
    g = GridMd(*es)
    sq = (lambda a: a[:, 0]) if flat else (lambda a: a)
    b = [a.copy() for a in (X, xp)]
    res = (DensityEstimation1D if flat else DensityEstimationND).by_histogram(sq(X), sq(xp), g, density=dens, weight=w, out_fill=fill)
    want = []
    for j in range(M):
        c = cell(xp[j], False)
        if c is None: want.append(fill); continue
        v = H.get(c, 0.)
        if dens: v = v / tot / np.prod([es[d][c[d] + 1] - es[d][c[d]] for d in range(D)])
        want.append(v)
    ensure_close(res['h'], np.array(want).reshape(M), 'content of the cell or fill', 1e-9, 1e-12)
    ensure_eq(res['is_out'], np.array([cell(p, False) is None for p in xp], bool).reshape(M), 'outside')
    ensure_eq(X, b[0], 'samples untouched'); ensure_eq(xp, b[1], 'points untouched')


def kernel(r):
    s = r.pick([.3, 1., 2.5]); c = r.int(0, 5)
    g = lambda s: lambda d: np.exp(-.5 * d * d / s / s)
    t = lambda s: lambda d: (d < s).astype(float)
    return [(None, None), (s, g(s)), ('gaussian', g(1.)), (('gaussian', {'sigma': s}), g(s)), (('tophat', {'radius': s}), t(s)), (Gaussian(s), g(s))][c]


def setup(r):
    n, d, m = r.int(1, 25), r.int(1, 4), r.int(1, 6)
    flat = d == 1 and r.bool()
    X, xp = r.arr((n, d), 0, 3), r.arr((m, d), -.5, 3.5)
    w = r.arr((n,), .1, 2.) if r.bool() else None
    wt = np.full(n, 1 / n) if w is None else w / w.sum()
    ks, kf = kernel(r)
    return n, d, m, (lambda a: a[:, 0]) if flat else (lambda a: a), (DensityEstimation1D if flat else DensityEstimationND), X, xp, w, wt, ks, kf, np.sqrt(((xp[:, None] - X[None]) ** 2).sum(-1))


def estimate(wt, dist, kf, v):
    if not len(dist): return 0.
    if kf is None: return wt.sum() / v
    k = kf(dist)
    if abs(k.sum()) < 1e-6: raise Skip
    return (wt * k * len(k) / k.sum()).sum() / v


@contract('fixed radius')
def _(r):
    n, d, m, sq, E, X, xp, w, wt, ks, kf, dist = setup(r)
    lim = r.pick([.4, 1., 2., None])
    rad = lim if lim is not None else xp.std(0).mean() / 10
    r.note(X=X, xp=xp, w=w, max_dx=lim, kernel=str(ks))
    if rad == 0 or (np.abs(dist - rad) < 1e-9).any() or (kf is not None and (np.abs(dist[..., None] - np.array([.3, 1., 2.5])) < 1e-9).any()): raise Skip
    rows = [np.flatnonzero(row < rad) for row in dist]
    want = np.array([estimate(wt[q], dist[i, q], kf, vol(d, rad)) for i, q in enumerate(rows)])
    w0 = None if w is None else w.copy()
    res = E.by_local_kernel(sq(X), sq(xp), max_dx=lim, kernel=ks, weight=w)
    ensure_close(res['h'], want, 'weight of the neighbours per volume', 1e-8, 1e-9)
    ensure_eq(res['n_neighbors'], np.array([len(q) for q in rows]), 'neighbours used')
    ensure_close(res['neighbor_max_dx'], np.array([dist[i, q].max() if len(q) else 0. for i, q in enumerate(rows)]), 'farthest', 1e-8, 1e-9)
    if w is not None: ensure_eq(w, w0, 'weights untouched')


@contract('nearest neighbours')
def _(r):
    n, d, m, sq, E, X, xp, w, wt, ks, kf, dist = setup(r)
    lim = r.pick([None, .5, 1., 2.]); k = r.int(1, n)
    r.note(X=X, xp=xp, w=w, k=k, max_dx=lim, kernel=str(ks))
    order = np.argsort(dist, axis=1, kind='stable')
    if k < n and any(abs(dist[i, order[i, k]] - dist[i, order[i, k - 1]]) < 1e-9 for i in range(m)): raise Skip
    if (dist < 1e-9).any() or lim is not None and (np.abs(dist - lim) < 1e-9).any() or (np.abs(dist[..., None] - np.array([.3, 1., 2.5])) < 1e-9).any(): raise Skip
    want, cnt, far = [], [], []
    for i in range(m):
        q = order[i, :k]; f = dist[i, q].max()
        if lim is not None: f = min(f, lim); q = q[dist[i, q] < lim]
        want.append(estimate(wt[q], dist[i, q], kf, vol(d, f))); cnt.append(len(q)); far.append(f)
    w0 = None if w is None else w.copy()
    res = E.by_knn(sq(X), sq(xp), k=k, max_dx=lim, kernel=ks, weight=w)
    ensure_close(res['h'], np.array(want), 'weight of the neighbours per volume', 1e-8, 1e-9)
    ensure_eq(res['n_neighbors'], np.array(cnt), 'neighbours used')
    ensure_close(res['neighbor_max_dx'], np.array(far), 'farthest, cut at the limit', 1e-8, 1e-9)
    if w is not None: ensure_eq(w, w0, 'weights untouched')
