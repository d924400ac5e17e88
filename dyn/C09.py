"""Executable contracts: bisection and interpolation."""
import numpy as np
from dyn.fw import *
from pyhipp.numerical import interpolate as I


def grid(r, lo=1, hi=12):
    n = r.int(lo, hi)
    if r.bool(.2): n = r.int(lo, 70)
    return r.asc(n), n


def probe(r, x):
    n = len(x)
    u = r.g.random()
    if u < .3: return float(x[r.int(0, n - 1)])
    if u < .4: return float(x[0] - r.pos(1e-6, 10))
    if u < .5: return float(x[-1] + r.pos(1e-6, 10))
    if u < .55: return float(np.nextafter(x[r.int(0, n - 1)], -np.inf))
    if u < .65 and n > 1:
        k = r.int(0, n - 2); return float(.5 * (x[k] + x[k + 1]))
    return float(r.g.uniform(x[0] - .3, x[-1] + .3))


def ref(x, v):
    return int(np.searchsorted(x, v, side='right')) - 1


@contract('bisearch')
def _(r):
    x, n = grid(r)
    if r.bool(.2): x = np.unique(r.iarr(n, -20, 20))
    for _ in range(8):
        v = probe(r, x)
        r.note(x=x, v=v)
        ensure(I.bisearch(x, v) == ref(x, v), 'bisearch', I.bisearch(x, v), ref(x, v))


@contract('nearest')
def _(r):
    x, n = grid(r)
    vs = np.array([probe(r, x) for _ in range(r.int(0, 8))], float)
    r.note(x=x, v=vs)
    o = I.bisearch_nearest_array(x, vs)
    ensure(o.shape == vs.shape, 'one per value')
    for v, k in zip(vs, o):
        k1 = I.bisearch_nearest(x, v)
        for kk in (k, k1):
            ensure(0 <= kk < len(x), 'position out of range', kk)
            ensure(abs(x[kk] - v) <= np.abs(x - v).min() + 1e-12, 'not the nearest', kk, v)


@contract('weights')
def _(r):
    x, n = grid(r)
    v = probe(r, x)
    r.note(x=x, v=v)
    l, rr, wl, wr = I.bisearch_interp_weight(x, v)
    ensure(0 <= l < n and 0 <= rr < n, 'positions out of range')
    ensure(wl >= 0 and wr >= 0 and abs(wl + wr - 1) < 1e-12, 'weights', wl, wr)
    if v < x[0]: ensure(l == 0 and rr == 0, 'below')
    elif v >= x[-1]: ensure(l == n - 1 and rr == n - 1, 'above')
    else:
        ensure(rr == l + 1 and x[l] <= v < x[rr], 'bracket')
        ensure(abs(wl * x[l] + wr * x[rr] - v) < 1e-9 * (1 + abs(v)), 'abscissa')
        a, c = I.linear_interp_weight(v, x[l], x[rr])
        ensure(abs(a - wl) < 1e-12 and abs(c - wr) < 1e-12, 'linear weights')


@contract('interp 1d')
def _(r):
    x, n = grid(r)
    y = r.arr(n)
    v = probe(r, x)
    r.note(x=x, y=y, v=v)
    f = I.bisearch_interp(x, y, v)
    w = np.interp(v, x, y)
    tol = 1e-9 * (1 + np.abs(y).max())
    ensure(abs(f - w) < tol, 'interpolated value', f, w)
    k = min(max(ref(x, v), 0), n - 1); k1 = min(k + 1, n - 1)
    ensure(min(y[k], y[k1]) - tol <= f <= max(y[k], y[k1]) + tol, 'leaves the interval')
    for i in (0, n - 1): ensure(abs(I.bisearch_interp(x, y, x[i]) - y[i]) < tol, 'node value')
    a, c = r.real(), r.real()
    g = I.bisearch_interp_fix_oob(x, y, v, a, c)
    ensure(abs(g - (a if v < x[0] else c if v > x[-1] else w)) < tol, 'out of range value', g)
    if n >= 2:
        ensure(abs(I.Linear(x, y, True).value_at(v) - w) < tol, 'Linear')


@contract('interp 2d')
def _(r):
    x1, n1 = grid(r, 1, 6); x2, n2 = grid(r, 1, 6)
    tr = r.int(1, 3)
    y = r.arr((n1, n2, tr))
    v1, v2 = probe(r, x1), probe(r, x2)
    r.note(x1=x1, x2=x2, y=y, v=(v1, v2))
    f = I.bisearch_interp_2d(x1, x2, y, v1, v2)
    g = np.array([[np.interp(v1, x1, y[:, j, t]) for j in range(n2)] for t in range(tr)])
    w = np.array([np.interp(v2, x2, g[t]) for t in range(tr)])
    ensure_close(f, w, '2d value', atol=1e-8)
    ensure_close(I.bisearch_interp_2d(x1, x2, np.ascontiguousarray(y[..., 0]), v1, v2), w[0], '2d scalar value', atol=1e-8)


@contract('Linear')
def _(r):
    x, n = grid(r, 2)
    y = r.arr(n)
    r.note(x=x, y=y)
    d = I.Linear(x, y, True).derivative()
    l = np.maximum(np.arange(n) - 1, 0); rr = np.minimum(np.arange(n) + 1, n - 1)
    l[-1] = n - 2; rr[0] = 1
    q = (y[rr] - y[l]) / (x[rr] - x[l])
    for v in [float(t) for t in x] + [probe(r, x) for _ in range(3)]:
        w = np.interp(v, x, q)
        ensure(abs(d.value_at(v) - w) < 1e-7 * (1 + np.abs(q).max()), 'derivative', d.value_at(v), w, v)
    bad = x.copy()
    k = r.int(0, n - 2)
    if r.bool(): bad[k + 1] = bad[k]
    else: bad[k], bad[k + 1] = bad[k + 1], bad[k]
    ensure_raises(AssertionError, lambda: I.Linear(bad, y, True), 'unsorted nodes')
    ensure_raises(AssertionError, lambda: I.Linear(x, y[:-1].copy(), True), 'shape mismatch')
