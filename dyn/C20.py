"""Executable contracts: standardisation and probability transform."""
import numpy as np
from scipy.stats import norm
from dyn.fw import *
from pyhipp.stats.preprocessing import Standardize
from pyhipp.stats.prob_dist import ProbTransToNorm


@contract('standardise')
def _(r):
    n, d = r.int(1, 8), r.int(1, 4)
    x = r.iarr((n, d)) if r.bool(.2) else r.arr((n, d), special=(0., 5.))
    if r.bool(.3): x[:, 0] = 3
    lb = r.pick([1e-10, 1e-3, .5, 2.])
    kw = {} if lb == 1e-10 and r.bool() else dict(sd_lb=lb)
    r.note(x=x, **kw)
    x0 = x.copy()
    t = Standardize(x.tolist() if r.bool(.1) else x, **kw)
    mu, sd = x0.mean(0), np.sqrt(((x0 - x0.mean(0)) ** 2).mean(0))
    want = np.maximum(sd, lb)
    ensure_close(t.mean, mu, 'mean'); ensure_close(t.sd, want, 'deviation raised to the floor'); ensure((t.sd >= lb).all(), 'floor')
    ensure_eq(x, x0, 'training data untouched')
    y = r.iarr((r.int(0, 5), d)) if r.bool(.2) else r.arr(r.pick([(d,), (r.int(0, 5), d), (2, 3, d)])); y0 = y.copy()
    r.note(y=y)
    f, g = t(y), t(y, backward=True)
    tol = dict(rtol=1e-7, atol=1e-7)
    ensure_close(f, (y0 - mu) / want, 'forward', 1e-6, 1e-6 * max(1, np.abs((y0 - mu) / want).max(initial=0.))); ensure_close(g, y0 * want + mu, 'backward')
    ensure_close(t(f, backward=True), y0, 'backward after forward', **tol)
    ensure_close((t(g) - y0) * want, 0 * y0, 'forward after backward', **tol)
    ensure_eq(y, y0, 'input untouched'); ensure(not np.shares_memory(f, y) and not np.shares_memory(g, y), 'own result')
    if want.min() > 1e-2 and not np.array_equal(np.asarray(x0), x0 * 0): ensure_close(t(t(y), backward=True), y0, 'round trip')
    ensure_raises(AssertionError, lambda: Standardize(r.arr((3,))), 'one-dimensional training data refused')


@contract('probability transform')
def _(r):
    n = r.int(2, 12)
    xs = r.asc(n, gap=1e-2)
    x0 = xs[r.perm(n)]; x = x0.copy()
    r.note(x=x)
    t = ProbTransToNorm(x)
    ensure_eq(x, x0, 'training values untouched')
    ps = np.arange(n) / (n - 1.)
    ensure_close(t.forw(xs, with_norm=False), ps, 'equally spaced probabilities')
    ensure_close(t.forw(x0, with_norm=False), ps[np.argsort(np.argsort(x0))], 'by rank')
    ensure_close(t.back(ps, with_norm=False), xs, 'inverse at the nodes')
    k = r.int(0, n - 2); u = r.real(0, 1)
    v = xs[k] + u * (xs[k + 1] - xs[k]); v = min(v, xs[k + 1])
    p = float(t.forw(v, with_norm=False))
    ensure_close(p, ps[k] + (v - xs[k]) / (xs[k + 1] - xs[k]) / (n - 1.), 'linear in between')
    vs = np.sort(np.concatenate([xs, xs[0] + np.asarray(r.arr((6,), 0, 1)) * (xs[-1] - xs[0])])); vs = np.clip(vs, xs[0], xs[-1])
    y = t.forw(vs, with_norm=False)
    ensure((np.diff(y) >= 0).all() and (np.diff(y)[np.diff(vs) > 1e-9] > 0).all(), 'monotonic', y)
    ensure(y[0] >= 0 and y[-1] <= 1, 'range')
    ensure_close(t.back(y, with_norm=False), vs, 'inverse', 1e-7, 1e-7)
    z = t.forw(vs); ensure_close(z, norm.ppf(y), 'normal variates')
    ensure_close(t.back(z), vs, 'inverse through the normal distribution', 1e-6, 1e-6)
    ensure_close(t.back(t.forw(v)), v, 'scalar', 1e-6, 1e-6)
    w = r.arr((4,), 0., 1.); ensure_close(t.forw(t.back(w, with_norm=False), with_norm=False), w, 'forward after backward', 1e-7, 1e-7)
    q = r.arr((4,), -2., 2.); ensure_close(t.forw(t.back(q)), q, 'forward after backward (normal)', 1e-6, 1e-6)
    d = x0.copy(); d[r.int(0, n - 1)] = d[r.int(0, n - 1)]
    if len(set(d)) < n: ensure_raises(AssertionError, lambda: ProbTransToNorm(d), 'repeated values refused')
    ensure_raises(ValueError, lambda: t.forw(xs[-1] + 1.), 'outside the training range')
