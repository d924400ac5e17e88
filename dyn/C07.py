"""Executable contracts: histograms and bin refinement."""
import numpy as np
from dyn.fw import *
from pyhipp.stats import binning as BN
B_ = BN.Bin


def cells(e, x):
    return np.searchsorted(e, x, side='right') - 1


@contract('add', 3)
def _(r):
    n = r.int(1, 7)
    if r.bool():
        lo = r.real(); hi = lo + r.pick([1., float(n), r.pos(.1, 10)]); bins = BN.EqualSpaceBins((lo, hi), n)
    else: bins = BN.BiSearchBins(r.g.permutation(r.asc(n + 1)))
    e = bins.x_edges
    dt = r.pick([float, int]); shape = r.pick([(), (), (2,)])
    d = BN.BinnedData(bins, dtype=dt, shape=shape)
    ensure(d.data.shape == (n,) + shape and not d.data.any(), 'starts empty')
    want = np.zeros((n,) + shape)
    for _ in range(r.int(1, 3)):
        m = r.int(0, 8)
        x = r.arr(m, e[0] - 1, e[-1] + 1, special=(np.inf, -np.inf, 1e30) + ((tuple(e)) if isinstance(bins, BN.BiSearchBins) else (e[0],)), p=.3)
        if isinstance(bins, BN.EqualSpaceBins): x = x[(np.abs(x[:, None] - e[1:]) > 1e-9).all(-1)]
        m = len(x)
        w = None if r.bool(.4) else (r.iarr((m,) + shape, -3, 5) if dt is int else r.arr((m,) + shape, -2, 5))
        r.note(e=e, x=x, w=w); x0 = x.copy(); w0 = None if w is None else w.copy()
        d.add(x) if w is None else d.add(x, w)
        ensure_eq(x, x0, 'samples unchanged')
        if w is not None: ensure_eq(w, w0, 'weights unchanged')
        for i, k in enumerate(cells(e, x)):
            if 0 <= k < n: want[k] += 1 if w is None else w[i]
        ensure(d.data.dtype == np.dtype(dt), 'type kept'); ensure_close(d.data, want, 'contents')
    ensure_raises(Exception, lambda: d.add(np.zeros(3), np.zeros(2)), 'inconsistent weights')


@contract('refine', 2)
def _(r):
    n, s = r.int(1, 6), r.int(1, 5)
    e = r.asc(n + 1); keep = e.copy(); r.note(e=e, s=s)
    arg = e if r.bool(.7) else list(e)
    f = B_.insert_sub_bins_into_edges(arg, s)
    ensure(f.shape == (n * s + 1,), 'count', f); ensure_close(f[::s], e, 'original edges kept', 1e-14)
    ensure_close(np.diff(f), np.repeat(np.diff(e) / s, s), 'equally spaced inside', 1e-9, 1e-12); ensure_eq(e, keep, 'input')
    b, s2, rg = B_.parse_sub_bin_spec(arg, s)
    ensure_close(b, f, 'edges spec'); ensure(s2 == s and rg[0] == f[0] and rg[1] == f[-1], 'edges spec')
    ensure(B_.parse_sub_bin_spec(n, s, (1., 2.)) == (n * s, s, (1., 2.)), 'count spec')
    ensure_raises(AssertionError, lambda: B_.parse_sub_bin_spec(n, 0, (1., 2.)), 'factor'); ensure_raises(AssertionError, lambda: B_.parse_sub_bin_spec(n, s), 'range')
    st = r.int(1, n)
    ensure_close(B_.edges_to_centers(arg, st), .5 * (e[:-st] + e[st:]), 'centers'); ensure_close(B_.edges_to_widths(arg, st), e[st:] - e[:-st], 'widths')
    ensure_close(B_.edges_to_centers(arg), .5 * (e[:-1] + e[1:]), 'centers'); ensure_close(B_.edges_to_widths(arg), np.diff(e), 'widths')


@contract('combine', 2)
def _(r):
    n = r.int(1, 8); c = r.int(1, n); tail = r.pick([(), (), (3,)])
    x = r.iarr((n,) + tail, -5, 5) if r.bool() else r.arr((n,) + tail)
    keep = x.copy(); r.note(x=x, c=c)
    y = B_.combine_adjacent_bins(x, c)
    ensure(y.shape == (n - c + 1,) + tail, 'shape', y.shape); ensure_close(y, np.stack([x[i:i + c].sum(0) for i in range(n - c + 1)]), 'sliding sums'); ensure_eq(x, keep, 'input')
    y[...] = 99; ensure_eq(x, keep, 'independent')
    ensure_raises(AssertionError, lambda: B_.combine_adjacent_bins(x, n + 1 + r.int(0, 2)), 'too many'); ensure_raises(AssertionError, lambda: B_.combine_adjacent_bins(x, 0), 'none')


@contract('overlapped', 2)
def _(r):
    nb = r.int(1, 8); s = r.int(1, nb); lo = r.real(); hi = lo + r.pos(.1, 10); m = r.int(0, 20)
    x = r.arr(m, lo - .5, hi + .5); w = None if r.bool() else r.arr(m)
    r.note(x=x, w=w, nb=nb, s=s, lo=lo, hi=hi)
    d = BN.Hist1D.from_overlapped_bins(x, nb, s, (lo, hi), w)
    e = np.linspace(lo, hi, nb + 1)
    ensure_close(d['sub_e'], e, 'refined edges')
    want = np.zeros(nb)
    for i, k in enumerate(cells(e, x)):
        if 0 <= k < nb: want[k] += 1 if w is None else w[i]
    ensure_close(d['sub_h'], want, 'refined contents')
    ensure_close(d['h'], [want[i:i + s].sum() for i in range(nb - s + 1)], 'sliding sums'); ensure_close(d['x'], .5 * (e[s:] + e[:-s]), 'centers'); ensure_close(d['dx'], e[s:] - e[:-s], 'widths')


@contract('range', 1)
def _(r):
    x = r.arr(r.int(1, 12)); p = tuple(sorted((r.g.random(), r.g.random()))); lo = r.real(-12, 8); rg = (lo, lo + r.pos(.1, 10))
    q = np.quantile(x, p); P = B_.parse_p_range_spec
    arg = x if r.bool() else list(x)
    r.note(x=x, p=p, rg=rg)
    ensure_close(P(arg), (x.min(), x.max()), 'extremes'); ensure_close(P(arg, rg), rg, 'explicit'); ensure_close(P(arg, p_range=p), q, 'quantiles')
    ensure_close(P(arg, rg, p), (max(rg[0], q[0]), min(rg[1], q[1])), 'intersection'); ensure(P(None, rg) == rg, 'no data')
    ensure_raises(AssertionError, lambda: P(), 'nothing'); ensure_raises(AssertionError, lambda: P(None, rg, p), 'quantiles without data')
