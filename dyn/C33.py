"""Executable contracts: functions tabulated on grids, grids by slices and over data ranges."""
import itertools
import numpy as np
from dyn.fw import *
from pyhipp.core.dataproc import GridMd


def axis(r): return np.sort(r.arr((r.int(1, 4),), -3, 3, special=(0., 1.)))


@contract('tabulated', 2)
def _(r):
    d = r.int(1, 3)
    ax = [axis(r) for _ in range(d)]
    c = r.arr((d,), -2, 2)
    outs, rank, xy, stacked = r.pick([0, 0, 1, 3]), r.int(0, 2), r.bool(), r.bool()
    r.note(ax=ax, c=c, outs=outs, rank=rank, xy=xy, stacked=stacked)
    calls = []

    def one(x, k): return np.cos(np.dot(c, x)) + k + np.arange(2. * 3).reshape(2, 3)[(slice(None),) * rank + (0,) * (2 - rank)] * x[0]

    def f(*a):
        calls.append(len(a))
        if stacked:
            ensure(len(a) == 1 and a[0].ndim == 2 and a[0].shape[1] == d, 'stacked locations', [np.shape(v) for v in a])
            rows = list(a[0])
        else:
            ensure(len(a) == d and all(v.ndim == 1 for v in a), 'one flat array per axis', [np.shape(v) for v in a])
            rows = list(zip(*a))
        vals = [np.array([one(x, k) for x in rows]).reshape((len(rows),) + (2, 3)[:rank]) for k in range(max(outs, 1))]
        return (tuple if r.bool() else list)(vals) if outs else vals[0]
    kw = {}
    if not xy or r.bool(): kw['xy_indexing'] = xy
    if not stacked or r.bool(): kw['stack_input'] = stacked
    o = GridMd(*ax).applied(f, **kw)
    ensure(len(calls) == 1, 'one evaluation', calls)
    order = [1, 0, 2][:d] if xy and d > 1 else list(range(d))
    vals = o.values if outs else [o.values]
    ensure(len(vals) == max(outs, 1) and len(o.locs) == d and len(o.locs_1d) == d, 'outputs')
    for k, v in enumerate(vals):
        ensure(v.shape == tuple(len(ax[a]) for a in order) + (2, 3)[:rank], 'shape', v.shape)
        for ix in itertools.product(*[range(len(e)) for e in ax]):
            p = tuple(ix[a] for a in order)
            x = np.array([e[i] for e, i in zip(ax, ix)])
            ensure_close(v[p], one(x, k), f'output {k} at {ix}')
            for a in range(d): ensure(o.locs[a][p] == x[a], 'location', a, ix)
    for a in range(d): ensure_eq(o.locs_1d[a], ax[a], 'axis')


@contract('grids')
def _(r):
    d = r.int(1, 3)
    spec, want = [], []
    for _ in range(d):
        lo = r.pick([0., -1.5, 2.]); hi = lo + r.pick([1., 3., .5])
        k = r.pick(['count', 'step', 'given', 'int'])
        if k == 'count':
            n = r.int(2, 6); spec.append(slice(lo, hi, n * 1j)); want.append(lo + (hi - lo) * np.arange(n) / (n - 1))
        elif k == 'step':
            s = r.pick([.25, .5]); spec.append(slice(lo, hi, s)); want.append(lo + s * np.arange(round((hi - lo) / s)))
        elif k == 'int': spec.append(slice(0, 5, 2)); want.append(np.array([0., 2., 4.]))
        else:
            e = axis(r); spec.append(e); want.append(e.copy())
    r.note(spec=spec)
    g = GridMd.at[tuple(spec) if d > 1 or r.bool() else spec[0]]
    ensure(type(g) is GridMd and g.n_dims == d and g.n_locs == tuple(len(w) for w in want), 'grid', g.n_locs)
    for e, w in zip(g.locs_1d, want): ensure_close(e, w, 'locations')
    for s in spec:
        if isinstance(s, np.ndarray): s += 100.
    for e, w in zip(g.locs_1d, want): ensure_close(e, w, 'own storage')


@contract('data range')
def _(r):
    d = r.int(1, 3)
    xs = [r.arr((r.int(1, 8),), -5, 5) for _ in range(d)]
    n = r.pick([None, r.int(1, 9), tuple(r.int(1, 9) for _ in range(d))])
    p = r.pick([None, (.1, .8), (0., .5)])
    r.note(xs=xs, n=n, p=p)
    kw = {}
    if n is not None: kw['n'] = n if r.bool() or np.isscalar(n) else np.array(n)
    if p: kw['p_lo'], kw['p_hi'] = p
    g = GridMd.from_data_range(*xs, **kw)
    for k, (x, e) in enumerate(zip(xs, g.locs_1d)):
        lo, hi = np.quantile(x, p or (0., 1.))
        m = 32 if n is None else n if np.isscalar(n) else n[k]
        ensure(len(e) == m, 'points', len(e))
        ensure_close(e, lo + (hi - lo) * np.arange(m) / max(m - 1, 1), 'equally spaced')
