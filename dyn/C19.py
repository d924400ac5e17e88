"""Executable contracts: bootstrap and noise."""
import numpy as np
from dyn.fw import *
from pyhipp.stats.sampling import Bootstrap, RandomNoise
from pyhipp.stats.stacking import Stack
from pyhipp.stats.random import Rng


@contract('bootstrap', 2.)
def _(r):
    nd = r.int(0 if r.bool(.1) else 1, 3)
    dsets, maxs = [], []
    for i in range(nd):
        n = r.int(1, 12)
        # every row carries its own number, so that rows can be told apart in every column
        d = {f'c{i}_{j}': 1000. * (10 * i + j) + np.arange(n) if r.bool(.7) else
             1000. * (10 * i + j) + np.arange(n)[:, None] + np.zeros(2) for j in range(r.int(0 if r.bool(.1) else 1, 3))}
        dsets.append(d); maxs.append(r.pick([0, 1, n, n + 3, 5]) if r.bool(.7) else 10**9)
    rows = [len(next(iter(d.values()))) if d else 0 for d in dsets]
    use_max = r.bool(); size = [min(a, b) if use_max else a for a, b in zip(rows, maxs)]
    kw = {'extra': r.real(), 'mode': 'x'} if r.bool() else (None if r.bool() else {})
    nb = r.int(1, 6)
    keep = r.bool()
    shapes = {'a': (), 'b': (3,), 'c': (2, 2)}
    req = [k for k in ('a', 'b', 'c') if r.bool(.7)]
    seed = r.pick([0, 1, 12345, None]) if r.bool(.8) else r.int(0, 10**6)
    r.note(rows=rows, maxs=maxs if use_max else None, cols=[list(d) for d in dsets], kw=kw, n_resample=nb, keep=keep, req=req, seed=seed)
    org = [{k: v.copy() for k, v in d.items()} for d in dsets]
    def run(sd, dsets, maxs, req):
        seen, outs = [], []
        def stat(**a):
            seen.append(dict(a)); g = np.random.default_rng(len(seen))
            outs.append({k: g.normal(size=s) if s else float(g.normal()) for k, s in shapes.items()} | {'note': len(seen)})
            return outs[-1]
        res = Bootstrap.resampled_call(stat, dsets, req, stats_kw=kw, n_resample=nb, rng=sd, keep_samples=keep, dsets_max_sizes=maxs)
        return res, seen, outs
    once = r.bool(.3)
    feed = lambda x: None if x is None else (iter(x) if once else (tuple(x) if r.bool(.3) else list(x)))
    mk = lambda sd: np.random.default_rng(sd) if r.bool(.2) else (Rng(np.random.default_rng(sd)) if r.bool(.2) else sd)
    sd = seed if seed is not None else np.random.default_rng(5)
    res, seen, outs = run(mk(seed) if seed is not None else sd, feed(dsets), feed(maxs) if use_max else None, feed(req))
    ensure(len(seen) == nb, 'one call per resample', len(seen))
    want_keys = {k for d in dsets for k in d} | set(kw or {})
    for a in seen:
        ensure(set(a) == want_keys, 'exactly the columns and the fixed arguments', sorted(a), sorted(want_keys))
        for k, v in (kw or {}).items(): ensure(a[k] == v, 'fixed argument')
        for i, d in enumerate(dsets):
            ids = None
            for j, k in enumerate(d):
                v = a[k]; base = org[i][k].reshape(rows[i], -1)[0, 0]
                ensure(v.shape == (size[i],) + org[i][k].shape[1:], 'as many rows as drawn', k, v.shape)
                got = (v.reshape(size[i], -1)[:, 0] - base).astype(int) if size[i] else np.zeros(0, int)
                ensure(((got >= 0) & (got < rows[i])).all(), 'rows of the data set', got)
                ensure_eq(v, org[i][k][got], 'whole rows')
                ensure(ids is None or (ids == got).all(), 'one index set for all columns', ids, got); ids = got
    for k in req:
        x = np.array([o[k] for o in outs])
        ensure_close(res[k], x.mean(0), 'mean over the resamples'); ensure_close(res[k + '_sd'], np.sqrt(((x - x.mean(0)) ** 2).mean(0)), 'deviation over the resamples')
        if keep: ensure_eq(res[k + '_samples'], x, 'samples')
        else: ensure(k + '_samples' not in res, 'samples only on request')
    for k in list(shapes) + ['note']:
        if k not in req: ensure_eq(res[k], outs[0][k], 'other outputs are passed through')
    ensure(set(res) == set(shapes) | {'note'} | {k + s for k in req for s in (['_sd', '_samples'] if keep else ['_sd'])}, 'nothing is invented', sorted(res))
    for d, o in zip(dsets, org):
        ensure(list(d) == list(o), 'inputs untouched')
        for k in d: ensure_eq(d[k], o[k], 'inputs untouched')
    if seed is not None:
        _, s1, _ = run(seed, list(dsets), list(maxs) if use_max else None, req); _, s2, _ = run(seed, list(dsets), list(maxs) if use_max else None, req)
        for a, c, e in zip(s1, s2, seen):
            for k in a: ensure_eq(a[k], c[k], 'same seed, same resamples'); ensure_eq(a[k], e[k], 'same seed, same resamples')
    if use_max: ensure_raises(AssertionError, lambda: run(0, list(dsets), list(maxs) + [1], req), 'size limits of another number')


@contract('draws with replacement', .3)
def _(r):
    n = r.int(20, 40)
    s = r.int(0, 10**6); r.note(n=n, seed=s)
    seen = []
    Bootstrap.resampled_call(lambda x: seen.append(x) or {'a': 0.}, [{'x': np.arange(n)}], ['a'], n_resample=20, rng=s)
    ensure(any(len(set(x)) < n for x in seen), 'drawn with replacement')
    ensure(len({tuple(x) for x in seen}) > 1, 'resamples differ')
    allv = np.concatenate(seen)
    ensure(set(allv) == set(range(n)) or len(set(allv)) > .8 * n, 'every row can be drawn', sorted(set(range(n)) - set(allv)))
    a, c = [], []
    Bootstrap.resampled_call(lambda x, y: (a.append(x), c.append(y)) and {'a': 0.}, [{'x': np.arange(n)}, {'y': np.arange(n)}], ['a'], n_resample=3, rng=s)
    ensure(any((p != q).any() for p, q in zip(a, c)), 'data sets are drawn independently')


@contract('noise')
def _(r):
    n, k, sg, lg, s = r.int(0, 8), r.int(1, 4), r.pick([0., .1, 1., 2.5, -1.]), r.bool(), r.int(0, 10**6)
    x = r.iarr((n,)) if r.bool(.2) else r.arr((n,))
    x0 = x.copy()
    r.note(x=x, sigma=sg, in_lg=lg, n_repeats=k, seed=s)
    m = RandomNoise(sg, noise_in_lg=lg, rng=s)
    g = np.random.default_rng(s)
    for _ in range(2):
        y = m.add_to(x.tolist() if r.bool(.2) else x, **({} if k == 1 and r.bool() else dict(n_repeats=k)))
        d = g.standard_normal((k, n)) * sg
        want = x0 * 10 ** d if lg else x0 + d
        ensure_close(y, want[0] if k == 1 else want, 'noisy values')
        ensure_eq(x, x0, 'values untouched')


@contract('mean and standard deviation', .5)
def _(r):
    x = r.arr(r.pick([(r.int(1, 6),), (r.int(1, 6), 3), (r.int(1, 5), 2, 2)]))
    r.note(x=x)
    mu, sd = Stack.mean_and_sd(x.tolist() if r.bool(.2) else x)
    ensure_close(mu, x.sum(0) / len(x), 'mean'); ensure_close(sd, np.sqrt(((x - x.sum(0) / len(x)) ** 2).sum(0) / len(x)), 'deviation')
