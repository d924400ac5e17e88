"""Executable contracts: binned number densities with bootstrap errors."""
import numpy as np
from dyn.fw import *
from pyhipp.astro.stats.lss import BinnedVolumeDensity as D
from pyhipp.stats import Rng, RandomNoise


class Shift:
    """noise of a known value"""
    def __init__(self, d): self.d, self.calls = d, 0
    def add_to(self, x, n_repeats=1):
        self.calls += 1
        return np.asarray(x) + self.d


@contract('density', 2)
def _(r):
    n = r.int(1, 12)
    x = r.arr((n,), -2, 2, special=(-1., 0., 1., 2.), p=.3)
    w = r.arr((n,), 0, 3) if r.bool() else None
    kw = {}
    sub = r.int(1, 4)
    V = r.pick([1., .5, 7.])
    mode = r.pick(['range', 'range', 'data', 'p', 'both', 'edges', 'edges'])
    if mode == 'edges':
        e = np.sort(r.g.permutation(9)[: r.int(2, 5)] / 2. - 2.)
        kw['bins'] = e if r.bool() else list(e)
        lo, hi = e[0], e[-1]
        fine = np.concatenate([np.linspace(a, b, sub, endpoint=False) for a, b in zip(e[:-1], e[1:])] + [[e[-1]]])
    else:
        nb = r.int(1, 5); kw['bins'] = nb
        lo, hi = -np.inf, np.inf
        if mode in ('range', 'both'): kw['range'] = (lo, hi) = r.pick([(-1., 1.), (-2., 0.), (0., 3.)])
        if mode in ('p', 'both'):
            kw['p_range'] = p = r.pick([(.1, .9), (0., 1.), (.25, .6)])
            q = np.quantile(x, p); lo, hi = max(lo, q[0]), min(hi, q[1])
        if mode == 'data': lo, hi = x.min(), x.max()
        if not lo < hi: raise Skip
        fine = np.linspace(lo, hi, nb * sub + 1)
    sel = (x >= lo) & (x < hi)
    k, seed = r.int(1, 4), r.int(0, 9)
    pad = r.pick([None, 1e-8, 1e-3, .1])
    if pad is not None: kw['policy'] = D.Policy(lg_y_pad=pad)
    else: pad = 1e-8
    noise = Shift(r.pick([0., .1, -1.])) if r.bool(.4) else None
    if not sel.any(): raise Skip
    x0, w0 = x.copy(), None if w is None else w.copy()
    r.note(x=x, w=w, sub=sub, V=V, mode=mode, seed=seed, k=k, pad=pad, noise=noise and noise.d, kw=kw)
    o = D.from_raw(x if r.bool() else list(x) if w is None else x, volume=V, sub_bins=sub, weights=w, n_bootstrap=k, rng=seed, noise=noise, **kw)
    rng = Rng(seed)
    xs, ws = x[sel], np.ones(sel.sum()) if w is None else w[sel]
    m = len(fine) - sub
    dx = fine[sub:] - fine[:-sub]
    ensure_close(o['x'], .5 * (fine[sub:] + fine[:-sub]), 'centers'); ensure_close(o['dx'], dx, 'widths'); ensure_close(o['sub_e'], fine, 'refined edges')
    hs = []
    for _ in range(k):
        ids = rng.choice(len(xs), size=len(xs))
        v = xs[ids] + (noise.d if noise else 0.)
        near = np.abs(v[:, None] - fine).min()
        hs.append((np.histogram(v, fine, weights=ws[ids])[0], (np.abs(v[:, None] - fine) < 1e-9).any()))
    tie = any(t for _, t in hs) and mode != 'edges' or noise and any(t for _, t in hs)
    h = np.array([[c[j:j + sub].sum() for j in range(m)] for c, _ in hs])
    S = np.asarray(o['h_samples'])
    ensure(S.shape == h.shape, 'samples', S.shape)
    if not tie: ensure_close(S, h, 'contents of the drawn rows')
    y = S / (V * dx)
    ensure_close(o['y_samples'], y, 'content per volume and width')
    ensure_close(o['lg_y_samples'], np.log10(np.maximum(y, pad)), 'logarithm of the padded density')
    for nm in ('h', 'y', 'lg_y'):
        s = np.asarray(o[nm + '_samples'])
        ensure_close(o[nm], s.mean(0), nm); ensure_close(o[nm + '_sd'], s.std(0), nm + '_sd')
    ensure_eq(x, x0, 'samples'); w is None or ensure_eq(w, w0, 'weights')
    if noise: ensure(noise.calls == k, 'noise once per resample', noise.calls)


@contract('refusals', .3)
def _(r):
    x = r.arr((5,), -1, 1)
    ensure_raises(AssertionError, lambda: D.from_raw(x, bins=[0., 1., 2.], range=(0., 1.)), 'range beside edges')
    ensure_raises(AssertionError, lambda: D.from_raw(x, bins=3, sub_bins=0, range=(-1., 1.)), 'no refinement')
    o = D.from_raw(x, range=(-1., 1.))
    ensure(np.shape(o['y_samples']) == (10, 43), 'default bins, refinement and resamples', np.shape(o['y_samples']))
    ensure_close(o['y_samples'], o['h_samples'] / o['dx'], 'default volume')
