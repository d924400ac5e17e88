"""Executable contracts: reductions."""
import numpy as np
from dyn.fw import *
from pyhipp.stats import reduction as RD
P = RD.predefined
NAMES = {'count': 'Count', 'cnt': 'Count', 'sum': 'Sum', 'mean': 'Mean', 'std_dev': 'StdDev', 'std': 'StdDev', 'sd': 'StdDev',
         'quantile': 'Quantile', 'qs': 'Quantile', 'median': 'Median', 'errorbar': 'Errorbar'}
LEVELS = {'median+1sigma': (.16, .5, .84), 'median+2sigma': (.025, .5, .975), 'median+3sigma': (.005, .5, .995)}


def wq(x, w, p, sort=True):
    i = np.argsort(x) if sort else np.arange(len(x))
    x, w = x[i], w[i]
    return np.interp(p, np.cumsum(w) / w.sum(), x)


def ref(kind, x, w, fill, p=None):
    """one row, nothing masked"""
    n = len(x)
    if kind == 'count': return n
    if kind == 'sum': return x.sum() if w is None else (x * w).sum()
    if n == 0: return np.full(np.shape(p), fill) if p is not None else fill
    wt = np.ones(n) if w is None else w
    if kind == 'mean': return (x * wt).sum() / wt.sum()
    if kind == 'std': return np.sqrt(((x - (x * wt).sum() / wt.sum())**2 * wt).sum() / wt.sum())
    if kind == 'median': return np.median(x) if w is None else wq(x, w, .5)
    if kind == 'quantile': return np.quantile(x, p) if w is None else wq(x, w, p)


def sample(r):
    n = r.int(0, 7); two = r.bool(); rows = r.int(1, 4)
    sh = (rows, n) if two else (n,)
    x = r.iarr(sh, -5, 5) if r.bool(.3) else r.arr(sh, -10, 10)
    if r.bool(.2) and n: x = x * 0 + r.int(0, 3)
    w = None if r.bool(.4) else r.arr(sh, .1, 5)
    m = None if r.bool(.4) else r.g.random(sh) < r.pick([.5, .9, .1])
    if m is not None and two and r.bool(.4): m[r.int(0, rows - 1)] = r.bool()
    return x, w, m


def rows_of(x, w, m):
    one = lambda a: [None] if a is None else ([a] if x.ndim == 1 else list(a))
    k = 1 if x.ndim == 1 else len(x)
    for i in range(k):
        xr, wr, mr = (None if a is None else (a if x.ndim == 1 else a[i]) for a in (x, w, m))
        if mr is not None: xr = xr[mr]; wr = None if wr is None else wr[mr]
        yield np.asarray(xr, float), wr


def compare(r, red, f, what):
    x, w, m = sample(r)
    r.note(what=what, x=x, w=w, m=m)
    a = [None if t is None else t.copy() for t in (x, w, m)]
    if m is not None and m.any() and r.bool(.3) and what not in ('sum', 'mean', 'std', 'mean+sd'):
        x = np.where(m, x, 1e30)                     # masked-out elements never influence a result
    elif m is not None: x = np.where(m, x, r.pick([0, 7]))
    a[0] = x.copy()
    arg = [t if t is None or r.bool(.7) else t.tolist() for t in (x, w, m)]
    if x.size == 0: arg = [x, w, m]
    got = red(*arg)
    want = [f(xr, wr) for xr, wr in rows_of(x, w, m)]
    want = np.array(want) if x.ndim == 2 else np.asarray(want[0])
    ensure(got.shape == want.shape, what + ' shape', (got.shape, want.shape))
    ensure_close(got, want, what, 1e-9, 1e-7)
    for t, u in zip((x, w, m), a):
        if t is not None: ensure_eq(t, u, what + ': input unchanged')
    return got


@contract('simple', 3)
def _(r):
    fill = r.pick([-1e10, 7, 2.5])
    cls = r.pick(['count', 'sum', 'mean', 'std', 'median'])
    if cls in ('count', 'sum'): red = P[cls]()
    elif fill == -1e10: red = P[cls]()
    else: red = P[cls](empty_fill=fill)
    compare(r, red, lambda x, w: ref(cls, x, w, fill), cls)


@contract('quantile', 3)
def _(r):
    fill = r.pick([-1e10, 7, 2.5])
    k = r.pick(['one', 'several', 'int', 'name', 'default'])
    p = {'one': lambda: float(r.g.random()), 'several': lambda: np.sort(r.g.random(r.int(1, 4))), 'int': lambda: [0, 1],
         'name': lambda: r.pick(['1sigma', *LEVELS]), 'default': lambda: None}[k]()
    kw = {} if fill == -1e10 else {'empty_fill': fill}
    red = RD.Quantile(**kw) if p is None else RD.Quantile(p, **kw)
    if p is None: p = LEVELS['median+1sigma']
    if isinstance(p, str): p = (.16, .84) if p == '1sigma' else LEVELS[p]
    compare(r, red, lambda x, w: ref('quantile', x, w, fill, np.asarray(p, float)), 'quantile')


@contract('errorbar', 3)
def _(r):
    how = r.pick(['mean+sd', *LEVELS]); fill = r.pick([-1e10, 7, 2.5])
    red = RD.Errorbar(how, empty_fill=fill)

    def f(x, w):
        if len(x) == 0: return (fill, np.nan, np.nan)
        if how == 'mean+sd':
            s = ref('std', x, w, fill); return ref('mean', x, w, fill), s, s
        a, b, c = ref('quantile', x, w, fill, np.array(LEVELS[how])); return b, b - a, c - b
    x, w, m = sample(r); r.note(how=how, x=x, w=w, m=m)
    got = red(x, w, m)
    want = np.array([f(xr, wr) for xr, wr in rows_of(x, w, m)])
    if x.ndim == 1: want = want[0]
    ensure(got.shape == want.shape, 'shape', got.shape)
    ok = ~np.isnan(want)
    ensure_close(got[ok], want[ok], 'error bar', 1e-9, 1e-7)
    full = np.isfinite(want).all(-1)
    ensure((got[full][..., 1:] >= -1e-12).all(), 'distances', got)


@contract('names', 1)
def _(r):
    ensure(sorted(P) == sorted(NAMES), 'names', sorted(P))
    want, req = [], []
    for _ in range(r.int(1, 4)):
        n = r.pick(sorted(NAMES)); k = r.int(0, 2); cls = getattr(RD, NAMES[n])
        if k == 0: req.append(n); want.append((n, cls, None))
        elif k == 1: req.append((n, {'empty_fill': 3.})); want.append((n, cls, 3.))
        else:
            i = cls(); req.append(i); want.append((i.key, i, None))
    r.note(req=str(req))
    got = list(P.iter(req if r.bool() else iter(req))) if len(req) != 1 or r.bool() else list(P.iter(req[0]))
    ensure(len(got) == len(want), 'count', len(got))
    for (n, g), (m, c, f) in zip(got, want):
        ensure(n == m, 'name', n); ensure(g is c if isinstance(c, RD.Reduce) else type(g) is c, 'kind', g)
        if f is not None: ensure((g.empty_fill == f).all(), 'option')
    ensure_raises(KeyError, lambda: P.create('nothing'), 'unknown')
    x = r.arr(r.int(1, 5))
    for n in NAMES: 
        ensure_raises(AssertionError, lambda: P[n]()(x, np.ones(len(x) + 1)), 'weights')
        ensure_raises(AssertionError, lambda: P[n]()(x, mask=np.ones(len(x) + 1, bool)), 'mask')
        ensure_raises(AssertionError, lambda: P[n]()(np.zeros((2, 2, 2))), 'three dimensions')
