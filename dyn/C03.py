"""Executable contracts: clamping and guarded arithmetic."""
import numpy as np
from dyn.fw import *
from pyhipp.core.dataproc.num import Num


def bnds(r, k):
    a, c = sorted([r.real(-5, 5), r.real(-5, 5)])
    if k == 'i': a, c = int(round(a)), int(round(c))
    if r.bool(.1): c = a
    return (a if r.bool(.7) else None), (c if r.bool(.7) else None)


def want(x, lo, hi):
    x = np.array(x)
    y = x.copy()
    if lo is not None: y = np.where(x < lo, lo, y)
    if hi is not None: y = np.where(x > hi, hi, y)
    return y


@contract('bound scalar')
def _(r):
    k = r.pick('ri')
    lo, hi = bnds(r, k)
    x = r.real(-8, 8) if k == 'r' else r.int(-8, 8)
    if r.bool(.2) and lo is not None: x = lo
    if r.bool(.2) and k == 'r': x = np.float64(x)
    r.note(x=x, lo=lo, hi=hi)
    for f in (Num.bound, Num.bound_scalar):
        o = f(x, lo=lo, hi=hi)
        ensure(np.ndim(o) == 0 and o == want(x, lo, hi), 'scalar bound', o)


@contract('bound array')
def _(r):
    k = r.pick('ri')
    lo, hi = bnds(r, k)
    shp = r.shape(r.int(0, 3))
    x = r.arr(shp, -8, 8, special=[v for v in (lo, hi) if v is not None]) if k == 'r' else r.iarr(shp, -8, 8)
    x = np.asarray(x)
    r.note(x=x.copy(), lo=lo, hi=hi)
    for f in (Num.bound, Num.bound_array):
        for copy in (True, False):
            if f is Num.bound and shp == (): continue
            y = x.copy()
            o = f(y, lo=lo, hi=hi, copy=copy)
            ensure_eq(o, want(x, lo, hi), 'bounded array')
            if copy: ensure_eq(y, x, 'input changed'); ensure(not np.shares_memory(o, y) or y.size == 0, 'shares storage')
            else: ensure_eq(y, o, 'not in place')
    if x.ndim == 1:
        l = x.tolist()
        ensure_eq(Num.bound(l, lo, hi) if len(l) else np.asarray(x), want(x, lo, hi) if len(l) else x, 'list')


@contract('safe functions')
def _(r):
    lo = r.pick([1e-10, r.pos(1e-12, 10.)])
    shp = r.shape()
    x = r.arr(shp, -8, 8, special=[0., lo, lo / 2, -lo, 2 * lo])
    y = r.arr(shp, -8, 8, special=[0., lo, lo / 2, -lo, 2 * lo])
    r.note(x=x.copy(), y=y.copy(), lo=lo)
    kw = {} if lo == 1e-10 else {'lo': lo}
    x0, y0 = x.copy(), y.copy()
    ensure_close(Num.safe_div(x, y, **kw), x0 / np.maximum(y0, lo), 'safe_div', atol=0)
    for f, g in ((Num.safe_lg, np.log10), (Num.safe_ln, np.log)):
        ensure_close(f(x, **kw), g(np.maximum(x0, lo)), 'safe log', atol=1e-12)
        s = r.real(-1, 5)
        for n in (2, 3):
            o = f(*([x, s, y][:n]), **kw)
            ensure(isinstance(o, tuple) and len(o) == n, 'one result per argument')
            for a, v in zip(o, [x0, s, y0]): ensure_close(a, g(np.maximum(v, lo)), f'safe log of {n} arguments', atol=1e-12)
        ensure_close(f(s, **kw), g(max(s, lo)), 'safe log of a scalar', atol=1e-12)
    v = r.real(-1, 5)
    ensure_close(Num.safe_div(3., v, **kw), 3. / max(v, lo), 'safe_div of scalars', atol=0)
    p = np.abs(x) + 1.
    ensure_close(Num.lg(p), np.log10(p), 'lg'); ensure_close(Num.ln(p), np.log(p), 'ln')
    o = Num.lg(p, 2.); ensure(len(o) == 2, 'lg tuple'); ensure_close(o[1], np.log10(2.), 'lg tuple')
    o = Num.ln(p, 2.); ensure(len(o) == 2, 'ln tuple'); ensure_close(o[0], np.log(p), 'ln tuple')
    ensure_eq(x, x0, 'input changed'); ensure_eq(y, y0, 'input changed')


@contract('norm and normalize')
def _(r):
    nd = r.int(1, 3)
    shp = r.shape(nd, lo=1)
    x = r.arr(shp, -5, 5, special=[0.], p=r.pick([0., .3, .9]))
    if r.bool(.2): x = x * 1e-11
    ax = r.pick([None] + list(range(-nd, nd)))
    lo = r.pick([None, r.pos(1e-3, 5.)])
    r.note(x=x.copy(), axis=ax, lo=lo)
    a = -1 if ax is None else ax
    kw = {} if ax is None else {'axis': ax}
    n = np.sqrt((x ** 2).sum(axis=a))
    ensure_close(Num.norm(x, **kw), n, 'norm', atol=1e-25)
    nk = np.sqrt((x ** 2).sum(axis=a, keepdims=True))
    ensure_close(Num.norm(x, keepdims=True, **kw), nk, 'norm keepdims', atol=1e-25)
    l = 1e-10 if lo is None else lo
    if lo is not None: kw['lo'] = lo
    w = x / np.maximum(nk, l)
    for inplace in (False, True):
        y = x.copy()
        o = Num.normalize(y, inplace=inplace, **kw)
        ensure_close(o, w, 'normalize', atol=1e-14)
        if inplace: ensure(np.shares_memory(o, y), 'not in place'); ensure_eq(o, y, 'not in place')
        else: ensure_eq(y, x, 'input changed')
