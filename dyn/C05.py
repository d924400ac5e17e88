"""Executable contracts: periodic wrapping."""
import numpy as np
from dyn.fw import *
from pyhipp.core.dataproc.frame import PeriodicBox as P


def setup(r, inbox):
    L = r.pos(1e-2, 1e3)
    shp = r.shape()
    lo, hi = (0., L) if inbox else (-L, 2 * L)
    sp = [0., L / 2, L / 4, np.nextafter(L, 0)] + ([] if inbox else [L, -L, 1.5 * L, np.nextafter(0, -1), np.nextafter(2 * L, 0), -L / 2])
    x = r.arr(shp, lo, hi, special=sp)
    if inbox: x = np.where(x >= L, 0., x)
    w = r.mask(shp) if r.bool() else None
    r.note(L=L, x=x.copy(), where=w)
    return L, x, w


def images(o, x, L):
    k = np.rint((o - x) / L)
    return np.abs(o - x - k * L) <= 1e-9 * L


@contract('shift_in')
def _(r):
    L, x, w = setup(r, False)
    copy = r.bool()
    x0 = x.copy()
    sel = np.ones(x.shape, bool) if w is None else w
    o = P.shift_in(x, L, where=w, copy=copy)
    ensure(o.shape == x0.shape, 'shape')
    ensure(((o >= 0) & (o < L))[sel], 'selected value outside [0, L)', o, x0)
    ensure(images(o, x0, L), 'not a whole number of boxes', o, x0)
    ins = (x0 >= 0) & (x0 < L)
    ensure_eq(o[ins], x0[ins], 'values inside changed')
    ensure_eq(o[~sel], x0[~sel], 'excluded values changed')
    if copy: ensure_eq(x, x0, 'input changed'); ensure(not np.shares_memory(o, x), 'shares storage')
    else: ensure(o is x, 'in place returns another array')


@contract('shift_to')
def _(r):
    L, x, w = setup(r, True)
    copy = r.bool()
    ref = r.arr(x.shape, 0, L, special=[0., L / 2, np.nextafter(L, 0)])
    ref = np.where(ref >= L, 0., ref)
    if r.bool(.2): ref = (x + L / 2) % L; ref = np.where(ref >= L, 0., ref)
    if x.ndim > 1 and r.bool(.3) and x.size: ref = np.ascontiguousarray(ref.reshape(-1, x.shape[-1])[0])
    r.note(ref=ref)
    x0 = x.copy()
    sel = np.ones(x.shape, bool) if w is None else w
    o = P.shift_to(x, ref, L, where=w, copy=copy)
    d = o - ref
    eps = 1e-9 * L
    ensure(((d >= -L / 2 - eps) & (d < L / 2 + eps))[sel], 'separation outside [-L/2, L/2)', d / L)
    d0 = x0 - ref
    ensure((o == x0)[(d0 >= -L / 2) & (d0 < L / 2)], 'value within half a box changed', x0, ref)
    ensure((o != x0)[sel & ((d0 < -L / 2) | (d0 >= L / 2))], 'value beyond half a box kept', x0, ref)
    ensure(images(o, x0, L), 'not a whole number of boxes')
    ensure_eq(o[~sel], x0[~sel], 'excluded values changed')
    if copy: ensure_eq(x, x0, 'input changed'); ensure(not np.shares_memory(o, x), 'shares storage')
    else: ensure(o is x, 'in place returns another array')


@contract('test_bound')
def _(r):
    L, x, w = setup(r, r.bool(.6))
    if r.bool(.3) and x.size: x.flat[r.int(0, x.size - 1)] = r.pick([L, -1e-300, np.nextafter(L, 0), 0.])
    sel = np.ones(x.shape, bool) if w is None else w
    want = bool(np.all((x[sel] >= 0) & (x[sel] < L)))
    x0 = x.copy()
    got = P.test_bound(x, L, where=w)
    ensure(bool(got) == want, f'containment test {got}, expected {want}', x, sel)
    ensure_eq(x, x0, 'input changed')
