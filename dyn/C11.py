"""Executable contracts: field values and nearest grid points."""
import numpy as np
from dyn.fw import *
from dyn.C10 import grid, pos, weight_of
from pyhipp.field.cubic_box import mesh as G, field as F, cosmic_web as W
import dyn.fw as _fw
_fw.CONTRACTS.clear()


@contract('mesh')
def _(r):
    n, L = grid(r)
    m = G.Mesh.new(n, L)
    r.note(n=n, L=L)
    ensure(m.n_grids == n and m.l_box == L, 'n, L')
    ensure_close(m.l_grid * n, L, 'spacing'); ensure_close(m.volume, L ** 3, 'volume'); ensure(m.total_n_grids == n ** 3, 'n^3')
    ensure_close(m.cell_volume * n ** 3, L ** 3, 'cells fill the box')


@contract('nearest grid point')
def _(r):
    n, L = grid(r)
    m = G._Mesh(n, L)
    P = r.int(0, 6)
    xs = np.array([[pos(r, n, L) for _ in range(3)] for _ in range(P)], float).reshape(P, 3)
    r.note(n=n, L=L, xs=xs)
    k = m.x_to_xi_nd(xs)
    ensure(k.shape == xs.shape and np.all((k >= 0) & (k < n)), 'range', k)
    d = xs / (L / n) - k
    d = d - n * np.round(d / n)
    ensure(np.all(np.abs(d) <= .5 + 1e-9), 'not the nearest', d)
    k1 = np.array([[m.x_to_xi(x) for x in row] for row in xs]).reshape(k.shape)
    ensure_eq(k1, k, 'scalar form')


@contract('value_at')
def _(r):
    n, L = grid(r)
    M = G.Mesh.new(n, L)
    data = r.arr((n, n, n))
    if r.bool(.1): data[...] = r.real()
    P = r.int(0, 5)
    xs = np.array([[pos(r, n, L) for _ in range(3)] for _ in range(P)], float).reshape(P, 3)
    d0, x0 = data.copy(), xs.copy()
    r.note(n=n, L=L, xs=xs, data=data)
    f = W.FieldInterpolator(F.Field.new_by_data(data, M))
    o = f.value_at(xs)
    ensure(o.shape == (P,), 'shape', o.shape)
    g = np.arange(n)
    for p in range(P):
        a = []
        for t in range(3):
            u = np.mod(xs[p, t] / (L / n), n)
            a.append(sum(weight_of(u - g + k * n) for k in (-2, -1, 0, 1, 2)))
        ensure_close(o[p], np.einsum('i,j,k,ijk->', *a, data), 'value', atol=1e-6)
        on = np.ix_(*[v > 1e-9 for v in a])
        ensure(data[on].min() - 1e-7 <= o[p] <= data[on].max() + 1e-7, 'leaves the surrounding interval')
    ensure_close(f.value_at(xs + L * r.iarr((P, 3), -2, 2)), o, 'periodic', atol=1e-5)
    k = r.iarr((3, 3), -n, 2 * n)
    ensure_close(f.value_at(k * (L / n)), data[tuple((k % n).T)], 'at grid points', atol=1e-6)
    ensure_eq(data, d0, 'field'); ensure_eq(xs, x0, 'points')
    ensure_raises(AssertionError, lambda: f.value_at(np.zeros((3, 2))), '2-d points')
