"""Executable contracts: mass assignment."""
import numpy as np
from dyn.fw import *
from pyhipp.field.cubic_box import mass_assignment as M, mesh as G, field as F


def grid(r):
    n = r.int(1, 9); L = r.pos(.5, 500.)
    if r.bool(.3): L = float(n)
    return n, L


def pos(r, n, L):
    u = r.g.random()
    h = L / n
    if u < .2: return r.int(-2 * n, 3 * n) * h
    if u < .3: return r.int(-2, 3) * L
    if u < .4: return r.int(-n, 2 * n) * h + h / 2
    if u < .5: return float(np.nextafter(r.int(-1, 2) * L, r.pick([-np.inf, np.inf])))
    return float(r.g.uniform(-2, 3)) * L


def weight_of(d):
    return np.maximum(1 - np.abs(d), 0)


def oracle(n, L, xs, ws):
    """per axis: sum over periodic images of the triangular weight"""
    out = np.zeros((n, n, n))
    g = np.arange(n)
    for x, w in zip(xs, ws):
        a = []
        for t in range(3):
            u = np.mod(x[t] / (L / n), n)
            a.append(sum(weight_of(u - g + k * n) for k in (-2, -1, 0, 1, 2)))
        out += w * np.einsum('i,j,k->ijk', *a)
    return out


@contract('deposit')
def _(r):
    n, L = grid(r)
    P = r.int(0, 6)
    xs = np.array([[pos(r, n, L) for _ in range(3)] for _ in range(P)], float).reshape(P, 3)
    ws = r.arr(P, -3, 5, special=(0., 1.))
    weighted = r.bool(.6)
    r.note(n=n, L=L, xs=xs, ws=ws, weighted=weighted)
    d = M.DensityField(L, n)
    ensure_eq(d.data, np.zeros((n, n, n)), 'a new field is empty')
    x0, w0 = xs.copy(), ws.copy()
    tot = 0.
    want = np.zeros((n, n, n))
    for _ in range(r.int(1, 2)):
        d.add(xs, ws) if weighted else d.add(xs)
        w_ = ws if weighted else np.ones(P)
        tot += w_.sum(); want += oracle(n, L, xs, w_)
    ensure_close(d.data.sum(), tot, 'total mass', atol=1e-7)
    ensure_close(d.data, want, 'deposit', atol=1e-6)
    ensure_eq(xs, x0, 'positions'); ensure_eq(ws, w0, 'weights')
    e = M.DensityField(L, n)
    p = r.perm(P)
    for i in p:
        if weighted: e._ma.add_1(xs[i] + L * r.iarr(3, -2, 2), ws[i])
        else: e._ma.add_1(xs[i] + L * r.iarr(3, -2, 2))
    f = M.DensityField(L, n)
    f.add(xs, ws) if weighted else f.add(xs)
    ensure_close(e.data, f.data, 'one by one, shifted, any order', atol=1e-6)


@contract('weights')
def _(r):
    n, L = grid(r)
    s = M._LinearShapeFn(G._Mesh(n, L))
    x = pos(r, n, L)
    r.note(n=n, L=L, x=x)
    il, ir, wl, wr = s.weights_at(x)
    ensure(0 <= il < n and 0 <= ir < n and ir == (il + 1) % n, 'indices', il, ir)
    ensure(-1e-12 <= wl <= 1 + 1e-12 and abs(wl + wr - 1) < 1e-12, 'weights', wl, wr)
    u = x / (L / n)
    ensure(abs(wl - (1 - (u - np.floor(u)))) < 1e-9, 'left weight')
    ensure(il == int(np.floor(u)) % n, 'left index')
    d = r.real(-2, 2)
    ensure(abs(s.shape_at_xi(d) - weight_of(d)) < 1e-12, 'shape')
    ensure(abs(s.shape_at_x(d * L / n) - weight_of(d)) < 1e-9, 'shape in length units')


@contract('refusals', .3)
def _(r):
    d = M.DensityField(1., 4)
    P = r.int(0, 4)
    ensure_raises(AssertionError, lambda: d.add(np.zeros((P, 3)), np.zeros(P + 1)), 'weights of another length')
    ensure_raises(AssertionError, lambda: d.add(np.zeros((P, 2))), 'not 3-d')
    ensure_raises(AssertionError, lambda: d.add(np.zeros(3)), 'flat')
    ensure_raises(AssertionError, lambda: d.add(np.zeros((P, 3)), np.zeros((P, 1))), '2-d weights')
    ensure_eq(d.data, np.zeros((4, 4, 4)), 'nothing written')
