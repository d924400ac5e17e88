"""Executable contracts: mesh neighbour search (compiled)."""
import numpy as np, numba
from numba.experimental import jitclass
from dyn.fw import *
from pyhipp.field.neighbor import kd_mesh as K


@jitclass
class Rec:
    xs: numba.float64[:, :]
    rs: numba.float64[:]
    i: numba.int64[:]
    x: numba.float64[:, :]
    n: int

    def __init__(self, xs, rs, cap):
        self.xs, self.rs = xs, rs
        self.i = np.zeros(cap, dtype=np.int64)
        self.x = np.zeros((cap, 3), dtype=np.float64)
        self.n = 0

    def on(self, i, x):
        for k in range(len(x)):
            self.i[self.n] = i
            self.x[self.n] = x[k]
            self.n += 1


def points(r, n, L, m):
    x = r.arr((n, 3), -.3 * L, 1.3 * L) if r.bool(.3) else r.arr((n, 3), 0, L)
    for i in range(n):
        if r.bool(.15): x[i, r.int(0, 2)] = r.int(0, m) * L / m
    return x


@contract('search')
def _(r):
    L, m = r.pick([1., 7.5, 100.]), r.int(1, 5)
    N, Q = r.int(0, 30), r.int(1, 6)
    X, q = points(r, N, L, m), points(r, Q, L, m)
    rad = r.arr((Q,), 0, r.pick([.1, .45, .9]) * L)
    exact = r.bool(.25)
    if exact:
        # everything on multiples of half a cell, which are represented exactly: neighbours at exactly the radius
        m = r.pick([1, 2, 4, 5, 8]); L = float(m) * r.pick([.5, 1., 2.])
        half = L / m / 2
        X = r.g.integers(0, 2 * m, (N, 3)) * half; q = r.g.integers(0, 2 * m, (Q, 3)) * half
        rad = r.g.integers(0, m + 1, Q) * half
        for k in range(N):
            i, a = r.int(0, Q - 1), r.int(0, 2)
            t = q[i].copy(); t[a] = (t[a] + r.pick([-1, 1]) * rad[i]) % L; X[k] = t
    r.note(L=L, n=m, X=X, q=q, r=rad)
    mesh = K._PE3Mesh(L, m)
    S = K._PE3_from_meshing_points(mesh, X.copy())
    l = L / m
    cell = lambda a: np.floor(a / l).astype(int) % m
    cx = cell(X); flat = (cx[:, 0] * m + cx[:, 1]) * m + cx[:, 2]
    ensure(len(S.cell_firsts) == m ** 3 + 1, 'boundaries'); ensure(S.cell_firsts[0] == 0 and S.cell_firsts[-1] == N, 'all points')
    key = lambda a: sorted(map(tuple, a.tolist()))
    ensure(key(S.xs) == key(X), 'the same points')
    for c in range(m ** 3):
        ensure(key(S.xs[S.cell_firsts[c]:S.cell_firsts[c + 1]]) == key(X[flat == c]), 'a cell holds exactly its points', c)
    span = np.floor((q + rad[:, None]) / l) - np.floor((q - rad[:, None]) / l) + 1
    cap = int(N * np.prod(np.ceil(span / m) + 1, axis=1).sum()) + 8
    v = Rec(q, rad, cap)
    S.query_points(v)
    d = X[None] - q[:, None]; d -= np.round(d / L) * L
    dist = np.sqrt((d ** 2).sum(-1))
    stored = {}
    for t in map(tuple, X.tolist()): stored[t] = stored.get(t, 0) + 1
    got = [{} for _ in range(Q)]
    for i, x in zip(v.i[:v.n].tolist(), map(tuple, v.x[:v.n].tolist())):
        ensure(x in stored, 'only stored points'); got[i][x] = got[i].get(x, 0) + 1
    for i in range(Q):
        for k in range(N):
            t = tuple(X[k].tolist())
            if dist[i, k] <= (rad[i] if exact else rad[i] * (1 - 1e-9) - 1e-9 * L): ensure(got[i].get(t, 0) >= stored[t], 'no neighbour is missed', (i, k, dist[i, k]))
            if (span[i] <= m).all(): ensure(got[i].get(t, 0) in (0, stored[t]), 'no neighbour is repeated', (i, k, got[i].get(t, 0)))


@contract('cells')
def _(r):
    L, m = r.pick([1., 7.5, 100.]), r.int(1, 6)
    M = K._PE3Mesh(L, m); l = L / m
    x = r.arr((3,), -2 * L, 3 * L); X = r.arr((r.int(0, 20), 3), -L, 2 * L)
    r.note(L=L, n=m, x=x, X=X)
    f = np.floor(x / l).astype(int)
    ensure_eq(M.x2xi_3(x), f, 'cell'); ensure(M.x2xi_1(x[0]) == f[0], 'cell of a coordinate')
    c = f % m
    ensure(M.x2xi_f(x) == (c[0] * m + c[1]) * m + c[2], 'periodic cell')
    a, o = M.argsort(X)
    c = np.floor(X / l).astype(int) % m
    ensure_eq(a, (c[:, 0] * m + c[:, 1]) * m + c[:, 2], 'cells'); ensure(sorted(o.tolist()) == list(range(len(X))), 'a permutation'); ensure((np.diff(a[o]) >= 0).all(), 'sorted')
