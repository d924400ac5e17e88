"""C15: mesh neighbour search (field/neighbor/kd_mesh.py).

jitclass / njit are dropped (the Python source is what is proved). The visitor is a contract: it is called with its own query index and a run of the
stored points; how often each stored point is passed is counted. Stored points are described by the invariant of the search structure, which the
meshing function is proved to establish; the cell of a point and the search of one query are callee contracts of their callers, proved below."""
from ..harness import *
from .. import arr as A, loops as L, npm
from ..arr import mk_sum, dz, dim
suite = Suite()
KM = 'field.neighbor.kd_mesh'


def mesh(h, m):
    Lb, l, n = h.real('l_box', gt=0), h.real('l', gt=0), h.size('n', lo=1)
    nr = h.real('nr'); h.assume(nr == S(z3.ToReal(n.e)))
    h.assume(Lb == l * nr)
    M = m._PE3Mesh(Lb, n)
    h.derive('cell width', [Lb == l * nr, nr == S(z3.ToReal(n.e)), n >= 1], S(C.toreal(S(C.lift(M.l_grid)))) == l)
    M.l_grid = l
    return M, Lb, l, n


def fl(x, l): return S(z3.ToInt((x / l).e))


def flat(a, n): return (a[0] * n + a[1]) * n + a[2]


@suite.case('cells of positions')
def _(h):
    m = h.mod(KM)
    Lb, n = h.real('l_box', gt=0), h.size('n', lo=1)
    M = m._PE3Mesh(Lb, n)
    h.eq('cell width', M.l_grid, Lb / S(z3.ToReal(n.e))); h.eq('cells per side', M.n_grids, n); h.eq('box', M.l_box, Lb)
    x = h.real('x'); p = h.array('p', 3)
    l = Lb / S(z3.ToReal(n.e))
    h.eq('cell of a coordinate', M.x2xi_1(x), fl(x, l))
    r = M.x2xi_3(p)
    for d in range(3): h.eq(f'cell on axis {d}', at(r, d), fl(at(p, d), l))
    want = flat([fl(at(p, d), l) % n for d in range(3)], n)
    h.eq('periodic cell', M.x2xi_f(p), want)
    a, c = [h.int(f'a{d}', lo=0) for d in range(3)], [h.int(f'c{d}', lo=0) for d in range(3)]
    for q in a + c: h.assume(q < n)
    injective(h, a, c, n)
    inside(h, a, n)


def inside(h, a, n):
    t = h.int('t'); h.assume(t == a[0] * n + a[1])
    h.derive('two axes', [t == a[0] * n + a[1], a[0] >= 0, a[0] < n, a[1] >= 0, a[1] < n], conj(t >= 0, t <= n * n - 1))
    h.derive('cell number in range', [t == a[0] * n + a[1], t >= 0, t <= n * n - 1, a[2] >= 0, a[2] < n, n >= 1], conj(flat(a, n) >= 0, flat(a, n) < n * n * n))


def injective(h, a, c, n):
    """different cells have different numbers"""
    u, v = h.int('u'), h.int('v')
    h.assume(conj(u == a[0] * n + a[1], v == c[0] * n + c[1]))
    rng = [q >= 0 for q in a + c] + [q < n for q in a + c]
    for nm, x, y, p, q in (('last axis', u, v, a[2], c[2]), ('first axes', a[0], c[0], a[1], c[1])):
        dlt, = (h.int('dlt'),)
        h.assume(dlt == x - y)
        h.derive(nm + ': a difference is at least a row', [dlt == x - y, n >= 1], imp(dlt >= 1, (x - y) * n >= n))
        h.derive(nm + ': the other way', [dlt == x - y, n >= 1], imp(dlt <= -1, (x - y) * n <= -n))
        h.derive(nm + ': distinct', [imp(dlt >= 1, (x - y) * n >= n), imp(dlt <= -1, (x - y) * n <= -n), dlt == x - y, p >= 0, p < n, q >= 0, q < n],
                 imp(x * n + p == y * n + q, conj(x == y, p == q)))
    h.derive('distinct cells have distinct numbers',
             [u == a[0] * n + a[1], v == c[0] * n + c[1], imp(u * n + a[2] == v * n + c[2], conj(u == v, a[2] == c[2])),
              imp(a[0] * n + a[1] == c[0] * n + c[1], conj(a[0] == c[0], a[1] == c[1]))],
             imp(flat(a, n) == flat(c, n), conj(a[0] == c[0], a[1] == c[1], a[2] == c[2])))


@suite.case('sorting points by cell')
def _(h):
    m = h.mod(KM); M, Lb, l, n = mesh(h, m)
    N = h.size('N'); xs = h.array('xs', (N, 3)); x0 = xs.snap()
    cells, order = M.argsort(xs)
    j = h.idx(N)
    h.shape('one cell per point', cells, (N,)); h.shape('one place per point', order, (N,))
    h.eq('cell of each point', at(cells, j), flat([fl(at(xs, j, d), l) % n for d in range(3)], n))
    k = h.idx(N); h.assume(j + 1 < N)
    h.prove('in the order of the cells', at(cells, at(order, j)) <= at(cells, at(order, j + 1)))
    h.prove('places are points', conj(at(order, j) >= 0, at(order, j) < N))
    h.prove('no point twice', imp(at(order, j) == at(order, k), S(j.e) == k))
    h.unchanged('points untouched', xs, x0)


class Visitor:
    """counts how often each stored point is passed; every call is labelled with the query's own index"""
    def __init__(self, h, xs, N, i):
        self.h, self.x, self.i = h, xs, i
        self.count = A.new_arr((dim(N),), 'i8', lambda ix: z3.IntVal(0))

    def on(self, i, x_ngbs):
        CTX.used_contracts.add(KM + ':_QueryPoints.on')
        CTX.side('labelled with the index of the query', C.toint(S(C.lift(i))) == self.i.e)
        v = x_ngbs
        if not isinstance(v, A.SArr) or v.buf is not self.x.buf or v.ndim != 2 or v.vmap[1] != ('ax', 1, z3.IntVal(0), 1) and str(v.vmap[1]) != "('ax', 1, 0, 1)" \
                or v.vmap[0][:2] != ('ax', 0) or v.vmap[0][3] != 1:
            raise Unsupported('points passed to the visitor are not a run of the stored points')
        b_, n_ = v.vmap[0][2], dz(v._shape[0])
        LD.PV.aug(self.count, Ellipsis, '+', A.new_arr(self.count._shape, 'i8', lambda ix: z3.If(z3.And(b_ <= ix[0], ix[0] < b_ + n_), z3.IntVal(1), z3.IntVal(0))))


def mod_shift(h, tag, y, k, n):
    """(y + k n) mod n = y mod n"""
    r, r2, d, d2 = h.int('r'), h.int('r2'), h.int('d'), h.int('d2')
    z = h.int('z'); h.assume(z == y + k * n)
    yy = h.int('yy'); h.assume(yy == y)
    h.assume(conj(r == yy % n, r2 == z % n, d == S(C.pdivF(yy.e, n.e)), d2 == S(C.pdivF(z.e, n.e))))
    h.lemma(tag + 'parts', conj(yy == n * d + r, z == n * d2 + r2, r >= 0, r < n, r2 >= 0, r2 < n))
    near(h, tag, n, d + k, r, d2, r2, [z == yy + k * n, yy == n * d + r, z == n * d2 + r2], 'the same cell')
    return z, r


def near(h, tag, n, x, p, y, q, hyps, name):
    """n x + p = n y + q with remainders p, q: x = y, p = q"""
    dl = h.int('dl'); h.assume(dl == x - y)
    h.derive(tag + 'up', [dl == x - y, n >= 1], imp(dl >= 1, (x - y) * n >= n))
    h.derive(tag + 'down', [dl == x - y, n >= 1], imp(dl <= -1, (x - y) * n <= -n))
    h.derive(tag + 'equal numbers', hyps, n * x + p == n * y + q)
    h.derive(tag + name, [n * x + p == n * y + q, imp(dl >= 1, (x - y) * n >= n), imp(dl <= -1, (x - y) * n <= -n), dl == x - y, p >= 0, p < n, q >= 0, q < n],
             conj(x == y, p == q))


xif = z3.Function('cell_coordinate', R, I)


def cells_contract(M):
    """callee contract of _PE3Mesh.x2xi_3: a monotonic function of each coordinate that moves by n with the box"""
    C.add_pair(xif, lambda a, c: [z3.Implies(a.arg(0) <= c.arg(0), a <= c), z3.Implies(c.arg(0) <= a.arg(0), c <= a)])

    def x2xi_3(x):
        CTX.used_contracts.add(KM + ':_PE3Mesh.x2xi_3')
        x = A.asarr(x)
        CTX.side('three coordinates', z3.And(z3.BoolVal(x.ndim == 1), dz(x._shape[0]) == 3))
        return A.elementwise(lambda v: S(xif(C.toreal(S(C.lift(v))))), [x], 'i8')
    M.x2xi_3 = x2xi_3


@suite.case('cell coordinates: monotonic, moving with the box')
def _(h):
    m = h.mod(KM)
    M, Lb, l, n = mesh(h, m)
    x, y, k = h.real('x'), h.real('y'), h.int('k')
    p = A.new_arr((3,), 'f8', lambda ix: z3.If(ix[0] == 0, x.e, z3.If(ix[0] == 1, y.e, (x + S(z3.ToReal(k.e)) * Lb).e)))
    r = M.x2xi_3(p)
    u, v, w = h.real('u'), h.real('v'), h.real('w')
    h.assume(conj(u * l == x, v * l == y, w * l == x + S(z3.ToReal(k.e)) * Lb))
    kr, nr = h.real('kr'), h.real('nr2'); h.assume(conj(kr == S(z3.ToReal(k.e)), nr == S(z3.ToReal(n.e))))
    h.lemma('box', Lb == l * nr)
    h.derive('order', [u * l == x, v * l == y, l > 0], imp(x <= y, u <= v))
    kn = h.int('kn'); h.assume(kn == k * n)
    h.lemma('whole cells', S(z3.ToReal(kn.e)) == kr * nr)
    h.derive('shift', [w * l == x + S(z3.ToReal(k.e)) * Lb, u * l == x, Lb == l * nr, kr == S(z3.ToReal(k.e)), S(z3.ToReal(kn.e)) == kr * nr, l > 0], w == u + S(z3.ToReal(kn.e)))
    f = []
    for d, q, t in ((0, u, x), (1, v, y), (2, w, x + S(z3.ToReal(k.e)) * Lb)):
        f.append(h.floors(at(r, d), q, [q * l == t, l > 0]))
    h.prove('monotonic', imp(x <= y, f[0] <= f[1]))
    h.prove('moves by n cells per box length', f[2] == f[0] + k * n)
    h.prove('cell of the coordinate', conj(S(z3.ToReal(f[0].e)) <= u, u < S(z3.ToReal(f[0].e)) + 1))


def shifted(y, k, n): return (y + k * n) % n == y % n


def only_index(lb, t, c, n): return imp(conj(t >= 0, t < n, (lb + t) % n == c), t == (c - lb) % n)


@suite.case('remainders: moving by whole boxes')
def _(h):
    y, k, n = h.int('y'), h.int('k'), h.int('n', lo=1)
    z, r = mod_shift(h, '', y, k, n)
    h.prove('the same remainder', shifted(y, k, n))


@suite.case('remainders: one index in a run of at most n')
def _(h):
    lb, t, c, n = h.int('lb'), h.int('t'), h.int('c'), h.int('n', lo=1)
    lt, g, ee, one = h.int('lt'), h.int('g'), h.int('e'), h.int('one')
    h.assume(conj(lt == lb + t, g == c - lb)); h.assume(conj(ee == lt % n, one == g % n))
    h.assume(conj(t >= 0, t < n, ee == c))
    a, b_, x = h.int('a'), h.int('b'), h.int('x')
    h.assume(conj(a == S(C.pdivF(lt.e, n.e)), b_ == S(C.pdivF(g.e, n.e)), x == a + b_))
    h.lemma('parts', conj(lt == n * a + ee, g == n * b_ + one, one >= 0, one < n))
    h.derive('up', [n >= 1], imp(x >= 1, x * n >= n))
    h.derive('down', [n >= 1], imp(x <= -1, x * n <= -n))
    h.derive('split', [lt == n * a + ee, g == n * b_ + one, x == a + b_, lt == lb + t, g == c - lb, ee == c], t == n * x + one)
    h.derive('one index only', [t == n * x + one, imp(x >= 1, x * n >= n), imp(x <= -1, x * n <= -n), t >= 0, t < n, one >= 0, one < n], t == one)
    h.prove('one index', only_index(lb, t, c, n))


def searched(h, m):
    """a search structure satisfying its invariant; one of its points; a query; what the code does"""
    M, Lb, l, n = mesh(h, m)
    cells_contract(M)
    fl = lambda x, l: S(xif(C.toreal(x)))
    N = h.size('N')
    xs = h.array('xs', (N, 3))
    n3 = n * n * n
    cf = h.array('cell_firsts', (n3 + 1,), 'i8')
    h.ascending(cf, strict=False)
    h.assume_all(cf, lambda v, *ix: conj(v >= 0, v <= N))
    h.assume(conj(at(cf, 0) == 0, at(cf, n3) == N))
    j = h.idx(N)
    P = m._PE3(M, xs, cf)
    q, r = h.array('q', 3), h.real('r', lo=0)
    i = h.int('i', lo=0)
    vis = Visitor(h, P.xs, N, i)
    LB = [fl(at(q, d) - r, l) for d in range(3)]; UB = [fl(at(q, d) + r, l) + 1 for d in range(3)]
    P._PE3__query_points_1(i, q, r, vis)
    fx = [h.int(f'fx{d}') for d in range(3)]; c = [h.int(f'c{d}') for d in range(3)]
    for d in range(3): h.assume(conj(fx[d] == fl(at(xs, j, d), l), c[d] == fx[d] % n))
    for d in range(3): h.lemma(f'cell on axis {d} in range', conj(c[d] >= 0, c[d] < n))
    cell = h.int('cell'); h.assume(cell == flat(c, n))
    inside(h, c, n)
    h.lemma('cell of the point', conj(cell >= 0, cell < n3))
    h.assume(conj(at(cf, cell) <= S(j.e), S(j.e) < at(cf, cell + 1)))
    for d in range(3):
        h.lemma(f'axis {d}: ranges are not empty', UB[d] > LB[d])
    dims = [UB[d] - LB[d] for d in range(3)]
    fn = lambda *t: (lambda f: ite(conj(at(cf, f) <= S(j.e), S(j.e) < at(cf, f + 1)), S(z3.IntVal(1)), S(z3.IntVal(0))))(flat([(LB[d] + t[d]) % n for d in range(3)], n))
    return M, Lb, l, n, N, xs, cf, j, q, r, vis, LB, UB, fx, c, cell, dims, fn, n3


@suite.case('one query: what the visitor is passed', deadline=240)
def _(h):
    m = h.mod(KM)
    M, Lb, l, n, N, xs, cf, j, q, r, vis, LB, UB, fx, c, cell, dims, fn, n3 = searched(h, m)
    h.eq('a stored point is passed once per searched cell that holds it', at(vis.count, j), h.nested(fn, dims))


def steps(h, LB, UB):
    """names for the searched ranges"""
    lo, w = [h.int(f'lo{d}') for d in range(3)], [h.int(f'w{d}') for d in range(3)]
    for d in range(3): h.assume(conj(lo[d] == LB[d], w[d] == UB[d] - LB[d]))
    return lo, w


@suite.case('one query: no stored point within the radius is missed', deadline=240)
def _(h):
    m = h.mod(KM)
    M, Lb, l, n, N, xs, cf, j, q, r, vis, LB, UB, fx, c, cell, dims, fn, n3 = searched(h, m)
    k = [h.int(f'k{d}') for d in range(3)]
    dx = [h.real(f'dx{d}') for d in range(3)]
    y = [h.real(f'y{d}') for d in range(3)]
    for d in range(3):
        h.assume(y[d] == at(xs, j, d) + S(z3.ToReal(k[d].e)) * Lb)   # some image of the point ...
        h.assume(dx[d] == y[d] - at(q, d))
    h.assume(dx[0] * dx[0] + dx[1] * dx[1] + dx[2] * dx[2] <= r * r)      # ... is within the radius
    t = []
    for d in range(3):
        h.derive(f'axis {d}: separation', [dx[0] * dx[0] + dx[1] * dx[1] + dx[2] * dx[2] <= r * r, r >= 0], conj(dx[d] <= r, dx[d] >= -r))
        h.assume(S(xif(y[d].e)) == fx[d] + k[d] * n)                      # contract of the cell coordinates
        h.lemma(f'axis {d}: the image is searched', conj(LB[d] <= fx[d] + k[d] * n, fx[d] + k[d] * n < UB[d]))
        h.assume(shifted(fx[d], k[d], n))                                 # proved above
        h.lemma(f'axis {d}: in the cell of the point', (fx[d] + k[d] * n) % n == c[d])
        tt = h.int(f't{d}'); h.assume(tt == fx[d] + k[d] * n - LB[d])
        h.lemma(f'axis {d}: index', conj(tt >= 0, tt < dims[d], (LB[d] + tt) % n == c[d]))
        t.append(tt)
    h.lemma('number of the cell', flat([(LB[d] + t[d]) % n for d in range(3)], n) == cell)
    h.lemma('the cell holds the point', fn(*t) == 1)
    h.sum_ge_term('the searched cells', fn, t, dims)
    h.prove('the point is passed to the visitor', at(vis.count, j) >= 1)


@suite.case('one query: no stored point is passed twice when the searched cells span at most the box', deadline=240)
def _(h):
    m = h.mod(KM)
    M, Lb, l, n, N, xs, cf, j, q, r, vis, LB, UB, fx, c, cell, dims, fn, n3 = searched(h, m)
    for d in range(3): h.assume(UB[d] - LB[d] <= n)
    one = [h.int(f'one{d}') for d in range(3)]       # the only index on each axis that can hold the point
    for d in range(3): h.assume(one[d] == (c[d] - LB[d]) % n)
    t = [h.idx(dims[d]) for d in range(3)]
    e = [(LB[d] + t[d]) % n for d in range(3)]
    ee = [h.int(f'e{d}') for d in range(3)]
    for d in range(3): h.assume(ee[d] == e[d])
    for d in range(3): h.lemma(f'axis {d}: cell', conj(ee[d] >= 0, ee[d] < n))
    inside(h, ee, n)
    f = h.int('f'); h.assume(f == flat(ee, n))
    h.lemma('searched cell', conj(f >= 0, f < n3))
    h.hint(f.e, (f + 1).e, cell.e, (cell + 1).e)
    h.lemma('only the cell of the point holds it', imp(conj(at(cf, f) <= S(j.e), S(j.e) < at(cf, f + 1)), f == cell))
    injective(h, ee, c, n)
    h.lemma('the same cell on every axis', imp(f == cell, conj(*[ee[d] == c[d] for d in range(3)])))
    for d in range(3):
        h.assume(only_index(LB[d], t[d], c[d], n))                        # proved above
        h.lemma(f'axis {d}: one index only', imp(ee[d] == c[d], t[d] == one[d]))
    mine = fn(*one)
    only = lambda *u: ite(conj(*[u[d] == one[d] for d in range(3)]), mine, S(z3.IntVal(0)))
    h.sum_here('at most one searched cell holds it', fn, only, t, dims)
    h.prove('at most once', at(vis.count, j) <= 1)


@suite.case('a batch: every query is processed, with its own point and radius')
def _(h):
    m = h.mod(KM)
    M, Lb, l, n = mesh(h, m)
    cells_contract(M)
    N, Q = h.size('N'), h.size('Q')
    xs, cf = h.array('xs', (N, 3)), h.array('cell_firsts', (n * n * n + 1,), 'i8')
    P = m._PE3(M, xs, cf)

    class q: pass
    q.xs, q.rs = h.array('qx', (Q, 3)), h.array('qr', (Q,))
    x0, r0 = q.xs.snap(), q.rs.snap()
    calls = A.new_arr((dim(Q),), 'i8', lambda ix: z3.IntVal(0))

    def one(i, x, r, v):
        CTX.used_contracts.add(KM + ':_PE3.__query_points_1')
        i = C.toint(S(C.lift(i)))
        CTX.side('a query of the batch', z3.And(i >= 0, i < Q.e))
        CTX.side('with its own radius', S(C.lift(r)).e == r0((i,)))
        x = A.asarr(x)
        CTX.side('with its own point', z3.And(z3.BoolVal(x.ndim == 1), *[x.at(d) == x0((i, z3.IntVal(d))) for d in range(3)]))
        CTX.side('for the visitor', z3.BoolVal(v is q))
        LD.PV.aug(calls, (S(i),), '+', 1)
    P._PE3__query_points_1 = one
    P.query_points(q)
    j = h.idx(Q)
    h.eq('every query is searched once', at(calls, j), S(z3.IntVal(1)))
    h.unchanged('points untouched', q.xs, x0); h.unchanged('radii untouched', q.rs, r0)


@suite.case('meshing: the same points, grouped by cell', deadline=240)
def _(h):
    m = h.mod(KM)
    n = h.size('n', lo=1)
    M = m._PE3Mesh(h.real('l_box', gt=0), n)
    n3 = n * n * n
    N = h.size('N')
    xs = h.array('xs', (N, 3)); x0 = xs.snap()
    cells = h.array('cells', (N,), 'i8')
    h.assume_all(cells, lambda v, *ix: conj(v >= 0, v < n3))
    order = []

    def argsort(x):
        """contract of _PE3Mesh.argsort, proved above: the cell of each point, and the points in the order of the cells"""
        CTX.used_contracts.add(KM + ':_PE3Mesh.argsort')
        j = z3.Int(CTX.fresh_name('any'))
        CTX.side('the points to be sorted', z3.Implies(z3.And(j >= 0, j < N.e), z3.And(*[A.asarr(x).at(j, d) == x0((j, z3.IntVal(d))) for d in range(3)])))
        CTX.side('all points', dz(A.asarr(x)._shape[0]) == N.e)
        order.append(npm.argsort(cells))
        return cells, order[-1]
    M.argsort = argsort
    P = m._PE3_from_meshing_points(M, xs)
    h.prove('mesh kept', z3.BoolVal(P.mesh is M))
    h.shape('points', P.xs, (N, 3)); h.shape('boundaries', P.cell_firsts, (n3 + 1,))
    cf = P.cell_firsts
    h.eq('first boundary', at(cf, 0), 0)
    k, d = h.idx(N, 'k'), h.idx(S(z3.IntVal(3)), 'axis')
    o = at(order[0], k)
    h.prove('a stored point is a given point', conj(o >= 0, o < N, at(P.xs, k, d) == S(x0((o.e, d.e)))))
    k2 = h.idx(N, 'k2')
    h.prove('each given point is stored once', imp(o == at(order[0], k2), S(k.e) == k2))
    g = h.idx(N, 'g')
    back = S(order[0].inverse(g.e))
    h.prove('every given point is stored', conj(back >= 0, back < N, at(order[0], back) == S(g.e)))
    c = h.idx(n3, 'c')
    lo, hi = at(cf, c), at(cf, c + 1)
    h.lemma('boundaries are places', conj(lo >= 0, lo <= N, hi >= 0, hi <= N))
    h.hint(lo.e, (lo - 1).e, hi.e, (hi - 1).e)
    w = at(cells, o)
    cl = lambda q: at(cells, at(order[0], q))
    h.lemma('the point before the boundary', imp(lo >= 1, cl(lo - 1) < S(c.e)))
    h.lemma('the point at the boundary', imp(lo < N, cl(lo) >= S(c.e)))
    h.lemma('the point before the next boundary', imp(hi >= 1, cl(hi - 1) <= S(c.e)))
    h.lemma('the point at the next boundary', imp(hi < N, cl(hi) > S(c.e)))
    h.lemma('points before a boundary lie in earlier cells', imp(S(k.e) < lo, w < S(c.e)))
    h.lemma('points from a boundary on lie in this cell or later', imp(S(k.e) >= lo, w >= S(c.e)))
    h.lemma('points before the next boundary do not lie in later cells', imp(S(k.e) < hi, w <= S(c.e)))
    h.lemma('points from the next boundary on lie in later cells', imp(S(k.e) >= hi, w > S(c.e)))
    h.prove('a cell holds exactly its points', iff(conj(lo <= S(k.e), S(k.e) < hi), w == S(c.e)))
    h.prove('boundaries ascend', lo <= hi)
    end = at(cf, n3)
    h.lemma('last boundary is a place', conj(end >= 0, end <= N))
    h.hint(end.e, (end - 1).e)
    z = at(cells, at(order[0], end))
    h.prove('last boundary', end == N)
