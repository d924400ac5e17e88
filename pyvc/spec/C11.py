"""Field values and nearest-grid-point lookup at points (field/cubic_box/{mesh,cosmic_web}.py)."""
from .common_cic import *
suite = Suite()
CW = 'field.cubic_box.cosmic_web'


@suite.case('mesh: spacing and volumes')
def _(h):
    mesh, n, L = mk_mesh(h)
    h.eq('spacing times n is the box', mesh.l_grid * n, L)
    h.eq('n^3 cells', mesh.total_n_grids, n * n * n)
    h.eq('box volume', mesh.volume, L * L * L)
    h.lemma('cube of the spacing', mesh.cell_volume == mesh.l_grid * mesh.l_grid * mesh.l_grid)
    h.lemma('two spacings', (mesh.l_grid * n) * (mesh.l_grid * n) * (mesh.l_grid * n) == L * L * L)
    h.eq('the cells fill the box', mesh.total_n_grids * mesh.cell_volume, mesh.volume)


@suite.case('Mesh reports its implementation')
def _(h):
    n, L = h.int('n', lo=1), h.real('L', gt=0)
    m = h.mod(MESH).Mesh.new(n, L)
    r = h.mod(MESH)._Mesh(n, L)
    h.eq('n', m.n_grids, n); h.eq('L', m.l_box, L); h.eq('h', m.l_grid * n, L)
    h.eq('volume', m.volume, r.volume); h.eq('cell volume', m.cell_volume, r.cell_volume)
    h.eq('number of cells', m.total_n_grids, r.total_n_grids)


def ngp(x, n, L):
    """specification: the nearest integer (halves up) in grid units, and its residue"""
    u = C.toreal(x) / (C.toreal(L) / C.toreal(n))
    m = z3.ToInt(u + z3.RealVal('1/2'))
    return S(u), S(m)


@suite.case('nearest grid point: one coordinate')
def _(h):
    mesh, n, L = mk_mesh(h)
    x = h.real('x')
    k = S(C.lift(mesh.x_to_xi(x)))
    u, m = ngp(x, n, L)
    h.eq('periodic index of the nearest grid point', k, m % n)
    h.prove('within half a spacing', conj(u - m <= 0.5, m - u <= 0.5))
    h.prove('in range', conj(k >= 0, k < n))


@suite.case('nearest grid point: arrays agree')
def _(h):
    mesh, n, L = mk_mesh(h)
    for shape in ((3,), (h.size('P'), 3), (h.size('P'),)):
        x = h.array('x', shape); x0 = x.snap()
        k = mesh.x_to_xi_nd(x)
        h.shape('one index per coordinate', k, shape)
        ix = [h.idx(d) for d in shape]
        u, m = ngp(at(x, *ix), n, L)
        h.eq('elementwise', at(k, *ix), m % n)
        h.eq('scalar and array forms agree', at(k, *ix), mesh.x_to_xi(at(x, *ix)))
        h.prove('in range', conj(at(k, *ix) >= 0, at(k, *ix) < n))
        h.unchanged('input unchanged', x, x0)


@suite.case('nearest grid point is periodic')
def _(h):
    mesh, n, L = mk_mesh(h)
    x, k = h.real('x'), h.int('k')
    u, m = ngp(x, n, L)
    v, q = ngp(x + k * L, n, L)
    h.lemma('a shift by boxes is a shift by k n grid spacings', v == u + S(C.toreal(k)) * S(C.toreal(n)))
    h.lemma('nearest integer of a shifted position', q == m + k * n)
    t = S(C.pdivF(C.lift(q), C.lift(n))) - S(C.pdivF(C.lift(m), C.lift(n))) - k
    h.lemma('remainders differ by a multiple of n', q % n - m % n == -1 * t * n)
    h.lemma('which is zero', t == 0)
    h.eq('same index', mesh.x_to_xi(x), mesh.x_to_xi(x + k * L))


def interp(h, contract=True):
    n, L = h.int('n', lo=1), h.real('L', gt=0)
    M = h.mod('field.cubic_box.mesh').Mesh.new(n, L)
    data = h.array('data', (n, n, n))
    F = h.mod('field.cubic_box.field').Field.new_by_data(data, M)
    m = h.mod(CW)
    w = None
    if contract:
        w = WeightContract(n)
        h.mod(MA)._LinearShapeFn.weights_at = lambda self, x: w(x)
    return m.FieldInterpolator(F), data, n, L, w


def corners(w, xs, p):
    """[(index triple, weight)] of the eight surrounding grid points"""
    ax = []
    for t in range(3):
        il, ir, wl, wr = w(at(xs, p, t))
        ax.append(((il, wl), (ir, wr)))
    return [((a[0], b_[0], c[0]), a[1] * b_[1] * c[1]) for a in ax[0] for b_ in ax[1] for c in ax[2]]


@suite.case('value_at: weighted mean of the eight surrounding values')
def _(h):
    f, data, n, L, w = interp(h)
    P = h.size('P')
    xs = h.array('xs', (P, 3)); x0 = xs.snap(); d0 = data.snap()
    o = f.value_at(xs)
    h.shape('one value per point', o, (P,))
    p = h.idx(P)
    cs = corners(w, xs, p)
    want = 0
    for ix, wt in cs: want = want + at(data, *ix) * wt
    h.eq('value', at(o, p), want)
    h.unchanged('field unchanged', data, d0); h.unchanged('points unchanged', xs, x0)


@suite.case('value_at: between the eight surrounding values; constants reproduced')
def _(h):
    f, data, n, L, w = interp(h)
    lo, hi = h.real('lo'), h.real('hi')
    xs = h.array('xs', (h.size('P'), 3))
    o = f.value_at(xs)
    p = h.idx(xs._shape[0])
    ax = [w(at(xs, p, t)) for t in range(3)]

    def mix(t, x, y, nm):
        r = h.real(nm)
        h.assume(r == t[2] * x + t[3] * y)
        h.lemma(f'{nm} between', conj(r >= lo, r <= hi))
        return r
    g = lambda a, b_, c: at(data, ax[0][a], ax[1][b_], ax[2][c])
    for a in (0, 1):
        for b_ in (0, 1):
            for c in (0, 1): h.assume(conj(g(a, b_, c) >= lo, g(a, b_, c) <= hi))
    z = {(a, b_): mix(ax[2], g(a, b_, 0), g(a, b_, 1), f'z{a}{b_}') for a in (0, 1) for b_ in (0, 1)}
    y = [mix(ax[1], z[a, 0], z[a, 1], f'y{a}') for a in (0, 1)]
    r = mix(ax[0], y[0], y[1], 'r')
    h.lemma('the value is the nested mean', at(o, p) == r)
    h.prove('between the bounds of the surrounding values (equal for a constant field)', conj(at(o, p) >= lo, at(o, p) <= hi))


@suite.case('value_at: grid points reproduce the grid values')
def _(h):
    f, data, n, L, w = interp(h, contract=False)
    P = h.size('P')
    K = h.array('K', (P, 3), 'i8')
    xs = h.array('xs', (P, 3))
    h.assume_all(xs, lambda v, i, j: v == at(K, i, j) * (L / n))
    o = f.value_at(xs)
    p = h.idx(P)
    k = [at(K, p, t) for t in range(3)]
    for t in range(3):
        h.lemma(f'axis {t}: an integer number of spacings', S(C.toreal(at(xs, p, t)) / (C.toreal(L) / C.toreal(n))) == S(C.toreal(k[t])))
    h.eq('value at a grid point', at(o, p), at(data, *[i % n for i in k]))


@suite.case('value_at refuses points that are not 3-d')
def _(h):
    f, data, n, L, w = interp(h)
    P = h.size('P')
    h.raises('2-d points', AssertionError, lambda: f.value_at(h.array('xs', (P, 2))))


@suite.case('density field from a file: overdensity plus one')
def _(h):
    n, L = h.int('n', lo=1), h.real('L', gt=0)
    delta = h.array('delta', (n, n, n)); d0 = delta.snap()
    store = {'delta_x': delta, 'other': h.array('other', (n, n, n)), 'l_box': L, 'n_grids': n}

    class Dsets:
        def __getitem__(self, ks): return tuple(store[k] for k in ks)

    class Grp:
        datasets = Dsets()
    for key in ('delta_x', 'other'):
        FI = h.mod(CW).FieldInterpolator
        f = FI.new_density_field_from_file(Grp()) if key == 'delta_x' else FI.new_density_field_from_file(Grp(), key)
        i, j, k = h.idx(n), h.idx(n), h.idx(n)
        h.eq('1 + overdensity', at(f._data, i, j, k), at(store[key], i, j, k) + 1)
        h.eq('box', f._shape_fn.mesh.l_box, L); h.eq('n', f._shape_fn.mesh.n_grids, n)
