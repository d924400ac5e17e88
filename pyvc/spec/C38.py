"""C38: two-dimensional density maps (plot/two_dim.py): estimators, evaluation on meshes, percentile levels, hidden points.

Library contracts: numpy.histogram2d (a non-negative cell for each pair of edges; the request is recorded) and sklearn NearestNeighbors (as KDTree in C17).
The drawing calls of matplotlib are recorded."""
from ..harness import *
from .. import arr as A, npm
from ..arr import dz, dim
suite = Suite()
TD = 'plot.two_dim'
CALLS = []


class NearestNeighbors:
    def __init__(self, n_neighbors=5, algorithm='auto', **kw):
        if kw: raise Unsupported('NearestNeighbors options')
        self.k = n_neighbors

    def fit(self, X, y=None):
        npm.trust('sklearn NearestNeighbors.kneighbors: k neighbours of each query point (rows of the training set), ascending distances')
        X = A.asarr(X)
        CTX.side('points in rows', z3.BoolVal(X.ndim == 2))
        self.X = X.copy()
        return self

    def kneighbors(self, X=None, n_neighbors=None, return_distance=True):
        X = A.asarr(X)
        CTX.side('queries in rows', z3.And(z3.BoolVal(X.ndim == 2), dz(X._shape[1]) == dz(self.X._shape[1])))
        k = self.k if n_neighbors is None else n_neighbors
        k = C.toint(S(C.lift(k)))
        n = dz(self.X._shape[0])
        CTX.side('no more neighbours than training points', z3.And(k >= 1, k <= n))
        fd, fi = z3.Function(CTX.fresh_name('dist'), I, I, R), z3.Function(CTX.fresh_name('ngb'), I, I, I)
        C.add_templ(fd, lambda t: [t > 0])
        C.add_templ(fi, lambda t: [z3.Implies(n > 0, z3.And(t >= 0, t < n))])
        CALLS.append((self, X.copy(), k, fd, fi))
        sh = (X._shape[0], dim(S(k)))
        ids = A.new_arr(sh, 'i8', lambda ix: fi(*ix))
        return (A.new_arr(sh, 'f8', lambda ix: fd(*ix)), ids) if return_distance else ids


def models():
    CALLS.clear()
    sk = LD.Stub('sklearn.neighbors')
    sk.__dict__['NearestNeighbors'] = NearestNeighbors
    top = LD.Stub('sklearn'); top.__dict__['neighbors'] = sk
    return {'sklearn': top, 'sklearn.neighbors': sk}


def case(name, **kw): return suite.case(name, models=models, **kw)


class Hist2d:
    """contract of numpy.histogram2d for any request"""

    def __init__(self, h, nx, ny):
        self.h, self.nx, self.ny, self.calls = h, nx, ny, []

    def __call__(self, x, y, bins=10, range=None, density=None, weights=None):
        npm.trust('numpy.histogram2d: cells between ascending edges, first index along x')
        h = self.h
        self.calls.append((x, y, bins, range, density, weights))
        xe, ye = h.array('xe', self.nx + 1), h.array('ye', self.ny + 1)
        h.ascending(xe); h.ascending(ye)
        self.z, self.xe, self.ye = h.array('cells', (self.nx, self.ny)), xe, ye
        return self.z, xe, ye


for weighted in (False, True):
    @case(f'histogram: the request, weights={weighted}')
    def _(h, weighted=weighted):
        T = h.mod(TD)
        nx, ny, n = h.size('nx', 1), h.size('ny', 1), h.size('n')
        H = Hist2d(h, nx, ny); T.np.histogram2d = H
        x, y, w = h.array('x', n), h.array('y', n), h.array('w', n)
        xr, yr = (h.real('a'), h.real('b')), (h.real('c'), h.real('d'))
        e = T.Histogram2D(x_bins=nx, y_bins=ny, x_range=xr, y_range=yr)
        r = e.fit(x, y, w) if weighted else e.fit(x, y)
        h.same_object('the estimator itself', r, e)
        h.prove('one request', z3.BoolVal(len(H.calls) == 1))
        gx, gy, bins, rng, dens, wt = H.calls[0]
        h.eqarr('abscissa', gx, x); h.eqarr('ordinate', gy, y)
        h.prove('cells', conj(bins[0] == nx, bins[1] == ny))
        h.prove('range', conj(*[p == q for P, Q in zip(rng, (xr, yr)) for p, q in zip(P, Q)]))
        h.prove('a density', z3.BoolVal(dens is True))
        if weighted: h.eqarr('weights', wt, w)
        else: h.prove('no weights', z3.BoolVal(wt is None))
        i, j = h.idx(nx), h.idx(ny)
        h.shape('centres', e.x_c, (nx,)); h.shape('centres', e.y_c, (ny,))
        h.eq('x centre', at(e.x_c, i) * 2, at(H.xe, i) + at(H.xe, i + 1))
        h.eq('y centre', at(e.y_c, j) * 2, at(H.ye, j) + at(H.ye, j + 1))


def fitted(h, mode):
    T = h.mod(TD)
    nx, ny = h.size('nx', 1), h.size('ny', 1)
    H = Hist2d(h, nx, ny); T.np.histogram2d = H
    e = T.Histogram2D(x_bins=nx, y_bins=ny, out_of_range=mode) if mode else T.Histogram2D(x_bins=nx, y_bins=ny)
    d = h.size('d')
    e.fit(h.array('dx', d), h.array('dy', d))
    return e, H, nx, ny


for mode in ('zero', 'fixed', None):
    @case(f'histogram: value at a point, out of range={mode}')
    def _(h, mode=mode):
        e, H, nx, ny = fitted(h, mode)
        m = h.size('m')
        x, y = h.array('x', m), h.array('y', m)
        z0 = H.z.snap()
        q, i, j = h.idx(m), h.idx(nx), h.idx(ny)
        xq, yq = at(x, q), at(y, q)
        o = e.on(x, y)
        h.shape('one value per point', o, (m,))
        cell = lambda e, v, k, n: conj(at(e, k) <= v, disj(v < at(e, k + 1), conj(k == n - 1, v == at(e, n))))
        inx, iny = cell(H.xe, xq, i, nx), cell(H.ye, yq, j, ny)
        h.prove('the cell that counts the point', imp(conj(inx, iny), at(o, q) == at(H.z, i, j)))
        out = disj(xq < at(H.xe, 0), xq > at(H.xe, nx), yq < at(H.ye, 0), yq > at(H.ye, ny))
        if mode != 'fixed': h.prove('nothing outside', imp(out, at(o, q) == 0))
        else:
            h.prove('left of the range: first column', imp(conj(xq < at(H.xe, 0), iny), at(o, q) == at(H.z, 0, j)))
            h.prove('right of the range: last column', imp(conj(xq > at(H.xe, nx), iny), at(o, q) == at(H.z, nx - 1, j)))
            h.prove('below the range: first row', imp(conj(yq < at(H.ye, 0), inx), at(o, q) == at(H.z, i, 0)))
            h.prove('above the range: last row', imp(conj(yq > at(H.ye, ny), inx), at(o, q) == at(H.z, i, ny - 1)))
        h.unchanged('the map is left alone', H.z, z0)
        h.independent('a new array', o, H.z)


@case('histogram: unknown treatment of points outside')
def _(h):
    T = h.mod(TD)
    h.raises('refused', AssertionError, lambda: T.Histogram2D(out_of_range='nearest'))


for weighted in (False, True):
    @case(f'nearest neighbours, weights={weighted}')
    def _(h, weighted=weighted):
        T = h.mod(TD)
        n, m, k = h.size('n', 1), h.size('m'), h.int('k', lo=1)
        X, Y, w = h.array('X', n), h.array('Y', n), h.array('w', n)
        e = T.KNearestNeighbor2D(k=k)
        r = e.fit(X, Y, weight=w) if weighted else e.fit(X, Y)
        h.same_object('the estimator itself', r, e)
        x, y = h.array('x', m), h.array('y', m)
        o = e.on(x, y)
        h.shape('one value per point', o, (m,))
        h.prove('one query', z3.BoolVal(len(CALLS) == 1))
        tree, Q, ku, fd, fi = CALLS[0]
        i, q = h.idx(n), h.idx(m)
        h.eq('at most all points', S(ku), ite(k <= n, k, n))
        h.shape('training set', tree.X, (n, 2)); h.eq('x', at(tree.X, i, 0), at(X, i)); h.eq('y', at(tree.X, i, 1), at(Y, i))
        h.shape('queries', Q, (m, 2)); h.eq('x', at(Q, q, 0), at(x, q)); h.eq('y', at(Q, q, 1), at(y, q))
        r = S(fd(q.e, z3.simplify(ku - 1)))
        area = S(C.PI) * r * r
        num = S(A.mk_sum(lambda t: C.toreal(at(w, S(fi(q.e, t)))), ku, R)) if weighted else S(C.toreal(S(ku)))
        h.prove('the number (weight) of neighbours over the area they take', at(o, q) * area == num)


class Field:
    """a caller's estimator: any function of the position"""

    def __init__(self, T, h):
        F = z3.Function(CTX.fresh_name('density'), R, R, R)

        class E(T.DensityEstimator2D):
            calls = 0

            def on(self, x, y):
                CTX.side('flat coordinates of equal length', z3.And(z3.BoolVal(x.ndim == 1 and y.ndim == 1), dz(x._shape[0]) == dz(y._shape[0])))
                return A.elementwise(lambda a, b: S(F(C.toreal(a), C.toreal(b))), [x, y], 'f8')

            def fit(self, x, y, weight=None):
                self.data = x, y, weight
                return self
        self.F, self.E = F, E

    def __call__(self, x, y): return S(self.F(C.toreal(x), C.toreal(y)))


for idx in (None, 'xy', 'ij'):
    for given in (True, False):
        @case(f'mesh, indexing={idx}, {"given axes" if given else "default axes"}')
        def _(h, idx=idx, given=given):
            T = h.mod(TD)
            f = Field(T, h)
            nx, ny = h.size('nx', 2), h.size('ny', 2)
            kw = {} if idx is None else {'indexing': idx}
            if given:
                x, y = h.array('x', nx), h.array('y', ny)
                r = f.E().on_meshgrid(x, y, **kw)
                h.same_object('x axis', r.x, x); h.same_object('y axis', r.y, y)
            else:
                a, b, c, d = (h.real(t) for t in 'abcd')
                r = f.E().on_meshgrid(x_range=(a, b), y_range=(c, d), n_x=nx, n_y=ny, **kw)
                x, y = r.x, r.y
                h.shape('x axis', x, (nx,)); h.shape('y axis', y, (ny,))
                k, l = h.idx(nx), h.idx(ny)
                h.eq('x axis', at(x, k), a + (b - a) * S(C.toreal(k)) / S(C.toreal(nx - 1))); h.eq('y axis', at(y, l), c + (d - c) * S(C.toreal(l)) / S(C.toreal(ny - 1)))
            i, j = h.idx(nx), h.idx(ny)
            ix = (i, j) if idx == 'ij' else (j, i)
            sh = (nx, ny) if idx == 'ij' else (ny, nx)
            for o in (r.x_m, r.y_m, r.z_m): h.shape('mesh', o, sh)
            h.eq('x on the mesh', at(r.x_m, *ix), at(x, i)); h.eq('y on the mesh', at(r.y_m, *ix), at(y, j))
            h.eq('density at the position', at(r.z_m, *ix), f(at(x, i), at(y, j)))


# --- scatter plots ---------------------------------------------------------------------------------------------------------------------------------

class Axes:
    """records what is drawn"""

    def __init__(self):
        self.drawn = []
        self._raw = self

    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)

        def draw(*a, **kw):
            self.drawn.append((k, a, kw))
            return (k, len(self.drawn))
        return draw


for rng in (True, False):
    for two in (True, False):
        @case(f'plot set-up, {"given" if rng else "data"} range, {"two numbers" if two else "one number"} of cells')
        def _(h, rng=rng, two=two):
            T = h.mod(TD)
            n = h.size('n', 1)
            x, y, w = h.array('x', n), h.array('y', n), h.array('w', n)
            nx = h.size('nx', 1); ny = h.size('ny', 1) if two else nx
            f = Field(T, h); est = f.E()
            kw = {}
            if rng:
                lims = (h.real('a'), h.real('b')), (h.real('c'), h.real('d'))
                kw['range'] = lims
            s = T.Scatter2D(Axes(), x, y, n_bins=(nx, ny) if two else nx, weight=w, density_estimator=est, **kw)
            h.eqarr('fitted to x', est.data[0], x); h.eqarr('fitted to y', est.data[1], y); h.eqarr('with the weights', est.data[2], w)
            for c, (lab, v, m) in enumerate((('x', x, nx), ('y', y, ny))):
                lo, hi = s.range[c]
                if rng: h.prove(f'{lab} range', conj(lo == lims[c][0], hi == lims[c][1]))
                else:
                    k = h.idx(n)
                    h.prove(f'{lab} range holds the data', conj(lo <= at(v, k), at(v, k) <= hi))
                e, m_, d = s.edges[c], s.centers[c], s.step[c]
                h.shape(f'{lab} edges', e, (m + 1,)); h.shape(f'{lab} centres', m_, (m,))
                j = h.idx(m)
                step = (hi - lo) / S(C.toreal(m))
                h.eq(f'{lab} edges', at(e, j), lo + step * S(C.toreal(j))); h.eq(f'{lab} last edge', at(e, m), hi)
                h.eq(f'{lab} centres', at(m_, j) * 2, at(e, j) + at(e, j + 1))
                h.eq(f'{lab} step', d, step)


@case('plot set-up, the default estimator')
def _(h):
    T = h.mod(TD)
    n, nx, ny = h.size('n', 1), h.size('nx', 1), h.size('ny', 1)
    H = Hist2d(h, nx, ny); T.np.histogram2d = H
    x, y, w = h.array('x', n), h.array('y', n), h.array('w', n)
    lims = (h.real('a'), h.real('b')), (h.real('c'), h.real('d'))
    s = T.Scatter2D(Axes(), x, y, range=lims, n_bins=(nx, ny), weight=w)
    gx, gy, bins, rng, dens, wt = H.calls[0]
    h.prove('one histogram', z3.BoolVal(len(H.calls) == 1))
    h.eqarr('abscissa', gx, x); h.eqarr('ordinate', gy, y); h.eqarr('weights', wt, w)
    h.prove('cells', conj(bins[0] == nx, bins[1] == ny))
    h.prove('range', conj(*[p == q for P, Q in zip(rng, lims) for p, q in zip(P, Q)]))


def mass(h, s):
    """contract of cum_prob_mass: any cells and fractions, ascending; k: the first cell at which the fraction below reaches 1 - p"""
    m = h.size('cells', 1)
    zs, p = h.array('zs', m), h.array('prob', m)
    h.ascending(zs, strict=False); h.ascending(p, strict=False)
    type(s).cum_prob_mass = property(lambda self: (zs, p))
    k = h.idx(m)
    return zs, p, k, lambda k, q: conj(at(p, k) >= 1 - q, disj(k == 0, at(p, ite(k > 0, k - 1, 0)) < 1 - q))


def plot(h, transform=None, nx=None, ny=None):
    T = h.mod(TD)
    n = h.size('n', 1)
    x, y = h.array('x', n), h.array('y', n)
    nx, ny = h.size('nx', 1), h.size('ny', 1)
    f = Field(T, h)
    lims = (h.real('a'), h.real('b')), (h.real('c'), h.real('d'))
    ax = Axes()
    s = T.Scatter2D(ax, x, y, range=lims, n_bins=(nx, ny), density_estimator=f.E(), **({'z_transform': transform} if transform else {}))
    return T, s, ax, f, x, y, n, nx, ny


for tr in (False, True):
    tf = z3.Function('transform', R, R)
    trans = (lambda z: A.elementwise(lambda v: S(tf(C.toreal(v))), [z], 'f8')) if tr else None

    @case(f'densities on the cells, transform={tr}')
    def _(h, tr=tr, tf=tf, trans=trans):
        T, s, ax, f, x, y, n, nx, ny = plot(h, trans)
        z = s.transformed_density_on_mesh
        h.shape('one value per cell', z, (ny, nx))
        i, j = h.idx(nx), h.idx(ny)
        v = f(at(s.centers[0], i), at(s.centers[1], j))
        h.eq('the density at the cell centre', at(z, j, i), S(tf(v.e)) if tr else v)
        r = s.mesh(vmin=1, cmap='c', rasterized=True)
        h.same_object('chained', r, s)
        h.prove('one mesh', z3.BoolVal([k for k, _, _ in ax.drawn] == ['pcolormesh'] and len(s.plot_outs) == 1 and s.plot_outs[0] == ('pcolormesh', 1)))
        _, (xe, ye, zz), kw = ax.drawn[0]
        h.eqarr('x edges', xe, s.edges[0]); h.eqarr('y edges', ye, s.edges[1]); h.eqarr('values', zz, z)
        h.prove('options', z3.BoolVal(kw == dict(cmap='c', vmin=1, vmax=None, norm=None, alpha=None, edgecolors='none', rasterized=True)))

    @case(f'hidden points, transform={tr}')
    def _(h, tr=tr, tf=tf, trans=trans):
        T, s, ax, f, x, y, n, nx, ny = plot(h, trans)
        zs, prob, k, first = mass(h, s)
        p = h.real('p')
        x0, y0 = x.snap(), y.snap()
        r = s.scatter(hidden_in_p=p, s=3, zorder=7)
        h.same_object('chained', r, s)
        h.prove('drawn once', z3.BoolVal([k for k, _, _ in ax.drawn] == ['scatter'] and len(s.plot_outs) == 1))
        _, (gx, gy), kw = ax.drawn[0]
        h.prove('options', z3.BoolVal(kw == dict(marker='o', s=3, c='k', edgecolors='none', alpha=None, linewidths=1, zorder=7)))
        lev = s.z_level_at_percentile([p], id_shift=-1)[0]
        h.prove('the cell before the level', imp(first(k, p), lev == at(zs, ite(k > 0, k - 1, 0))))
        want = A.elementwise(lambda a, b: (S(tf(f(a, b).e)) if tr else f(a, b)) < lev, [x, y], 'b1')
        h.eqarr('the points below the level, in order', gx, x[want]); h.eqarr('the points below the level, in order', gy, y[want])
        h.unchanged('data', x, x0); h.unchanged('data', y, y0)


for kind in ('points', 'contour', 'filled'):
    @case(f'what is drawn: {kind}')
    def _(h, kind=kind):
        T, s, ax, f, x, y, n, nx, ny = plot(h)
        if kind == 'points':
            r = s.scatter(alpha=.5)
            name, (gx, gy), kw = ax.drawn[0]
            h.eqarr('all points', gx, x); h.eqarr('all points', gy, y)
            h.prove('options', z3.BoolVal(name == 'scatter' and kw == dict(marker='o', s=10, c='k', edgecolors='none', alpha=.5, linewidths=1)))
        else:
            zs, prob, k, first = mass(h, s)
            r = s.contour(use_fill=kind == 'filled', vmax=4)
            name, (gx, gy, gz), kw = ax.drawn[0]
            h.prove('the drawing', z3.BoolVal(name == ('contourf' if kind == 'filled' else 'contour') and ('linewidths' in kw) == (kind == 'contour') and kw['vmax'] == 4))
            h.shape('levels', kw['levels'], (3,))
            for c, q in enumerate((.99, .95, .68)): h.prove('levels at 99, 95 and 68 per cent', imp(first(k, S(C.lift(q))), at(kw['levels'], c) == at(zs, k)))
            h.eqarr('x centres', gx, s.centers[0]); h.eqarr('y centres', gy, s.centers[1])
            i, j = h.idx(nx), h.idx(ny)
            h.shape('values', gz, (ny, nx)); h.eq('values', at(gz, j, i), f(at(s.centers[0], i), at(s.centers[1], j)))
        h.same_object('chained', r, s)
        h.prove('remembered', z3.BoolVal(len(ax.drawn) == 1 and s.plot_outs == [(name, 1)]))


def with_map(h):
    T, s, ax, f, x, y, n, nx, ny = plot(h)
    z = h.array('z', (ny, nx))
    h.assume_all(z, lambda v, *ix: v >= 0)
    type(s).transformed_density_on_mesh = property(lambda self: z)
    return s, z, nx, ny


@case('accumulated mass')
def _(h):
    s, z, nx, ny = with_map(h)
    m = nx * ny
    z0 = z.snap()
    zs, p = s.cum_prob_mass
    flat = npm.sort(z.ravel())
    h.shape('cells', zs, (m,)); h.shape('cells', p, (m,))
    h.eqarr('the cells, ascending', zs, flat)
    k = h.idx(m)
    tot = S(A.mk_sum(lambda t: C.toreal(at(flat, S(t))), dz(m._shape[0]) if hasattr(m, '_shape') else C.toint(m), R))
    h.assume(tot > 0)
    h.prove('the fraction up to this cell', at(p, k) * tot == S(A.mk_sum(lambda t: C.toreal(at(flat, S(t))), C.toint(k + 1), R)))
    h.prove('fractions ascend', imp(k + 1 < m, at(p, k) <= at(p, ite(k + 1 < m, k + 1, k))))
    h.eq('to one', at(p, m - 1), 1)
    h.unchanged('the map', z, z0)


for shift in (None, -1):
    @case(f'levels at percentiles, shift={shift}')
    def _(h, shift=shift):
        T, s, ax, f, x, y, n, nx, ny = plot(h)
        zs, p, k, first = mass(h, s)
        m = zs._shape[0]
        q = h.size('q'); ps = h.array('ps', q)
        o = s.z_level_at_percentile(ps) if shift is None else s.z_level_at_percentile(ps, id_shift=shift)
        h.shape('one level each', o, (q,))
        j = h.idx(q)
        lo = 1 - at(ps, j)
        if shift is None: h.prove('the first cell at which the fraction left below is reached', imp(first(k, at(ps, j)), at(o, j) == at(zs, k)))
        else: h.prove('the cell before it', imp(first(k, at(ps, j)), at(o, j) == at(zs, ite(k > 0, k - 1, 0))))
        if shift is None:
            h.prove('never reached: the densest cell', imp(at(p, S(dz(m) - 1)) < lo, at(o, j) == at(zs, S(dz(m) - 1))))
