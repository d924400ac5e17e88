"""Cosmic-web classification (field/cubic_box/cosmic_web.py TidalClassifier)."""
from .common_cic import *
from ..arr import mk_sum
suite = Suite()
CW = 'field.cubic_box.cosmic_web'
NAMES = dict(knot=3, filament=2, sheet=1, void=0, k=3, f=2, s=1, v=0)


def setup(h, th=True, **kw):
    n, L = h.int('n', lo=1), h.real('L', gt=0)
    M = h.mod(MESH).Mesh.new(n, L)
    lam = h.array('lam', (n, n, n, 3))
    h.assume_all(lam, lambda v, i, j, k, c: conj(imp(c == 0, v <= at(lam, i, j, k, 1)), imp(c == 1, v <= at(lam, i, j, k, 2))))
    t = h.real('th')
    T = h.mod(CW).TidalClassifier
    return (T(lam, M, lam_th=t) if th else T(lam, M)), lam, n, L, t if th else 0.


def count(lam, th, i, j, k):
    return sum([ite(at(lam, i, j, k, c) > th, 1, 0) for c in range(3)], 0)


for th in (True, False):
    @suite.case(f'the class is the number of eigenvalues above the threshold (given={th})')
    def _(h, th=th):
        lam0 = None
        T, lam, n, L, t = setup(h, th)
        l0 = lam.snap()
        h.shape('one class per cell', T.n_lams, (n, n, n))
        i, j, k = h.idx(n), h.idx(n), h.idx(n)
        c = at(T.n_lams, i, j, k)
        h.eq('count', c, count(lam, t, i, j, k))
        h.prove('0 to 3', conj(c >= 0, c <= 3))
        h.prove('ordered eigenvalues: class >= m iff the m-th largest exceeds',
                conj(*[iff(c >= m, at(lam, i, j, k, 3 - m) > t) for m in (1, 2, 3)]))
        for nm, want in NAMES.items():
            h.prove(f'name {nm}', T.web_types[nm] == want)
        for nm in ('knot', 'filament', 'sheet', 'void'):
            h.prove(f'is_{nm}', iff(at(getattr(T, 'is_' + nm), i, j, k), c == NAMES[nm]))
        h.independent('keeps a copy of the eigenvalues', T.lam, lam)
        q = h.idx(3)
        h.eq('the same eigenvalues', at(T.lam, i, j, k, q), at(lam, i, j, k, q))
        h.unchanged('input unchanged', lam, l0)


@suite.case('volume fractions are the class shares and sum to one')
def _(h):
    T, lam, n, L, t = setup(h)
    fr, parts, shares = {}, [], []
    for nm in ('knot', 'filament', 'sheet', 'void'):
        f = S(C.lift(getattr(T, 'f_' + nm)))
        fr[nm] = h.real('f_' + nm); h.assume(fr[nm] == f)
        ind = lambda i, j, k, nm=nm: ite(at(T.n_lams, i, j, k) == NAMES[nm], 1, 0)
        parts.append(ind)
        cells = h.nested(ind, (n, n, n))
        sh = fr[nm] * n * n * n == cells
        h.lemma(f'share of {nm}', sh); shares.append(sh)
    s = fr['knot'] + fr['filament'] + fr['sheet'] + fr['void']
    h.sum_linear('every cell has exactly one class', parts, lambda i, j, k: S(z3.IntVal(1)), (n, n, n))
    fact = S(CTX.pc[-1])
    one = h.nested(lambda i, j, k: S(z3.IntVal(1)), (n, n, n))
    h.derive('shares add up to all cells', shares + [fact], s * n * n * n == one)
    h.derive('fractions sum to one', [s * n * n * n == one, one == n * n * n, n >= 1], s == 1)


def ngp_contract(h, n):
    """callee contract of x_to_xi_nd (proved in C11): a periodic index per coordinate"""
    g = z3.Function('ngp', R, I)
    C.add_templ(g, lambda app: [app >= 0, app < C.lift(n)])

    def x_to_xi_nd(self, x):
        CTX.used_contracts.add(MESH + ':_Mesh.x_to_xi_nd')
        return A.new_arr(x._shape, 'i8', lambda ix: g(x.at(*ix)))
    h.mod(MESH)._Mesh.x_to_xi_nd = x_to_xi_nd
    return lambda v: S(g(C.toreal(v)))


@suite.case('points report the class and the eigenvalues of their grid point')
def _(h):
    T, lam, n, L, t = setup(h)
    g = ngp_contract(h, n)
    P = h.size('P')
    xs = h.array('xs', (P, 3)); x0 = xs.snap()
    o, e = T.web_type_at(xs), T.lam_at(xs)
    h.shape('one class per point', o, (P,)); h.shape('three eigenvalues per point', e, (P, 3))
    p, c = h.idx(P), h.idx(3)
    ix = [g(at(xs, p, a)) for a in range(3)]
    h.eq('class', at(o, p), at(T.n_lams, *ix))
    h.eq('class by definition', at(o, p), count(lam, t, *ix))
    h.eq('eigenvalues', at(e, p, c), at(lam, *ix, c))
    h.unchanged('points unchanged', xs, x0)


@suite.case('points that are not 3-d are refused')
def _(h):
    T, lam, n, L, t = setup(h)
    P = h.size('P')
    h.raises('class', AssertionError, lambda: T.web_type_at(h.array('xs', (P, 2))))
    h.raises('eigenvalues', AssertionError, lambda: T.lam_at(h.array('xs', (P, 4))))


for nm in NAMES:
    @suite.case(f'grid points of class {nm}')
    def _(h, nm=nm):
        T, lam, n, L, t = setup(h)
        x = T.grid_points_of_web_type(nm)
        h.prove('one row of three coordinates per point', x.ndim == 2)
        sel = T.n_lams == NAMES[nm]
        i1 = A.asarr(T.n_lams)
        S0 = x._shape[0]
        h.eq('as many points as cells of the class', S(C.lift(S0)), S(C.lift(sel.sum())))
        p = h.idx(S0)
        spacing = L / n
        # the p-th listed point is the position of a cell of the class; cells in row-major order
        nz = h.mod(CW).np.nonzero(sel)
        ix = [at(nz[a], p) for a in range(3)]
        h.prove('a cell of the class', conj(*[conj(v >= 0, v < n) for v in ix], at(T.n_lams, *ix) == NAMES[nm]))
        for a in range(3): h.eq(f'coordinate {a}', at(x, p, a), S(C.toreal(ix[a])) * spacing)


@suite.case('refuses wrong shapes and unsorted eigenvalues')
def _(h):
    n, L = h.int('n', lo=1), h.real('L', gt=0)
    M = h.mod(MESH).Mesh.new(n, L)
    T = h.mod(CW).TidalClassifier
    m = h.int('m', lo=1); h.assume(m != n)
    for shape in ((n, n, m, 3), (m, n, n, 3), (n, m, n, 3), (n, n, n, 2), (n, n, n, 4), (n, n, n)):
        h.raises(f'shape of {len(shape)} dims', AssertionError, lambda: T(h.array('l', shape), M))


for c in (0, 1):
    @suite.case(f'refuses eigenvalues {c}, {c + 1} out of order in any cell')
    def _(h, c=c):
        n, L = h.int('n', lo=1), h.real('L', gt=0)
        M = h.mod(MESH).Mesh.new(n, L)
        T = h.mod(CW).TidalClassifier
        lam = h.array('l', (n, n, n, 3))
        i, j, k = h.idx(n), h.idx(n), h.idx(n)
        h.assume(at(lam, i, j, k, c) > at(lam, i, j, k, c + 1))
        h.raises('descending pair', AssertionError, lambda: T(lam, M))


for given in (True, False):
    @suite.case(f'a classifier built from a stored tidal result (threshold given={given})')
    def _(h, given=given):
        from .C31 import Group
        n, L, t = h.int('n', lo=1), h.real('L', gt=0), h.real('th')
        lam = h.array('lam', (n, n, n, 3))
        h.assume_all(lam, lambda v, i, j, k, c: conj(imp(c == 0, v <= at(lam, i, j, k, 1)), imp(c == 1, v <= at(lam, i, j, k, 2))))
        g = Group(h, dict(lam=lam, l_box=L, n_grids=n))
        T = h.mod(CW).TidalClassifier
        o = T.new_from_file(g, lam_th=t) if given else T.new_from_file(g)
        i, j, k = h.idx(n), h.idx(n), h.idx(n)
        h.eq('eigenvalues above the threshold', at(o.n_lams, i, j, k), count(lam, t if given else 0., i, j, k))
        h.eq('box', o.mesh.l_box, L); h.eq('grid', o.mesh.n_grids, n)
