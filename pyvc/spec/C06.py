"""Bins and grids (stats/binning.py, core/dataproc/grid.py)."""
from ..harness import *
from .. import arr as A
suite = Suite()
BN, GR = 'stats.binning', 'core.dataproc.grid'


def equal(h):
    """lo, step, n free; hi is lo + step n"""
    CTX.int_range = True
    lo, st, n = h.real('lo'), h.real('st', gt=0), h.int('n', lo=1, hi=2**62)
    hi = h.real('hi'); nr = h.real('nr')
    h.assume(nr == S(C.toreal(n)))
    h.assume(hi - lo == st * nr)
    h.derive('range not empty', [hi - lo == st * nr, st > 0, nr == S(C.toreal(n)), n >= 1], lo < hi)
    return h.mod(BN).EqualSpaceBins((lo, hi), n), lo, hi, n, st, nr


def ascending_edges(h, name='e', strict=False, lo=2):
    n = h.size('n_' + name, lo=lo)
    e = h.array(name, n)
    h.ascending(e, strict=strict)
    return e, n


def located(h, i, x, edge, n, tag=''):
    """i is the half-open cell of x among the edges 0..n"""
    i = S(C.toint(i)) if not isinstance(i, S) else i
    h.prove(tag + 'index in [-1, n]', conj(i >= -1, i <= n))
    h.prove(tag + '-1 exactly below the first edge', iff(i == -1, x < edge(0)))
    h.prove(tag + 'number of cells exactly at or above the last edge', iff(i == n, x >= edge(n)))
    h.prove(tag + 'lower edge <= x', imp(conj(i >= 0, i < n), edge(i) <= x))
    h.prove(tag + 'x < upper edge', imp(conj(i >= 0, i < n), x < edge(i + 1)))


def equal_case(h, get):
    s, lo, hi, n, st, nr = equal(h)
    i, x = get(h, s)
    i = S(C.lift(i))
    q, k = h.real('q'), h.int('k')
    h.assume(q * st == x - lo)
    h.assume(conj(S(C.toreal(k)) <= q, q < S(C.toreal(k + 1))))
    h.lemma('at least one bin', nr >= 1)
    i = h.floors(i, q, [q * st == x - lo, hi - lo == st * nr, nr == S(C.toreal(n)), nr >= 1, st > 0], k)
    h.derive('the code computes the cell on the unbounded grid, clipped', [conj(S(C.toreal(k)) <= q, q < S(C.toreal(k + 1))), n >= 1],
             i == ite(k < -1, -1, ite(k > n, n, k)))
    i0, i = i, h.int('i'); h.assume(i == ite(k < -1, -1, ite(k > n, n, k)))
    kr, dk = h.real('kr'), h.real('dk')
    h.assume(conj(kr == S(C.toreal(k)), dk == q - kr))
    h.derive('on the grid', [q * st == x - lo, dk == q - kr], x - lo == (kr + dk) * st)
    h.lemma('inside the cell', conj(dk >= 0, dk < 1, kr == S(C.toreal(k))))
    h.derive('lower', [x - lo == (kr + dk) * st, conj(dk >= 0, dk < 1, kr == S(C.toreal(k))), st > 0], conj(lo + kr * st <= x, x < lo + (kr + 1) * st))
    h.prove('index in [-1, n]', conj(i >= -1, i <= n))
    h.derive('left of the range', [q * st == x - lo, st > 0], iff(q < 0, x < lo))
    h.derive('right of the range', [q * st == x - lo, hi - lo == st * nr, st > 0], iff(q >= nr, x >= hi))
    h.prove('-1 exactly below the first edge', iff(i == -1, x < lo))
    h.prove('number of cells exactly at or above the last edge', iff(i == n, x >= hi))
    h.prove('lower edge <= x < upper edge', imp(conj(i >= 0, i < n), conj(i == k, lo + kr * st <= x, x < lo + (kr + 1) * st)))


@suite.case('equal-width bins: the cell of a value')
def _(h):
    def get(h, s):
        x = h.real('x'); return s.locate(x), x
    equal_case(h, get)


@suite.case('equal-width bins: the cell of every value of an array')
def _(h):
    def get(h, s):
        m = h.size('m'); x = h.array('x', m); j = h.idx(m)
        r = s.locate(x)
        h.shape('one index per value', r, (m,)); h.prove('integers', r.dtype == 'i8')
        h.unchanged('values unchanged', x, x.snap())
        return at(r, j), at(x, j)
    equal_case(h, get)


@suite.case('equal-width bins: integer values')
def _(h):
    def get(h, s):
        m = h.size('m'); x = h.array('x', m, 'i8'); j = h.idx(m)
        return at(s.locate(x), j), S(C.toreal(at(x, j)))
    equal_case(h, get)


@suite.case('equal-width bins: the cell of every value of a table')
def _(h):
    def get(h, s):
        m, p = h.size('m'), h.size('p'); x = h.array('x', (m, p)); j, k = h.idx(m), h.idx(p)
        r = s.locate(x)
        h.shape('one index per value', r, (m, p))
        return at(r, j, k), at(x, j, k)
    equal_case(h, get)


@suite.case('equal-width bins: edges and counts')
def _(h):
    s, lo, hi, n, st, nr = equal(h)
    h.eq('number of bins', s.n_bins, n)
    e = s.x_edges
    h.shape('one more edge than bins', e, (n + 1,))
    j = h.idx(n + 1)
    h.eq('equally spaced', at(e, j), lo + st * S(C.toreal(j)))
    h.eq('first edge', at(e, 0), lo); h.eq('last edge', at(e, n), hi)
    k = h.idx(n)
    h.hint(k.e, (k + 1).e)
    h.lemma('edge k', at(e, k) == lo + st * S(C.toreal(k))); h.lemma('edge k+1', at(e, k + 1) == lo + st * S(C.toreal(k)) + st)
    h.prove('ascending', at(e, k) < at(e, k + 1))
    c = s.x_centers
    h.shape('one center per bin', c, (n,))
    h.eq('center midway', at(c, k), (at(e, k) + at(e, k + 1)) / 2)
    h.eq('step', s.x_step, st); h.eq('span', s.x_span, hi - lo); h.eq('range lo', s.x_range[0], lo); h.eq('range hi', s.x_range[1], hi)


@suite.case('bad equal-width specifications are refused')
def _(h):
    M = h.mod(BN)
    lo, hi, n = h.real('lo'), h.real('hi'), h.int('n')
    h.assume(disj(lo >= hi, n <= 0))
    h.raises('refused', AssertionError, lambda: M.EqualSpaceBins((lo, hi), n))


def explicit(h):
    n = h.size('n', lo=2)
    raw = h.array('raw', n)
    s = h.mod(BN).BiSearchBins(raw)
    return s, raw, n


@suite.case('explicit edges: sorted edges, counts, centers')
def _(h):
    s, raw, n = explicit(h)
    e = s.x_edges
    h.shape('all edges kept', e, (n,))
    h.eq('number of bins', s.n_bins, n - 1)
    i, j = h.idx(n), h.idx(n)
    h.prove('ascending', imp(i <= j, at(e, i) <= at(e, j)))
    h.unchanged('input unchanged', raw, raw.snap())
    k = h.idx(n - 1)
    c = s.x_centers
    h.shape('one center per bin', c, (n - 1,))
    h.eq('center midway', at(c, k), (at(e, k) + at(e, k + 1)) / 2)
    h.independent('the edges are not the caller\'s array', e, raw)


@suite.case('explicit edges given in ascending order are the edges')
def _(h):
    n = h.size('n', lo=2)
    raw = h.array('raw', n); h.ascending(raw, strict=True)
    s = h.mod(BN).BiSearchBins(raw)
    x, j = h.real('x'), h.idx(n)
    i = S(C.lift(s.locate(x)))
    h.prove('index in range', conj(i >= -1, i < n))
    h.prove('number of bins', s.n_bins == n - 1)


def explicit_case(h, get):
    s, raw, n = explicit(h)
    i, x = get(h, s)
    i = S(C.lift(i))
    h.hint(i.e, (i + 1).e, z3.IntVal(0), (n - 1).e)
    located(h, i, x, lambda k: at(s.x_edges, S(C.lift(k))), n - 1)


@suite.case('explicit edges: the cell of a value')
def _(h):
    def get(h, s):
        x = h.real('x'); return s.locate(x), x
    explicit_case(h, get)


@suite.case('explicit edges: the cell of every value of an array')
def _(h):
    def get(h, s):
        m = h.size('m'); x = h.array('x', m); j = h.idx(m); r = s.locate(x)
        h.shape('one index per value', r, (m,))
        return at(r, j), at(x, j)
    explicit_case(h, get)


@suite.case('explicit edges: the cell of every value of a table')
def _(h):
    def get(h, s):
        m, p = h.size('m'), h.size('p'); x = h.array('x', (m, p)); j, k = h.idx(m), h.idx(p); r = s.locate(x)
        h.shape('one index per value', r, (m, p))
        return at(r, j, k), at(x, j, k)
    explicit_case(h, get)


@suite.case('the bracketing cell is unique, so equal-width and explicit bins with the same edges agree')
def _(h):
    e, n = ascending_edges(h, strict=True)
    x, i, k = h.real('x'), h.int('i'), h.int('k')
    for v in (i, k):
        h.assume(conj(v >= -1, v <= n - 1, iff(v == -1, x < at(e, 0)), iff(v == n - 1, x >= at(e, n - 1))))
        h.assume(imp(conj(v >= 0, v < n - 1), conj(at(e, v) <= x, x < at(e, v + 1))))
    h.hint(i.e, k.e, (i + 1).e, (k + 1).e)
    h.prove('agree', i == k)


def any_bins(h):
    """any implementation of Bins that satisfies the contract of locate"""
    M = h.mod(BN)
    e, n1 = ascending_edges(h, strict=False)
    n = n1 - 1
    F = z3.Function('locate', R, I)

    def t(app):
        v = S(app.arg(0)); i = S(app)
        return [b(conj(i >= -1, i <= n, iff(i == -1, v < at(e, 0)), iff(i == n, v >= at(e, n)))),
                b(imp(conj(i >= 0, i < n), conj(at(e, i) <= v, v < at(e, i + 1))))]
    C.add_templ(F, t)

    class B(M.Bins):
        n_bins, x_edges = n, e

        def locate(self, x):
            CTX.used_contracts.add(BN + ':Bins.locate')
            return A.elementwise(lambda v: S(F(C.toreal(v))), [x], 'i8') if isinstance(x, A.SArr) else S(F(C.toreal(x)))
    return B(), e, n, (lambda x: S(F(C.toreal(x))))


@suite.case('bounded lookup')
def _(h):
    s, e, n, F = any_bins(h)
    m = h.size('m'); x = h.array('x', m); j = h.idx(m); i = F(at(x, j))
    r = s.locate_bound(x)
    h.shape('shape', r, (m,))
    h.eq('both sides', at(r, j), ite(i < 0, 0, ite(i > n - 1, n - 1, i)))
    h.eq('lower only', at(s.locate_bound(x, upper=False), j), ite(i < 0, 0, i))
    h.eq('upper only', at(s.locate_bound(x, lower=False), j), ite(i > n - 1, n - 1, i))
    if True:
        v = h.real('v')
        h.eq('a single value', s.locate_bound(v), ite(F(v) < 0, 0, ite(F(v) > n - 1, n - 1, F(v))))


@suite.case('lookup bounded on no side')
def _(h):
    s, e, n, F = any_bins(h)
    m = h.size('m'); x = h.array('x', m); j = h.idx(m)
    h.eq('the plain lookup', at(s.locate_bound(x, lower=False, upper=False), j), F(at(x, j)))


def nearest_case(h, arr):
    s, e, n, F = any_bins(h)
    if arr:
        m = h.size('m'); xs = h.array('x', m); j = h.idx(m); x = at(xs, j); rr = s.locate_nearest(xs)
        h.shape('shape', rr, (m,)); r = at(rr, j)
    else:
        x = h.real('x'); r = S(C.lift(s.locate_nearest(x).__pv_scalar__() if isinstance(s.locate_nearest(x), SArr) else s.locate_nearest(x)))
    i = F(x)
    k = h.idx(n + 1)
    h.hint(i.e, (i + 1).e, z3.IntVal(0), n.e, (n - 1).e, k.e, r.e)
    h.prove('valid edge', conj(r >= 0, r <= n))
    h.prove('no edge is closer', abs(at(e, r) - x) <= abs(at(e, k) - x))


@suite.case('nearest edge of every value')
def _(h): nearest_case(h, True)


@suite.case('nearest edge of a value')
def _(h): nearest_case(h, False)


# ---------------------------------------------------------------- grids
def grid1(h, name='g'):
    locs, n = ascending_edges(h, name, lo=1)
    return h.mod(GR).Grid1d(locs), locs, n


@suite.case('one-dimensional grid')
def _(h):
    g, locs, n = grid1(h)
    h.eq('number of locations', g.n_locs, n); h.eqarr('locations', g.locs, locs)
    h.independent('the grid owns its locations', g.locs, locs)
    lo, hi = g.extent
    h.eq('extent lo', lo, at(locs, 0)); h.eq('extent hi', hi, at(locs, n - 1))
    x = h.real('x'); i = S(C.lift(g.locate(x)))
    h.hint(i.e, (i + 1).e, z3.IntVal(0), (n - 1).e)
    located(h, i, x, lambda k: at(g.locs, S(C.lift(k))), n - 1)
    m = h.size('m'); xs = h.array('xs', m); j = h.idx(m); r = g.locate(xs)
    h.shape('one index per value', r, (m,))
    i = at(r, j); h.hint(i.e, (i + 1).e, z3.IntVal(0), (n - 1).e)
    located(h, i, at(xs, j), lambda k: at(g.locs, S(C.lift(k))), n - 1, 'array: ')


@suite.case('one-dimensional grid: centers, copies')
def _(h):
    locs, n = ascending_edges(h, 'g', lo=2)
    g = h.mod(GR).Grid1d(locs)
    k = h.idx(n - 1)
    c = g.centers
    h.shape('centers', c.locs, (n - 1,)); h.eq('midway', at(c.locs, k), (at(locs, k) + at(locs, k + 1)) / 2)
    g2 = h.mod(GR).Grid1d(g)
    h.eqarr('copy', g2.locs, locs); h.independent('independent copy', g2.locs, g.locs)


@suite.case('descending locations are refused')
def _(h):
    n = h.size('n', lo=2); a = h.array('a', n)
    k = h.idx(n - 1); h.hint(k.e, (k + 1).e)
    h.assume(at(a, k) > at(a, k + 1))
    h.raises('refused', AssertionError, lambda: h.mod(GR).Grid1d(a))


def gridmd(h, D):
    parts = [ascending_edges(h, f'g{d}', lo=1) for d in range(D)]
    return h.mod(GR).GridMd(*[p[0] for p in parts]), parts


for D in (1, 2, 3, 4):
    @suite.case(f'grid of {D} dimensions')
    def _(h, D=D):
        g, parts = gridmd(h, D)
        h.eq('dimensions', g.n_dims, D)
        N = h.size('N'); x = h.array('x', (N, D))
        h.eq('one index array per axis', len(g.locate(x)), D)
        for d, (locs, n) in enumerate(parts):
            h.eq(f'axis {d}: locations', g.n_locs[d], n); h.eqarr(f'axis {d}: locs', g.locs_1d[d], locs)
            h.eq(f'axis {d}: extent', g.extent[d][0], at(locs, 0)); h.eq(f'axis {d}: extent hi', g.extent[d][1], at(locs, n - 1))
        ix = [h.idx(n) for _, n in parts]
        for d, (locs, n) in enumerate(parts):
            l = g.locs[d]
            h.shape(f'axis {d}: mesh', l, tuple(n for _, n in parts)); h.eq(f'axis {d}: mesh value', at(l, *ix), at(locs, ix[d]))

    for d in range(D):
        @suite.case(f'lookup on axis {d} of {D}')
        def _(h, D=D, d=d):
            g, parts = gridmd(h, D)
            locs, n = parts[d]
            N = h.size('N'); x = h.array('x', (N, D)); j = h.idx(N)
            r = g.locate(x)[d]
            h.shape('one index per point', r, (N,))
            i = at(r, j); h.hint(i.e, (i + 1).e, z3.IntVal(0), (n - 1).e)
            located(h, i, at(x, j, S(z3.IntVal(d))), lambda k: at(locs, S(C.lift(k))), n - 1)


@suite.case('grid centers')
def _(h):
    parts = [ascending_edges(h, f'g{d}', lo=2) for d in range(2)]
    c = h.mod(GR).GridMd(*[p[0] for p in parts]).centers
    for d, (locs, n) in enumerate(parts):
        k = h.idx(n - 1)
        h.shape(f'axis {d}', c.locs_1d[d], (n - 1,)); h.eq(f'axis {d}: midway', at(c.locs_1d[d], k), (at(locs, k) + at(locs, k + 1)) / 2)
