"""C18: density estimates (stats/density_estimation.py, stats/kernel.py).

Library contracts: sklearn KDTree (as in C17) and numpy.histogramdd (weighted counts per cell, last edge closed; densities divide by the sum of the
contents and by the cell volume). The volume of a ball is a contract of its own, proved by induction on the dimension."""
from ..harness import *
from .. import arr as A, loops as L, npm, ghost as G
from ..arr import mk_sum, dz, dim
from . import C17 as R17
from .C17 import KDTree, models, kernel_value, KERNELS, TREES, two
suite = Suite()
DE, KN, GR = 'stats.density_estimation', 'stats.kernel', 'core.dataproc.grid'
ballV = z3.Function('ball_volume', I, R, R)


def balls(K):
    """callee contract of Tophat._ball_volume"""
    def vol(n_dims, radius):
        CTX.used_contracts.add(KN + ':Tophat._ball_volume')
        d = C.toint(S(C.lift(n_dims)))
        CTX.side('a dimension is not negative', d >= 0)
        if isinstance(radius, A.SArr): return A.elementwise(lambda r: S(ballV(d, C.toreal(S(C.lift(r))))), [radius], 'f8')
        return S(ballV(d, C.toreal(S(C.lift(radius)))))
    K.Tophat._ball_volume = staticmethod(vol)


def V(d, r): return S(ballV(C.toint(S(C.lift(d))), C.toreal(S(C.lift(r)))))


# --- volume of a ball -----------------------------------------------------------------------------------------------------------------------------

gam, pih, rpow = z3.Function('Gamma_half', I, R), z3.Function('pi_half_power', I, R), z3.Function('natural_power', R, I, R)


def formula(d, r):
    """pi^(d/2) r^d / Gamma(d/2+1); Gamma_half(d) = Gamma(d/2+1), pi_half_power(d) = pi^(d/2)"""
    return S(pih(d)) * S(rpow(r, d)) / S(gam(d))


def laws(h, d, r):
    """the defining laws of the three functions at d: Gamma(x+1) = x Gamma(x), pi^(x+1) = pi pi^x, r^(n+2) = r r r^n, and their first values"""
    npm.trust('Gamma(x+1) = x Gamma(x), Gamma(1) = 1, Gamma(3/2) = sqrt(pi)/2, pi^(x+1) = pi pi^x')
    sp = h.real('sqrt_pi')
    h.assume(conj(sp > 0, sp * sp == S(C.PI)))
    h.assume(conj(S(gam(z3.IntVal(0))) == 1, S(gam(z3.IntVal(1))) * 2 == sp, S(pih(z3.IntVal(0))) == 1, S(pih(z3.IntVal(1))) == sp,
                  S(rpow(r, z3.IntVal(0))) == 1, S(rpow(r, z3.IntVal(1))) == S(r)))
    dr = S(z3.ToReal(d))
    h.assume(imp(S(d) >= 2, conj(S(gam(d)) == dr / 2 * S(gam(d - 2)), S(pih(d)) == S(C.PI) * S(pih(d - 2)), S(rpow(r, d)) == S(r) * S(r) * S(rpow(r, d - 2)))))
    h.assume(conj(S(gam(d)) > 0, S(gam(d - 2)) > 0))
    return sp


ORIG = {}
closed = z3.Function('closed_form', I, R)      # formula(d, r) for the radius of the case


@suite.case('recursion of the closed form')
def _(h):
    d, r = h.int('d', lo=2), h.real('r')
    laws(h, d.e, r.e)
    g0, g1, p0, p1, q0, q1 = (h.real(x) for x in ('g0', 'g1', 'p0', 'p1', 'q0', 'q1'))
    h.assume(conj(g0 == S(gam(d.e - 2)), g1 == S(gam(d.e)), p0 == S(pih(d.e - 2)), p1 == S(pih(d.e)), q0 == S(rpow(r.e, d.e - 2)), q1 == S(rpow(r.e, d.e))))
    x, y, dd, pi = h.real('x'), h.real('y'), h.real('dd'), h.real('pi')
    h.assume(conj(x == p0 * q0 / g0, y == p1 * q1 / g1, dd == S(z3.ToReal(d.e)), pi == S(C.PI)))
    h.lemma('x and y are the closed forms', conj(x == formula(d.e - 2, r.e), y == formula(d.e, r.e)))
    h.lemma('terms', conj(g1 * 2 == dd * g0, p1 == pi * p0, q1 == r * r * q0, g0 > 0, g1 > 0, dd >= 2))
    h.derive('previous volume', [x == p0 * q0 / g0, g0 > 0], x * g0 == p0 * q0)
    h.derive('this volume', [y == p1 * q1 / g1, g1 > 0], y * g1 == p1 * q1)
    h.derive('numerators', [p1 == pi * p0, q1 == r * r * q0, x * g0 == p0 * q0], p1 * q1 == pi * r * r * x * g0)
    h.derive('products', [g1 * 2 == dd * g0, y * g1 == p1 * q1, p1 * q1 == pi * r * r * x * g0], g0 * (y * dd) == g0 * (2 * pi * r * r * x))
    h.derive('d V(d) = 2 pi r^2 V(d-2)', [g0 * (y * dd) == g0 * (2 * pi * r * r * x), g0 > 0], y * dd == 2 * pi * r * r * x)


@suite.case('first values of the closed form')
def _(h):
    r = h.real('r')
    laws(h, z3.IntVal(0), r.e)
    sp = h.real('sp'); h.assume(conj(sp > 0, sp == S(pih(z3.IntVal(1)))))
    h.eq('no dimension', formula(z3.IntVal(0), r.e), 1)
    h.eq('one dimension', formula(z3.IntVal(1), r.e), 2 * r)


def ball(tag, arr):
    @suite.case(f'volume of a ball ({tag})')
    def _(h):
        K = h.mod(KN)
        original = ORIG.setdefault(id(K), K.Tophat._ball_volume)
        d = h.int('d', lo=0)
        n = h.size('n')
        rad = h.array('r', (n,)) if arr else h.real('r')
        i = h.idx(n)
        r = at(rad, i) if arr else rad
        # the two lemmas above, for the radius at hand
        C.add_templ(closed, lambda t: [z3.Implies(t.arg(0) == 0, t == 1), z3.Implies(t.arg(0) == 1, t == 2 * r.e),
                                       z3.Implies(t.arg(0) >= 2, t * z3.ToReal(t.arg(0)) == 2 * C.PI * r.e * r.e * closed(z3.simplify(t.arg(0) - 2)))])
        CTX.used_contracts.add(KN + ': closed form of the volume (lemma)')

        def rec(n_dims, radius):
            """induction hypothesis: the contract for a smaller dimension"""
            CTX.used_contracts.add(KN + ':Tophat._ball_volume')
            k = C.toint(S(C.lift(n_dims)))
            CTX.side('recursion towards smaller dimensions', z3.And(k >= 0, k < d.e))
            if not isinstance(radius, A.SArr):
                CTX.side('the same radius', C.toreal(S(C.lift(radius))) == r.e)
                return S(closed(k))
            vol = z3.Function('volume_of', R, I, R)
            CTX.assume(vol(r.e, k) == closed(k))
            return A.elementwise(lambda x: S(vol(C.toreal(S(C.lift(x))), k)), [radius], 'f8')
        K.Tophat._ball_volume = staticmethod(rec)

        def inv(hav, stat, ints):
            """candidate invariants for an implementation by a loop over the dimension"""
            out = []
            for a in [x for x in ints if x in hav]:
                out += [(f'{a} has the parity of the dimension', lambda s, a=a: s[a].e % 2 == d.e % 2), (f'{a}<=d', lambda s, a=a: s[a].e <= d.e)]
                out += [(f'{v} is the volume in {a} dimensions', lambda s, a=a, v=v: C.toreal(s[v]) == closed(s[a].e)) for v in hav if v != a]
            return out
        CTX.hints.append(inv)
        v = original(d, rad)
        if arr and isinstance(v, A.SArr) and v.ndim:
            h.shape('one volume per radius', v, (n,)); v = at(v, i)
        if CTX.branch(d.e >= 2):
            dd, val, c0, c1, pi = (h.real(x) for x in ('dd', 'val', 'c0', 'c1', 'pi'))
            h.assume(conj(dd == S(z3.ToReal(d.e)), val == v, c0 == S(closed(d.e - 2)), c1 == S(closed(d.e)), pi == S(C.PI)))
            if not CTX.holds_fast((val == c1).e):
                h.lemma('the code multiplies by 2 pi r^2 / d', val * dd == 2 * pi * r * r * c0)
                h.lemma('recursion', conj(c1 * dd == 2 * pi * r * r * c0, dd >= 2))
                h.derive('cancelled', [val * dd == 2 * pi * r * r * c0, c1 * dd == 2 * pi * r * r * c0, dd >= 2], val == c1)
            h.eq('pi^(d/2) r^d / Gamma(d/2+1)', val, c1)
        else:
            h.eq('pi^(d/2) r^d / Gamma(d/2+1)', S(C.lift(v)), S(closed(d.e)))


ball('one radius', False)
ball('many radii', True)


@suite.case('volume of a top-hat kernel: its radius, cut at the limit')
def _(h):
    K = h.mod(KN); balls(K)
    r, m, d = h.real('radius'), h.real('max_radius'), h.int('d', lo=0)
    t = K.Tophat(r)
    h.eq('cut', t.volume(d, m), V(d, ite(m < r, m, r)))


@suite.case('a negative dimension is refused')
def _(h):
    K = h.mod(KN)
    d, r = h.int('d'), h.real('r'); h.assume(d < 0)
    h.raises('refused', AssertionError, lambda: K.Tophat._ball_volume(d, r))


# --- histogram ------------------------------------------------------------------------------------------------------------------------------------

def histogramdd(sample, bins=10, range=None, density=None, weights=None):
    npm.trust('numpy.histogramdd: sums of the weights of the samples in each cell (last edge closed); densities divide by their sum and by the cell volume')
    x = A.asarr(sample)
    edges = [A.asarr(e) for e in bins]
    D = len(edges)
    if range is not None or x.ndim != 2: raise Unsupported('histogramdd form')
    CTX.side('one list of edges per column', dz(x._shape[1]) == D)
    N = dz(x._shape[0])
    w = None if weights is None else A.asarr(weights)
    if w is not None: CTX.side('one weight per sample', z3.And(z3.BoolVal(w.ndim == 1), dz(w._shape[0]) == N))
    for e in edges:
        n = dz(e._shape[0]); k = z3.Int(CTX.fresh_name('edge'))
        CTX.side('edges ascend', z3.Implies(z3.And(k >= 0, k + 1 < n), e.at(k) <= e.at(k + 1)))
    x, w = x.copy(), None if w is None else w.copy()
    edges = [e.copy() for e in edges]
    cont = lambda cell: content(x, w, edges, cell)
    sh = tuple(dim(S(dz(e._shape[0]) - 1)) for e in edges)
    if not density: return A.new_arr(sh, 'f8', lambda ix: cont(ix).e), edges
    tot = total(cont, sh)
    vol = lambda ix: volume(edges, ix)
    return A.new_arr(sh, 'f8', lambda ix: (cont(ix) / vol(ix) / tot).e), edges


def content(x, w, edges, cell):
    N = dz(x._shape[0])

    def one(i):
        ins = []
        for d, (e, c) in enumerate(zip(edges, cell)):
            v = S(x.at(i, z3.IntVal(d))); n = dz(e._shape[0])
            ins.append(conj(S(e.at(c)) <= v, disj(v < S(e.at(c + 1)), conj(S(c) == n - 2, v == S(e.at(n - 1))))))
        return ite(conj(*ins), S(z3.RealVal(1)) if w is None else S(C.toreal(S(w.at(i)))), 0.).e
    return S(mk_sum(one, N, R))


def total(cont, sh, pre=()):
    if not sh: return cont(pre)
    return S(mk_sum(lambda c: total(cont, sh[1:], pre + (c,)).e, dz(sh[0]), R))


def volume(edges, cell):
    v = S(z3.RealVal(1))
    for e, c in zip(edges, cell): v = v * (S(e.at(c + 1)) - S(e.at(c)))
    return v


def hist(D, weighted, density, flat=False, fill=True):
    @suite.case(f'histogram in {D} dimensions' + (', weights' if weighted else '') + (', density' if density else ', counts') + (', flat input' if flat else ''), deadline=240,
                models=models)
    def _(h):
        h.ld.models['numpy'].histogramdd = histogramdd
        m = h.mod(DE)
        N, M = h.size('N'), h.size('M')
        sh = (lambda n: (n,)) if flat else (lambda n: (n, D))
        x, xp = h.array('x', sh(N)), h.array('xp', sh(M))
        w = h.array('w', (N,)) if weighted else None
        es = []
        for d in range(D):
            n = h.size(f'n{d}', lo=2); e = h.array(f'e{d}', n); h.ascending(e); es.append((e, n))
        x0, xp0, w0 = x.snap(), xp.snap(), w.snap() if weighted else None
        grid = h.mod(GR).GridMd(*[e for e, _ in es])
        kw = {}
        if fill: kw['out_fill'] = h.real('fill')
        if not density or fill: kw['density'] = density
        if weighted: kw['weight'] = w
        res = (m.DensityEstimation1D if flat else m.DensityEstimationND).by_histogram(x, xp, grid, **kw)
        val = res['h']
        h.shape('one value per prediction point', val, (M,))
        j = h.idx(M)
        cells, ins, outs = [], [], []
        for d, (e, n) in enumerate(es):
            v = S(two(xp).at(j.e, z3.IntVal(d)))
            c = h.int(f'c{d}')
            i = at(res['ids'][d], j)
            h.hint(i.e, (i + 1).e, z3.IntVal(0), (n - 1).e)
            out = disj(v < at(e, 0), v >= at(e, n - 1))
            h.lemma(f'axis {d}: outside', iff(out, disj(i < 0, i >= n - 1)))
            h.assume(c == i)
            h.lemma(f'axis {d}: the cell of the point', imp(~out, conj(c >= 0, c < n - 1, at(e, c) <= v, v < at(e, c + 1))))
            cells.append(c.e); outs.append(out)
        o = disj(*outs)
        h.prove('outside is reported', iff(S(res['is_out'].at(j.e)), o))
        f = kw.get('out_fill', S(z3.RealVal(0)))
        ec = [e for e, _ in es]
        cont = lambda cell: content(two(x), w, ec, cell)
        want = cont(cells)
        if density: want = want / volume(ec, cells) / total(cont, tuple(dim(S(n.e - 1)) for _, n in es))
        if CTX.branch(o.e): h.eq('the fill value outside the grid', at(val, j), f)
        else:
            for d in range(D):
                h.lemma(f'axis {d}: cell used', at(res['clipped_ids'][d], j) == S(cells[d]))
                h.lemma(f'axis {d}: edges used', conj(at(es[d][0], at(res['clipped_ids'][d], j)) == at(es[d][0], S(cells[d])), at(es[d][0], at(res['clipped_ids'][d], j) + 1) == at(es[d][0], S(cells[d]) + 1)))
            h.lemma('inside is reported', ~S(res['is_out'].at(j.e)))
            h.eq('the content of the cell', at(val, j), want)
        h.eq('fill value reported', S(C.lift(res['out_fill'])), f)
        for nm, a, s in (('samples', x, x0), ('prediction points', xp, xp0)) + ((('weights', w, w0),) if weighted else ()): h.unchanged(nm + ' untouched', a, s)


hist(1, False, True, flat=True)
hist(1, True, False)
hist(1, False, True, fill=False)
hist(2, True, True)
hist(2, False, False)
hist(3, True, True)
hist(3, False, False)


@suite.case('histogram grids must fit the samples', models=models)
def _(h):
    h.ld.models['numpy'].histogramdd = histogramdd
    m = h.mod(DE)
    N, M, d = h.size('N'), h.size('M'), h.size('d')
    h.assume(d != 1)
    e = h.array('e', h.size('n', lo=2)); h.ascending(e)
    g = h.mod(GR).GridMd(e)
    x, xp = h.array('x', (N, d)), h.array('xp', (M, 1))
    h.raises('refused', AssertionError, lambda: m.DensityEstimationND.by_histogram(x, xp, g))


# --- fixed radius and nearest neighbours ----------------------------------------------------------------------------------------------------------

def setup(h, nd, weighted):
    TREES.clear(); R17.MEMO.clear()
    n, m, d = h.size('n', lo=1), h.size('m'), h.size('d', lo=1)
    sh = (lambda a: (a,)) if nd == 1 else (lambda a: (a, d))
    X, xp = h.array('X', sh(n)), h.array('xp', sh(m))
    w = h.array('w', (n,)) if weighted else None
    if weighted:
        W = S(mk_sum(lambda i: w.at(i), n.e, R))
        w0 = w.snap()
        wt = lambda i: S(w0((i,))) / W
    else: wt = lambda i: S(z3.RealVal(1)) / S(z3.ToReal(n.e))
    return n, m, (S(z3.IntVal(1)) if nd == 1 else d), X, xp, w, wt


def untouched(h, X, xp, w, snaps):
    for nm, a, s in (('samples', X, snaps[0]), ('prediction points', xp, snaps[1])) + ((('weights', w, snaps[2]),) if w is not None else ()):
        h.unchanged(nm + ' untouched', a, s)


def radius(name, nd, weighted, kern, given=True):
    @suite.case(f'fixed radius: {name}', models=models, deadline=240)
    def _(h):
        m_, K = h.mod(DE), h.mod(KN); balls(K)
        n, m, d, X, xp, w, wt = setup(h, nd, weighted)
        snaps = X.snap(), xp.snap(), w.snap() if weighted else None
        lim = h.real('max_dx') if given else None
        spec, kind = KERNELS[kern](m_, K, h)
        kw = dict(impl_kw={'leaf_size': 7}, impl_query_kw={'sort_results': True}) if weighted else {}
        if weighted: kw['weight'] = w
        res = (m_.DensityEstimation1D if nd == 1 else m_.DensityEstimationND).by_local_kernel(X, xp, max_dx=lim, kernel=spec, **kw)
        T = TREES[0]
        h.prove('one tree, one query', z3.BoolVal(len(TREES) == 1 and len(T.calls) == 1))
        h.eqarr('tree on the samples', T.X, two(X)); h.eqarr('query at the prediction points', T.calls[0][1], two(xp))
        _, _, r, fd, fi, _, cnt = T.calls[0]
        if given: h.eq('the given radius', r, lim)
        else:
            x2 = two(xp); mf, df = S(z3.ToReal(m.e)), S(z3.ToReal(d.e))
            mu = lambda c: S(mk_sum(lambda i: x2.at(i, c), m.e, R)) / mf
            sd = lambda c: C.m_sqrt(S(mk_sum(lambda i: ((S(x2.at(i, c)) - mu(c)) * (S(x2.at(i, c)) - mu(c))).e, m.e, R)) / mf)
            h.eq('a tenth of the mean deviation', r, (S(mk_sum(lambda c: sd(c).e, d.e, R)) / df if nd == 2 else sd(z3.IntVal(0))) / 10)
        r = S(C.toreal(S(C.lift(r))))
        val, nn, mx = res['h'], res['n_neighbors'], res['neighbor_max_dx']
        for a, t in ((val, 'density'), (nn, 'neighbours'), (mx, 'distance')): h.shape(f'one {t} per prediction point', a, (m,))
        p = h.idx(m, 'pt'); c = S(cnt(p.e)); j = h.idx(c)
        h.eq('neighbours used', at(nn, p), c)
        h.prove('farthest: zero without neighbours', imp(c == 0, at(mx, p) == 0))
        h.prove('farthest: not below any', imp(c > 0, at(mx, p) >= S(fd(p.e, j.e))))
        bound = h.real('bound', lo=0)
        C.add_templ(fd, lambda t: [z3.Implies(z3.And(t.arg(0) == p.e, t.arg(1) >= 0, t.arg(1) < c.e), t <= bound.e)])
        h.prove('farthest: the least bound of the distances', at(mx, p) <= bound)
        kv = (lambda q: kernel_value(kind, fd(p.e, q))) if kind else (lambda q: S(z3.RealVal(1)))
        cr = S(z3.ToReal(c.e))
        if kind:
            ks = S(mk_sum(lambda q: kv(q).e, c.e, R))
            h.assume(imp(c > 0, ks != 0))
            want = S(mk_sum(lambda q: (wt(fi(p.e, q)) * (kv(q) * (cr / ks))).e, c.e, R)) / V(d, r)
        else: want = S(mk_sum(lambda q: wt(fi(p.e, q)).e, c.e, R)) / V(d, r)
        h.eq('weight of the neighbours per volume', at(val, p), want)
        untouched(h, X, xp, w, snaps)


radius('plain', 2, False, 'none')
radius('one-dimensional, weights', 1, True, 'none')
radius('kernel width', 1, False, 'number')
radius('gaussian kernel, weights', 2, True, 'gaussian')
radius('top-hat kernel, weights', 2, True, 'tophat')
radius('default kernel', 2, False, 'default gaussian')
radius('kernel object', 2, False, 'instance')
radius('radius from the spread of the prediction points', 2, False, 'none', given=False)
radius('radius from the spread of the prediction points, one-dimensional', 1, True, 'none', given=False)


def knn(name, nd, weighted, kern, limited):
    @suite.case(f'nearest neighbours: {name}', models=models, deadline=240)
    def _(h):
        m_, K = h.mod(DE), h.mod(KN); balls(K)
        n, m, d, X, xp, w, wt = setup(h, nd, weighted)
        snaps = X.snap(), xp.snap(), w.snap() if weighted else None
        lim = h.real('max_dx') if limited else None
        k = h.size('k', lo=1); h.assume(k <= n)
        spec, kind = KERNELS[kern](m_, K, h)
        kw = dict(impl_kw={'leaf_size': 7}, impl_query_kw={'dualtree': False}) if weighted else {}
        if weighted: kw['weight'] = w
        res = (m_.DensityEstimation1D if nd == 1 else m_.DensityEstimationND).by_knn(X, xp, k=k, max_dx=lim, kernel=spec, **kw)
        T = TREES[0]
        h.prove('one tree, one query', z3.BoolVal(len(TREES) == 1 and len(T.calls) == 1))
        h.eqarr('tree on the samples', T.X, two(X)); h.eqarr('query at the prediction points', T.calls[0][1], two(xp))
        _, _, kk, fd, fi, _ = T.calls[0]
        h.eq('as many neighbours as asked for', kk, k)
        val, nn, mx = res['h'], res['n_neighbors'], res['neighbor_max_dx']
        for a, t in ((val, 'density'), (nn, 'neighbours'), (mx, 'distance')): h.shape(f'one {t} per prediction point', a, (m,))
        p = h.idx(m, 'pt'); j = h.idx(k)
        used = (lambda q: S(fd(p.e, q)) < lim) if limited else (lambda q: S(z3.BoolVal(True)))
        far = at(mx, p)
        h.prove('farthest: the distance of a neighbour, cut at the limit', (imp(S(fd(p.e, j.e)) > far, far == lim) if limited else S(fd(p.e, j.e)) <= far))
        if limited: h.prove('farthest: not beyond the limit', far <= lim)
        bound = h.real('bound')
        C.add_templ(fd, lambda t: [z3.Implies(z3.And(t.arg(0) == p.e, t.arg(1) >= 0, t.arg(1) < k.e), t <= bound.e)])
        h.prove('farthest: the least bound of the distances, cut at the limit', far <= bound)
        cnt = S(mk_sum(lambda q: ite(used(q), S(z3.IntVal(1)), S(z3.IntVal(0))).e, k.e, I))
        h.eq('neighbours used', at(nn, p), cnt)
        kv = (lambda q: kernel_value(kind, fd(p.e, q)))
        if kind:
            ks = S(mk_sum(lambda q: ite(used(q), kv(q), 0.).e, k.e, R))
            h.assume(imp(cnt > 0, ks != 0))
            cr = S(z3.ToReal(cnt.e))
            if CTX.branch(cnt.e == 0): want = S(z3.RealVal(0)) / V(d, far)
            else: want = S(mk_sum(lambda q: ite(used(q), wt(fi(p.e, q)) * (kv(q) * (cr / ks)), 0.).e, k.e, R)) / V(d, far)
        else: want = S(mk_sum(lambda q: ite(used(q), wt(fi(p.e, q)), 0.).e, k.e, R)) / V(d, far)
        h.eq('weight of the neighbours per volume', at(val, p), want)
        untouched(h, X, xp, w, snaps)


knn('plain', 2, False, 'none', False)
knn('one-dimensional, weights, distance limit', 1, True, 'none', True)
knn('kernel width', 1, False, 'number', False)
knn('gaussian kernel, weights, distance limit', 2, True, 'gaussian', True)
knn('default gaussian kernel', 1, False, 'default gaussian', True)
knn('top-hat kernel', 2, True, 'tophat', False)
knn('top-hat kernel, distance limit', 2, True, 'tophat', True)
knn('kernel object', 1, False, 'instance', True)
