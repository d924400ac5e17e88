"""C17: local regression (stats/regression.py, stats/kernel.py).

sklearn.neighbors.KDTree is an assumed contract: query gives k neighbours per point (indices into the training set, distances >= 0),
query_radius one run of neighbours per point, of any length; both depend on the training points, the query and its settings only.
Each requested reduction is checked at its call (callee contract): what it receives is exactly the selected neighbours."""
from ..harness import *
from .. import arr as A, loops as L, npm, ghost as G
from ..ghost import Name, NameS
from ..arr import mk_sum, dz, dim
suite = Suite()
RG, KN, RD = 'stats.regression', 'stats.kernel', 'stats.reduction'
TREES, MEMO = [], []


def equal_arrays(a, c):
    if a.ndim != c.ndim or a.k != c.k: return False
    if not all(CTX.known(dz(x) == dz(y)) for x, y in zip(a._shape, c._shape)): return False
    js = [z3.Int(CTX.fresh_name('cmp')) for _ in a._shape]
    return CTX.holds(z3.Implies(z3.And(*[z3.And(j >= 0, j < dz(d)) for j, d in zip(js, a._shape)]), a.at(*js) == c.at(*js)))


class KDTree:
    def __init__(self, X, **kw):
        npm.trust('sklearn KDTree.query / query_radius: neighbours of each query point (indices into the training set), their distances')
        X = A.asarr(X)
        if X.ndim != 2: raise ValueError('Expected 2D array')
        self.X, self.kw = X.copy(), kw
        TREES.append(self)
        self.calls = []

    def found(self, kind, x, arg, make):
        for X, kw, kd, x_, a_, r in MEMO:
            if kd == kind and kw == self.kw and (a_ is arg or CTX.known(C.toreal(S(C.lift(a_))) == C.toreal(S(C.lift(arg))))) \
                    and equal_arrays(X, self.X) and equal_arrays(x_, x): return r
        r = make()
        MEMO.append((self.X, self.kw, kind, x.copy(), arg, r))
        return r

    def query(self, x, k=1, return_distance=True, dualtree=False, breadth_first=False, sort_results=True):
        x = A.asarr(x)
        n, m = dz(self.X._shape[0]), dz(x._shape[0])
        CTX.side('no more neighbours than training points', C.toint(S(C.lift(k))) <= n)
        def make():
            fd, fi = z3.Function(CTX.fresh_name('dist'), I, I, R), z3.Function(CTX.fresh_name('ngb'), I, I, I)
            C.add_templ(fd, lambda t: [t >= 0])
            C.add_templ(fi, lambda t: [z3.Implies(n > 0, z3.And(t >= 0, t < n))])
            return fd, fi
        fd, fi = self.found('knn', x, k, make)
        self.calls.append(('knn', x.copy(), k, fd, fi, dict(return_distance=return_distance, sort_results=sort_results)))
        sh = (x._shape[0], dim(S(C.lift(k))))
        ids = A.new_arr(sh, 'i8', lambda ix: fi(*ix))
        return (A.new_arr(sh, 'f8', lambda ix: fd(*ix)), ids) if return_distance else ids

    def query_radius(self, x, r, return_distance=False, count_only=False, sort_results=False):
        if count_only: raise Unsupported('count_only')
        x = A.asarr(x)
        n, m = dz(self.X._shape[0]), dz(x._shape[0])
        def make():
            cnt, fd, fi = z3.Function(CTX.fresh_name('cnt'), I, I), z3.Function(CTX.fresh_name('dist'), I, I, R), z3.Function(CTX.fresh_name('ngb'), I, I, I)
            C.add_templ(cnt, lambda t: [t >= 0, t <= n])
            C.add_templ(fd, lambda t: [t >= 0])
            C.add_templ(fi, lambda t: [z3.Implies(z3.And(t.arg(1) >= 0, t.arg(1) < cnt(t.arg(0))), z3.And(t >= 0, t < n))])
            return cnt, fd, fi
        cnt, fd, fi = self.found('radius', x, r, make)
        self.calls.append(('radius', x.copy(), r, fd, fi, dict(return_distance=return_distance), cnt))
        i = CTX.index_var('pt')
        ids = L.MList([L.Seg(dim(S(m)), i, A.new_arr((cnt(i),), 'i8', lambda ix: fi(i, ix[0])))])
        ds = L.MList([L.Seg(dim(S(m)), i, A.new_arr((cnt(i),), 'f8', lambda ix: fd(i, ix[0])))])
        return (ids, ds) if return_distance else ids


def models():
    TREES.clear(); MEMO.clear()
    sk = LD.Stub('sklearn.neighbors')
    sk.__dict__['KDTree'] = sk.__dict__['BallTree'] = KDTree
    top = LD.Stub('sklearn'); top.__dict__['neighbors'] = sk
    return {'sklearn': top, 'sklearn.neighbors': sk}


def same(v, w):
    v, w = A.asarr(v), A.asarr(w)
    if v.ndim != w.ndim: return z3.BoolVal(False)
    js = [z3.Int(CTX.fresh_name('gx')) for _ in w._shape]
    rng = z3.And(*[z3.And(j >= 0, j < dz(d)) for j, d in zip(js, w._shape)])
    a, c = v.at(*js), w.at(*js)
    if a.sort() != c.sort(): a, c = C.toreal(S(a)), C.toreal(S(c))
    return z3.And(*[dz(x) == dz(y) for x, y in zip(v._shape, w._shape)], z3.Implies(rng, a == c))


def reductions(h, check, vec=False):
    """any list of reduction instances; each call is checked, its result left open: red(which, point)"""
    base = h.mod(RD).Reduce
    red = z3.Function('reduced', *[I] * (3 if vec else 2), R)
    key = z3.Function('key', I, NameS)
    kplace = z3.Function('key_place', NameS, I)
    C.add_templ(key, lambda t: [kplace(t) == t.arg(0), z3.Not(G.slashF(t))])

    class Red(base):
        def __init__(self, ix): self.ix = ix
        key = property(lambda self: Name(keyf(self.ix)))
        def __pv_subst__(self, i, e): return Red(z3.substitute(self.ix, (i, e)))

        def __call__(self, x, weight=None, mask=None):
            CTX.used_contracts.add(RD + ':Reduce.__call__')
            x = A.asarr(x)
            check(x, weight, mask)
            ix = self.ix
            if x.ndim == 2:
                return A.new_arr((x._shape[0],) + ((3,) if vec else ()), 'f8', lambda t: red(ix, *t))
            if not CTX.loop_stack: raise Unsupported('reduction of one row outside the loop over the points')
            pt = CTX.loop_stack[0].i
            return A.new_arr((3,) if vec else (), 'f8', lambda t: red(ix, pt, *t))
    keyf = key
    n = h.size('n_reductions')
    i = CTX.index_var('rd')
    return n, key, red, L.MList([L.Seg(n.e, i, Red(i))]), Red


def training(h, nd, weighted):
    n, m = h.size('n', lo=1), h.size('m')
    d = h.size('d', lo=1)
    sh = (lambda a: (a,)) if nd == 1 else (lambda a: (a, d))
    X, y, xp = h.array('X', sh(n)), h.array('y', (n,)), h.array('xp', sh(m))
    w = h.array('w', (n,)) if weighted else None
    return n, m, d, X, y, xp, w


KERNELS = {
    'none': (lambda M, K, h: (None, None)),
    'number': (lambda M, K, h: (lambda s: (s, ('gaussian', s)))(h.real('sigma', gt=0))),
    'gaussian': (lambda M, K, h: (lambda s: (('gaussian', {'sigma': s}), ('gaussian', s)))(h.real('sigma', gt=0))),
    'default gaussian': (lambda M, K, h: ('gaussian', ('gaussian', S(z3.RealVal(1))))),
    'tophat': (lambda M, K, h: (lambda s: (('tophat', {'radius': s}), ('tophat', s)))(h.real('radius'))),
    'default tophat': (lambda M, K, h: ('tophat', ('tophat', S(z3.RealVal(1))))),
    'instance': (lambda M, K, h: (lambda s: (K.Tophat(s), ('tophat', s)))(h.real('radius'))),
}


def kernel_value(kind, d):
    if kind is None: return S(z3.RealVal(1))
    t, s = kind
    d = S(d)
    if t == 'gaussian': return C.m_exp(S(z3.RealVal('-1/2')) * (d * d) / (s * s))
    return ite(d < s, 1., 0.)


class OnceIter:
    def __init__(self, seq): self.seq, self.used = seq, False
    def __pv_symiter__(self):
        CTX.side('an iterator is read once', z3.BoolVal(not self.used and CTX.loop_depth == 0))
        self.used = True
        return L.as_iter(self.seq)
    def __pv_isinstance__(self, t): return None


def two(x):
    """the points as columns"""
    return x if x.ndim == 2 else A.new_arr((x._shape[0], 1), 'f8', lambda ix: x.at(ix[0]))


def common(h, T, X, xp, xp0, y, y0, X0, out, n, m, key, red, w, w0):
    h.prove('one tree, one query', z3.BoolVal(len(TREES) == 1 and len(T.calls) == 1))
    h.eqarr('tree on the training points', T.X, two(X))
    h.eqarr('query at the prediction points', T.calls[0][1], two(xp))
    for nm, a, s in (('prediction points', xp, xp0), ('training values', y, y0), ('training points', X, X0)) + ((('weights', w, w0),) if w is not None else ()):
        h.unchanged(nm + ' untouched', a, s)


def result(h, out, nr, key, red, m, xp, vec=False):
    tl = (3,) if vec else ()
    q = [h.idx(S(z3.IntVal(3)), 'comp')] if vec else []
    r = h.idx(nr, 'r')
    i = h.idx(m, 'pt')
    ys = out['y']
    h.eq('one result per reduction', h.ld.bi['len'](ys), nr)
    if CTX.branch(nr.e > 0):
        yr = A.asarr(ys[r])
        h.shape('one value per point', yr, (m,) + tl)
        h.eq('in the order of the reductions and points', at(yr, i, *q), S(red(r.e, i.e, *[x.e for x in q])))
        k = G.cat(['y_', Name(key(r.e))]).e
        d = out._dict
        h.prove('reported under its name', d.has(k))
        for cond, v in d.alternatives(k):
            n0 = CTX.push(); CTX.assume(cond, True)
            if CTX.feasible(z3.BoolVal(True)):
                if not isinstance(v, A.SArr): v = A.asarr(v() if callable(v) else v)
                h.shape('under its name: one value per point', v, (m,) + tl)
                h.eq('under its name', at(v, i, *q), S(red(r.e, i.e, *[x.e for x in q])))
            CTX.pop(n0)
    h.eqarr('the prediction points are reported', A.asarr(out['x']), two(xp))


def names(h, key):
    """names of results: y_<name>, different from x and y"""
    probe = G.cat(['y_', Name(z3.Const('probe', NameS))]).e
    lx, ly = G.literal('x'), G.literal('y')
    C.add_templ(probe.decl(), lambda t: [t != lx, t != ly])


def knn(name, nd, weighted, kern, limited, once=False, entry='by_knn', vec=False):
    @suite.case(f'nearest neighbours: {name}', models=models, deadline=240)
    def _(h):
        M, K = h.mod(RG), h.mod(KN)
        names(h, None)
        n, m, d, X, y, xp, w = training(h, nd, weighted)
        X0, y0, xp0, w0 = X.snap(), y.snap(), xp.snap(), w.snap() if weighted else None
        k = h.size('k', lo=1); h.assume(k <= n)
        lim = h.real('max_dx') if limited else None
        spec, kind = KERNELS[kern](M, K, h)

        def check(x, weight, mask):
            fd, fi = TREES[0].calls[0][3:5]
            kk = dim(k)
            sh = (dim(m), kk)
            CTX.side('the values of the neighbours', same(x, A.new_arr(sh, 'f8', lambda ix: y0((fi(*ix),)))))
            if weight is None: CTX.side('weights as given', z3.BoolVal(not weighted and kind is None))
            else:
                CTX.side('weights: training weight times kernel at the distance',
                         same(weight, A.new_arr(sh, 'f8', lambda ix: C.toreal((S(w0((fi(*ix),))) if weighted else S(z3.RealVal(1))) * kernel_value(kind, fd(*ix))))))
            if mask is None: CTX.side('distance limit', z3.BoolVal(not limited))
            else: CTX.side('neighbours beyond the limit are ignored', same(mask, A.new_arr(sh, 'b1', lambda ix: (fd(*ix) < lim.e) if limited else z3.BoolVal(True))))
        nr, key, red, rs, Red = reductions(h, check, vec)
        CTX.ghost_dicts = True
        if entry == 'by_knn':
            out = M.KernelRegressionND.by_knn(X, y, xp, k=k, max_dx=lim, reduce=OnceIter(rs) if once else rs, kernel=spec, weight=w,
                                             **(dict(impl_kw={'leaf_size': 7}, impl_query_kw={'dualtree': False}) if weighted else {}))
        else:
            out = M.KernelRegression1D.by_knn(X, y, xp, k=k, max_dx=lim, reduce=OnceIter(rs) if once else rs, kernel=spec, weight=w)
        T = TREES[0]
        common(h, T, X, xp, xp0, y, y0, X0, out, n, m, key, red, w, w0)
        h.eq('as many neighbours as asked for', T.calls[0][2], k)
        result(h, out, nr, key, red, m, xp, vec)


knn('plain', 2, False, 'none', False)
knn('one-dimensional, weights, distance limit', 1, True, 'none', True)
knn('kernel width', 1, False, 'number', False, entry='1D')
knn('gaussian kernel, weights, distance limit', 2, True, 'gaussian', True)
knn('default gaussian kernel', 1, False, 'default gaussian', True)
knn('top-hat kernel', 2, True, 'tophat', False)
knn('default top-hat kernel', 2, True, 'default tophat', False)
knn('kernel object, reductions from an iterator', 1, False, 'instance', True, once=True)


def radius(name, nd, weighted, kern, given, once=False, vec=False):
    @suite.case(f'fixed radius: {name}', models=models, deadline=240)
    def _(h):
        M, K = h.mod(RG), h.mod(KN)
        names(h, None)
        n, m, d, X, y, xp, w = training(h, nd, weighted)
        X0, y0, xp0, w0 = X.snap(), y.snap(), xp.snap(), w.snap() if weighted else None
        lim = h.real('max_dx') if given else None
        spec, kind = KERNELS[kern](M, K, h)

        def check(x, weight, mask):
            fd, fi = TREES[0].calls[0][3:5]
            cnt = TREES[0].calls[0][6]
            i = CTX.loop_stack[0].i
            sh = (cnt(i),)
            CTX.side('the values of the neighbours of this point', same(x, A.new_arr(sh, 'f8', lambda ix: y0((fi(i, ix[0]),)))))
            if weight is None: CTX.side('weights as given', z3.BoolVal(not weighted and kind is None))
            else:
                CTX.side('weights: training weight times kernel at the distance',
                         same(weight, A.new_arr(sh, 'f8', lambda ix: C.toreal((S(w0((fi(i, ix[0]),))) if weighted else S(z3.RealVal(1))) * kernel_value(kind, fd(i, ix[0]))))))
            CTX.side('no neighbour within the radius is ignored', z3.BoolVal(mask is None))
        nr, key, red, rs, Red = reductions(h, check, vec)
        CTX.ghost_dicts = True
        out = M.KernelRegressionND.by_local_kernel(X, y, xp, max_dx=lim, reduce=OnceIter(rs) if once else rs, kernel=spec, weight=w)
        T = TREES[0]
        common(h, T, X, xp, xp0, y, y0, X0, out, n, m, key, red, w, w0)
        if given: h.eq('the given radius', T.calls[0][2], lim)
        else:
            x2 = two(xp); dd = x2._shape[1]
            mf = S(z3.ToReal(m.e)); df = S(z3.ToReal(dz(dd)))
            mu = lambda c: S(mk_sum(lambda i: x2.at(i, c), m.e, R)) / mf
            sd = lambda c: C.m_sqrt(S(mk_sum(lambda i: ((S(x2.at(i, c)) - mu(c)) * (S(x2.at(i, c)) - mu(c))).e, m.e, R)) / mf)
            want = (S(mk_sum(lambda c: sd(c).e, dz(dd), R)) / df if nd == 2 else sd(z3.IntVal(0))) / 10
            h.eq('a tenth of the mean deviation', T.calls[0][2], want)
        result(h, out, nr, key, red, m, xp, vec)


radius('plain', 2, False, 'none', True)
radius('one-dimensional, weights', 1, True, 'none', True)
radius('kernel width', 1, False, 'number', True)
radius('gaussian kernel, weights', 2, True, 'gaussian', True)
radius('top-hat kernel, weights', 2, True, 'tophat', True)
radius('kernel object, reductions from an iterator', 1, False, 'instance', True, once=True)
radius('radius from the spread of the prediction points', 1, False, 'none', False)
radius('radius from the spread of the prediction points (several axes)', 2, False, 'none', False)
radius('vector reductions', 2, True, 'none', True, vec=True)
knn('vector reductions', 2, True, 'none', True, vec=True)


@suite.case('reduction requests: names, objects, keywords, lists')
def _(h):
    m = h.mod(RD)
    P = m.predefined
    one = m.Sum()
    table = [('mean', 'mean', m.Mean), ('count', 'count', m.Count), ('cnt', 'cnt', m.Count), ('sum', 'sum', m.Sum), ('std_dev', 'std_dev', m.StdDev),
             ('std', 'std', m.StdDev), ('sd', 'sd', m.StdDev), ('quantile', 'quantile', m.Quantile), ('qs', 'qs', m.Quantile), ('median', 'median', m.Median),
             ('errorbar', 'errorbar', m.Errorbar), (one, 'sum', None), (('mean', {'empty_fill': 3.}), 'mean', m.Mean), (('median', {'sort': False}), 'median', m.Median),
             (('errorbar', {'reduce': 'mean+sd'}), 'errorbar', m.Errorbar)]
    for spec, nm, cls in table:
        for got in (list(P.iter(spec)), list(P.iter([spec])), list(P.iter(iter([spec])))):
            h.prove('one reduction', len(got) == 1 and got[0][0] == nm)
            h.prove('of the named kind', got[0][1] is spec if cls is None else type(got[0][1]) is cls)
    got = list(P.iter([s for s, _, _ in table]))
    h.prove('a list in order', [n for n, _ in got] == [n for _, n, _ in table])
    h.eq('keywords are passed on', P.create(('mean', {'empty_fill': 3.}))[1].empty_fill, S(z3.RealVal(3)))
    h.prove('keywords are passed on', P.create(('median', {'sort': False}))[1].sort is False and P.create(('errorbar', {'reduce': 'mean+sd'}))[1].reduce == 'mean+sd')
    h.raises('unknown names are refused', KeyError, lambda: list(P.iter('no_such')))


for rank in (0, 1, 2):
    @suite.case(f'kernel values, rank {rank}')
    def _(h, rank=rank):
        K = h.mod(KN)
        sh = tuple(h.size(f'n{i}') for i in range(rank))
        d = h.array('d', sh) if rank else h.real('d')
        d0 = d.snap() if rank else None
        s = h.real('s'); h.assume(s != 0)
        ix = [h.idx(k) for k in sh]
        v = at(d, *ix) if rank else d
        for nm, ker, kind in (('gaussian', K.Gaussian(s), ('gaussian', s)), ('gaussian by default', K.Gaussian(), ('gaussian', S(z3.RealVal(1)))),
                              ('top-hat', K.Tophat(s), ('tophat', s)), ('top-hat by default', K.Tophat(), ('tophat', S(z3.RealVal(1))))):
            y = A.asarr(ker(d))
            h.shape(f'{nm}: one value per distance', y, sh)
            h.prove(f'{nm}: real numbers', z3.BoolVal(y.k == 'r'))
            h.eq(nm, at(y, *ix), kernel_value(kind, C.lift(v)))
        if rank: h.unchanged('distances untouched', d, d0)


class Masked:
    def __init__(self, data, mask=None): self.data, self.mask = A.asarr(data), mask


def masked(name, weighted, kern, limited, min_count):
    @suite.case(f'masked fraction: {name}', models=models, deadline=240)
    def _(h):
        h.ld.models['numpy'].ma.array = h.ld.models['numpy'].ma.masked_array = Masked
        M, K = h.mod(RG), h.mod(KN)
        n, m = h.size('n', lo=1), h.size('m')
        X, xp = h.array('X', (n, 2)), h.array('xp', (m, 2))
        mk = h.array('mask', (n,), 'b1')
        w = h.array('w', (n,)) if weighted else None
        if weighted: h.assume_all(w, lambda v, *i: v >= 0)
        X0, xp0, mk0, w0 = X.snap(), xp.snap(), mk.snap(), w.snap() if weighted else None
        k = h.size('k', lo=1); h.assume(k <= n)
        lim = h.real('max_dx') if limited else None
        mc = h.int('min_count') if min_count else None
        spec, kind = KERNELS[kern](M, K, h)
        res = M.KernelRegressionND.masked_fraction_by_knn(X, mk, xp, k=k, max_dx=lim, kernel=spec, weight=w, **({'min_count': mc} if min_count else {}))
        if not min_count: mc = S(z3.IntVal(10))
        h.prove('the same neighbours for both sums', z3.BoolVal(len(MEMO) == 1))
        fd, fi = MEMO[0][5]
        i = h.idx(m, 'pt')
        use = lambda j: (S(fd(i.e, C.lift(j))) < lim) if limited else TRUE
        wt = lambda j: (S(w0((fi(i.e, j),))) if weighted else S(z3.RealVal(1))) * kernel_value(kind, fd(i.e, j))
        tot = S(mk_sum(lambda j: ite(use(j), wt(j), 0.).e, k.e, R))
        msk = S(mk_sum(lambda j: ite(conj(use(j), S(mk0((fi(i.e, j),)))), wt(j), 0.).e, k.e, R))
        cnt = S(mk_sum(lambda j: ite(use(j), S(z3.IntVal(1)), S(z3.IntVal(0))).e, k.e, I))
        f = at(res.values, i)
        h.shape('one value per point', res.values, (m,))
        j = h.idx(k)
        h.lemma('summands', conj(wt(j.e) >= 0))
        h.eq('share of masked neighbours', f, msk / ite(tot < S(z3.RealVal('1e-10')), S(z3.RealVal('1e-10')), tot))
        one = lambda sel: lambda j: ite(conj(use(j), sel(S(mk0((fi(i.e, C.lift(j)),))))), wt(C.lift(j)), 0.)
        h.sum_linear('masked and other weight make up the total', [one(lambda v: v), one(lambda v: ~v)], lambda j: ite(use(C.lift(j)), wt(C.lift(j)), 0.), [k], R)
        rest = S(mk_sum(lambda j: one(lambda v: ~v)(j).e, k.e, R))
        h.lemma('other weight', rest >= 0)
        h.lemma('masked weight', conj(msk >= 0, msk <= tot))
        h.prove('between zero and one', conj(f >= 0, f <= 1))
        h.prove('invalid where too few neighbours were found', iff(S(A.asarr(res.invalid).at(i.e)), cnt < mc))
        h.eqarr('the same values, masked', res.values_ma.data, res.values)
        h.prove('masked where invalid', iff(S(A.asarr(res.values_ma.mask).at(i.e)), cnt < mc))
        for nm, a, s in (('mask', mk, mk0), ('points', X, X0), ('prediction points', xp, xp0)) + ((('weights', w, w0),) if weighted else ()):
            h.unchanged(nm + ' untouched', a, s)


masked('plain', False, 'none', False, False)
masked('weights and distance limit', True, 'none', True, True)
masked('gaussian kernel, weights, distance limit', True, 'gaussian', True, True)
masked('top-hat kernel', False, 'tophat', False, True)
