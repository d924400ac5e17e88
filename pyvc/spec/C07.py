"""Histograms and bin refinement (stats/binning.py)."""
from ..harness import *
from .. import arr as A
from ..arr import mk_sum
from . import C06 as c06
suite = Suite()
BN = 'stats.binning'


# ------------------------------------------------------------------ accumulation
def locate_contract(M, h):
    """any binning whose locate returns, per value, a number in [-1, n] (the cell of the value, see the cases below)"""
    nb = h.int('nb', lo=1)
    uf = z3.Function('cell', R, I)
    C.add_templ(uf, lambda t: [t >= -1, t <= nb.e])

    class AnyBins(M.Bins):
        n_bins = nb

        def locate(self, x):
            CTX.used_contracts.add(BN + ':Bins.locate')
            return A.elementwise(lambda v: S(uf(C.toreal(v))), [x], 'i8')
    return AnyBins(), nb, lambda v: S(uf(C.toreal(v)))


def hits(fn, N, dt="f8"):
    return S(mk_sum(lambda i: fn(S(i)), C.lift(N), R if dt == "f8" else I))


for dt in ('f8', 'i8'):
    for weighted in (False, True):
        @suite.case(f'add (weights={weighted}, {dt})')
        def _(h, dt=dt, weighted=weighted):
            M = h.mod(BN)
            bins, nb, cell = locate_contract(M, h)
            d = M.BinnedData(bins, dtype=float if dt == 'f8' else int)
            h.shape('one content per bin', d.data, (nb,))
            k = h.idx(nb)
            h.eq('starts empty', at(d.data, k), 0)
            held = h.array('held', nb, dt); d.data[:] = held
            n = h.size('n'); x = h.array('x', n); w = h.array('w', n, dt)
            x0, w0 = x.snap(), w.snap()
            keep = d.data
            d.add(x, w) if weighted else d.add(x)
            K = C.toreal if dt == 'f8' else C.lift
            one = lambda i: z3.If(cell(at(x, i)).e == k.e, K(at(w, i)) if weighted else K(1), K(0))
            h.same_object('accumulates in place', keep, d.data)
            h.eq('each bin grows by what its samples bring', at(d.data, k), at(held, k) + hits(one, n, dt))
            h.unchanged('samples unchanged', x, x0); h.unchanged('weights unchanged', w, w0)
            # once more
            m = h.size('m'); y = h.array('y', m); v = h.array('v', m, dt)
            d.add(y, v) if weighted else d.add(y)
            two = lambda i: z3.If(cell(at(y, i)).e == k.e, K(at(v, i)) if weighted else K(1), K(0))
            h.eq('repeated additions accumulate', at(d.data, k), at(held, k) + hits(one, n, dt) + hits(two, m, dt))


for weighted in (False, True):
    @suite.case(f'add to vector-valued bins (weights={weighted})')
    def _(h, weighted=weighted):
        M = h.mod(BN)
        bins, nb, cell = locate_contract(M, h)
        q = h.int('q', lo=1)
        d = M.BinnedData(bins, shape=(q,))
        h.shape('one content per bin and component', d.data, (nb, q))
        k, c = h.idx(nb), h.idx(q)
        h.eq('starts empty', at(d.data, k, c), 0)
        n = h.size('n'); x = h.array('x', n); w = h.array('w', (n, q))
        d.add(x, w) if weighted else d.add(x)
        one = lambda i: C.toreal(S(z3.If(cell(at(x, i)).e == k.e, C.toreal(at(w, i, c)) if weighted else C.toreal(1), z3.RealVal(0))))
        h.eq('each bin grows by what its samples bring', at(d.data, k, c), hits(one, n))


@suite.case('weights of another length are refused')
def _(h):
    M = h.mod(BN)
    bins, nb, cell = locate_contract(M, h)
    d = M.BinnedData(bins)
    n, m = h.size('n'), h.size('m'); h.assume(n != m)
    h.raises('refused', AssertionError, lambda: d.add(h.array('x', n), h.array('w', m)))


@suite.case('default binning')
def _(h):
    d = h.mod(BN).BinnedData()
    h.eq('ten bins', d.bins.n_bins, 10); h.shape('ten contents', d.data, (10,)); h.eq('empty', at(d.data, h.idx(10)), 0.)


# the cells the samples go to
@suite.case('cells of equal-width bins')
def _(h):
    def get(h, s):
        m = h.size('m'); x = h.array('x', m); j = h.idx(m)
        return at(s.locate(x), j), at(x, j)
    c06.equal_case(h, get)


@suite.case('cells of explicit bins')
def _(h):
    s, raw, n = c06.explicit(h)
    e = s.x_edges
    m = h.size('m'); x = h.array('x', m); j = h.idx(m)
    i = at(s.locate(x), j); v = at(x, j)
    h.hint(i.e, (i + 1).e)
    c06.located(h, i, v, lambda t: at(e, t), n - 1)


# ------------------------------------------------------------------ refinement
def refined(h, sub, n):
    e = h.array('e', n)
    e0 = e.snap()
    r = h.mod(BN).Bin.insert_sub_bins_into_edges(e, sub)
    return e, e0, r


@suite.case('refining by one keeps the edges')
def _(h):
    n = h.size('n', lo=2)
    e, e0, r = refined(h, 1, n)
    h.shape('same count', r, (n,)); j = h.idx(n); h.eq('same edges', at(r, j), S(e0((j.e,))))


@suite.case('refining edges')
def _(h):
    n, sub = h.size('n', lo=2), h.int('sub', lo=2)
    e, e0, r = refined(h, sub, n)
    h.shape('sub-bins of every bin', r, ((n - 1) * sub + 1,))
    k, t = h.idx(n - 1), h.idx(sub)
    p = h.int('p'); h.assume(p == k * sub + t)
    d, mo = p // sub, p % sub
    z, pr = h.int('z'), h.int('pr'); h.assume(z == d - k); h.assume(pr == z * sub)
    h.derive('difference of multiples', [p == k * sub + t, pr == z * sub, z == d - k, p == d * sub + mo], pr == t - mo) if False else h.lemma('difference of multiples', pr == t - mo)
    h.lemma('same bin', z == 0)
    h.lemma('position in the bin', conj(d == k, mo == t))
    h.lemma('in range', conj(p >= 0, p < (n - 1) * sub))
    h.eq('equally spaced edges inside bin k', at(r, p), S(e0((k.e,))) + (S(e0(((k + 1).e,))) - S(e0((k.e,)))) * S(C.toreal(t)) / S(C.toreal(sub)))
    h.eq('last edge kept', at(r, (n - 1) * sub), S(e0(((n - 1).e,))))
    h.unchanged('input unchanged', e, e0)


@suite.case('refining edges keeps every original edge')
def _(h):
    n, sub = h.size('n', lo=2), h.int('sub', lo=2)
    e, e0, r = refined(h, sub, n)
    k = h.idx(n - 1)
    p = h.int('p'); h.assume(p == k * sub)
    h.lemma('same bin', conj(p // sub == k, p % sub == 0))
    h.lemma('in range', conj(p >= 0, p < (n - 1) * sub))
    h.eq('edge k is at position k sub', at(r, p), S(e0((k.e,))))


for sub in (2, 3, 5):
    @suite.case(f'refining edges by {sub}')
    def _(h, sub=sub):
        n = h.size('n', lo=2)
        e, e0, r = refined(h, sub, n)
        h.shape('sub-bins of every bin', r, ((n - 1) * sub + 1,))
        k = h.idx(n - 1)
        for t in range(sub):
            h.eq(f'edge {t} of bin k', at(r, k * sub + t), S(e0((k.e,))) + (S(e0(((k + 1).e,))) - S(e0((k.e,)))) * C.Fraction(t, sub))
        h.eq('last edge kept', at(r, (n - 1) * sub), S(e0(((n - 1).e,))))


@suite.case('sub-bin specifications: a bin count')
def _(h):
    n, sub, lo, hi = h.int('n', lo=1), h.int('sub', lo=1), h.real('lo'), h.real('hi')
    B_ = h.mod(BN).Bin
    b2, s2, (a, c) = B_.parse_sub_bin_spec(n, sub, (lo, hi))
    h.eq('refined count', b2, n * sub); h.eq('factor', s2, sub); h.eq('lo', a, lo); h.eq('hi', c, hi)
    h.raises('no range is refused', AssertionError, lambda: B_.parse_sub_bin_spec(n, sub))
    z = h.int('z', hi=0)
    h.raises('a factor below one is refused', AssertionError, lambda: B_.parse_sub_bin_spec(n, z, (lo, hi)))


@suite.case('sub-bin specifications: edges')
def _(h):
    n = h.size('n', lo=2)
    e = h.array('e', n)
    B_ = h.mod(BN).Bin
    B_.insert_sub_bins_into_edges = staticmethod(lambda x, s: (CTX.used_contracts.add(BN + ':Bin.insert_sub_bins_into_edges'), calls.append((x, s)), out)[2])
    calls = []; m = h.size('m', lo=2); out = h.array('out', m)
    sub = h.int('sub', lo=1)
    r, s2, (a, c) = B_.parse_sub_bin_spec(e, sub)
    h.same_object('refined edges', r, out); h.eq('factor', s2, sub); h.eq('lo', a, at(out, 0)); h.eq('hi', c, at(out, m - 1))
    h.same_object('of the edges given', calls[0][0], e); h.eq('by the factor given', calls[0][1], sub)
    h.raises('a range is refused', AssertionError, lambda: B_.parse_sub_bin_spec(e, sub, (0., 1.)))


# ------------------------------------------------------------------ sliding combinations
@suite.case('centers and widths over a stride')
def _(h):
    n, st = h.size('n', lo=2), h.int('st', lo=1)
    h.assume(st < n)
    e = h.array('e', n); e0 = e.snap()
    B_ = h.mod(BN).Bin
    c, w = B_.edges_to_centers(e, st), B_.edges_to_widths(e, st)
    h.shape('one center per window', c, (n - st,)); h.shape('one width per window', w, (n - st,))
    j = h.idx(n - st)
    h.eq('center midway', at(c, j), (S(e0((j.e,))) + S(e0(((j + st).e,)))) / 2)
    h.eq('width', at(w, j), S(e0(((j + st).e,))) - S(e0((j.e,))))
    h.unchanged('edges unchanged', e, e0)
    c, w = B_.edges_to_centers(e), B_.edges_to_widths(e)
    k = h.idx(n - 1)
    h.shape('default stride', c, (n - 1,)); h.eq('center of a bin', at(c, k), (at(e, k) + at(e, k + 1)) / 2); h.eq('width of a bin', at(w, k), at(e, k + 1) - at(e, k))


for dt in ('f8', 'i8'):
    for nd in (1, 2):
        @suite.case(f'combining adjacent bins ({dt}, {nd}-d)')
        def _(h, dt=dt, nd=nd):
            n, c = h.size('n', lo=1), h.int('c', lo=1)
            h.assume(c <= n)
            q = h.size('q')
            x = h.array('x', (n,) if nd == 1 else (n, q), dt); x0 = x.snap()
            r = h.mod(BN).Bin.combine_adjacent_bins(x, c)
            h.shape('one sum per starting bin', r, (n - c + 1,) if nd == 1 else (n - c + 1, q))
            j = h.idx(n - c + 1); tail = (h.idx(q).e,) if nd == 2 else ()
            want = S(mk_sum(lambda t: x0((z3.simplify(j.e + t),) + tail), c.e, R if dt == 'f8' else I))
            h.eq('sum of the consecutive contents', at(r, j, *map(S, tail)), want)
            h.unchanged('contents unchanged', x, x0); h.independent('new array', r, x)


def combine_contract(x, c):
    CTX.used_contracts.add(BN + ':Bin.combine_adjacent_bins')
    CTX.side('at least one bin is combined, not more than there are', b(conj(c >= 1, c <= x.shape[0])))
    f = x.snap()
    return A.new_arr((A.dim(x.shape[0] - c + 1),), x.dt, lambda ix: mk_sum(lambda t: f((z3.simplify(ix[0] + t),)), C.lift(c), R if x.k == 'r' else I))


@suite.case('impossible combinations are refused')
def _(h):
    n, c = h.size('n'), h.int('c')
    h.assume(disj(c < 1, c > n))
    h.raises('refused', AssertionError, lambda: h.mod(BN).Bin.combine_adjacent_bins(h.array('x', n), c))


for weighted in (False, True):
    @suite.case(f'overlapped histogram (weights={weighted})')
    def _(h, weighted=weighted):
        n, nb, sub = h.size('n'), h.int('nb', lo=1), h.int('sub', lo=1)
        lo, hi = h.real('lo'), h.real('hi'); h.assume(lo < hi); h.assume(sub <= nb)
        x, w = h.array('x', n), h.array('w', n)
        x0, w0 = x.snap(), w.snap()
        h.mod(BN).Bin.combine_adjacent_bins = staticmethod(combine_contract)
        d = h.mod(BN).Hist1D.from_overlapped_bins(x, nb, sub, (lo, hi), w) if weighted else h.mod(BN).Hist1D.from_overlapped_bins(x, nb, sub, (lo, hi))
        e, hs = d['sub_e'], d['sub_h']
        h.shape('refined edges', e, (nb + 1,)); h.shape('refined contents', hs, (nb,))
        m = nb - sub + 1
        for k in ('x', 'dx', 'h'): h.shape(k + ': one per starting bin', d[k], (m,))
        j, k = h.idx(m), h.idx(nb)
        ed = lambda t: lo + (hi - lo) * S(C.toreal(t)) / S(C.toreal(nb))
        t = h.idx(nb + 1)
        h.eq('refined edges equally spaced', at(e, t), ed(t))
        h.eq('center', at(d['x'], j), (at(e, j) + at(e, j + sub)) / 2)
        h.eq('width', at(d['dx'], j), at(e, j + sub) - at(e, j))
        cond = lambda i: conj(ed(k) <= at(x, i), disj(at(x, i) < ed(k + 1), conj(k == nb - 1, at(x, i) == hi)))
        one = lambda i: z3.If(b(cond(S(i))), at(w, S(i)).e if weighted else z3.IntVal(1), z3.RealVal(0) if weighted else z3.IntVal(0))
        h.lemma('last edge', ed(nb) == hi)
        h.eq('refined contents', at(hs, k), S(mk_sum(one, n.e, R if weighted else I)))
        want = S(mk_sum(lambda t: hs.at(z3.simplify(j.e + t)), sub.e, R if weighted else I))
        h.eq('sliding sums', at(d['h'], j), want)
        h.unchanged('samples unchanged', x, x0); h.unchanged('weights unchanged', w, w0)



# ------------------------------------------------------------------ range specifications
@suite.case('range: explicit only, without data')
def _(h):
    P = h.mod(BN).Bin.parse_p_range_spec
    lo, hi = h.real('lo'), h.real('hi')
    a, c = P(None, (lo, hi))
    h.eq('lo', a, lo); h.eq('hi', c, hi)
    h.raises('nothing given', AssertionError, lambda: P())
    h.raises('quantiles need data', AssertionError, lambda: P(None, (lo, hi), (0., 1.)))


for rng in (False, True):
    for pr in (False, True):
        @suite.case(f'range of data: explicit={rng}, quantiles={pr}')
        def _(h, rng=rng, pr=pr):
            M = h.mod(BN)
            n = h.size('n', lo=1)
            x = h.array('x', n); x0 = x.snap()
            lo, hi, p0, p1 = h.real('lo'), h.real('hi'), h.real('p0', lo=0, hi=1), h.real('p1', lo=0, hi=1)
            kw = {}
            if rng: kw['range'] = (lo, hi)
            if pr: kw['p_range'] = (p0, p1)
            a, c = M.Bin.parse_p_range_spec(x, **kw)
            q = lambda p: M.np.quantile(x, p)
            if rng and pr:
                h.eq('larger lower end', a, ite(lo >= q(p0), lo, q(p0))); h.eq('smaller upper end', c, ite(hi <= q(p1), hi, q(p1)))
            elif rng:
                h.eq('lower end', a, lo); h.eq('upper end', c, hi)
            elif pr:
                h.eq('lower quantile', a, q(p0)); h.eq('upper quantile', c, q(p1))
            else:
                j = h.idx(n)
                h.prove('all data inside', conj(S(C.lift(a)) <= at(x, j), at(x, j) <= S(C.lift(c))))
                h.eq('minimum', a, x.min()); h.eq('maximum', c, x.max())
            h.unchanged('data unchanged', x, x0)
