"""Reductions (stats/reduction.py): definitions over the unmasked elements, row by row."""
from ..harness import *
from .. import arr as A
from ..arr import mk_sum
suite = Suite()
RD = 'stats.reduction'
COMBOS = [(w, m) for w in (False, True) for m in (False, True)]
FORMS = [('1-d', 1), ('2-d', 2)]


def sample(h, nd, w, m, dt='f8'):
    """x (and weights, mask) of any size, with readers of row r: X(i), W(i), M(i)"""
    n = h.size('n')
    shape = (n,) if nd == 1 else (h.size('rows', lo=1), n)
    x = h.array('x', shape, dt)
    wt = h.array('w', shape) if w else None
    mk = h.array('mask', shape, 'b1') if m else None
    if w: h.assume_all(wt, lambda v, *ix: v >= 0)
    row = () if nd == 1 else (h.idx(shape[0], 'row'),)
    xs, ws, ms = x.snap(), wt.snap() if w else None, mk.snap() if m else None
    ix = lambda i: tuple(C.lift(r) for r in row) + (i,)
    X = lambda i: C.toreal(S(xs(ix(i))))
    W = (lambda i: C.toreal(S(ws(ix(i))))) if w else (lambda i: z3.RealVal(1))
    M = (lambda i: C.tobool(S(ms(ix(i))))) if m else (lambda i: z3.BoolVal(True))

    def frame():
        h.unchanged('sample unchanged', x, xs)
        if w: h.unchanged('weights unchanged', wt, ws)
        if m: h.unchanged('mask unchanged', mk, ms)
    return x, wt, mk, n, row, X, W, M, frame


def total(n, M, f):
    return S(mk_sum(lambda i: z3.If(M(i), f(i), z3.RealVal(0)), C.lift(n), R))


def count(n, M):
    return S(mk_sum(lambda i: z3.If(M(i), z3.IntVal(1), z3.IntVal(0)), C.lift(n), I))


def rows(x): return tuple(x._shape[:-1])


for nd_name, nd in FORMS:
    for w, m in COMBOS:
        tag = f'({nd_name}, weights={w}, mask={m})'

        @suite.case('count ' + tag)
        def _(h, nd=nd, w=w, m=m):
            x, wt, mk, n, row, X, W, M, frame = sample(h, nd, w, m)
            r = h.mod(RD).Count()(x, wt, mk)
            h.shape('one number per row', r, rows(x))
            h.eq('number of unmasked elements, weights ignored', at(r, *row), count(n, M))
            frame()

        @suite.case('sum ' + tag)
        def _(h, nd=nd, w=w, m=m):
            x, wt, mk, n, row, X, W, M, frame = sample(h, nd, w, m)
            r = h.mod(RD).Sum()(x, wt, mk)
            h.shape('one number per row', r, rows(x))
            h.eq('weights enter linearly', at(r, *row), total(n, M, lambda i: X(i) * W(i)))
            frame()

        @suite.case('mean ' + tag)
        def _(h, nd=nd, w=w, m=m):
            x, wt, mk, n, row, X, W, M, frame = sample(h, nd, w, m)
            fill = h.real('fill')
            r = h.mod(RD).Mean(fill)(x, wt, mk)
            h.shape('one number per row', r, rows(x))
            wsum = total(n, M, W); some = count(n, M) >= 1
            h.assume(imp(some, wsum > 0))
            got = at(r, *row)
            h.prove('weighted mean of the unmasked elements', imp(some, got == total(n, M, lambda i: X(i) * W(i)) / wsum))
            h.prove('fill value when nothing is left', imp(count(n, M) < 1, got == fill))
            frame()

        @suite.case('standard deviation ' + tag)
        def _(h, nd=nd, w=w, m=m):
            x, wt, mk, n, row, X, W, M, frame = sample(h, nd, w, m)
            fill = h.real('fill')
            r = h.mod(RD).StdDev(fill)(x, wt, mk)
            h.shape('one number per row', r, rows(x))
            wsum = total(n, M, W); some = count(n, M) >= 1
            h.assume(imp(some, wsum > 0))
            got = at(r, *row)
            mu = total(n, M, lambda i: X(i) * W(i)) / wsum
            v = total(n, M, lambda i: (X(i) - mu.e) * (X(i) - mu.e) * W(i)) / wsum
            h.prove('root of the weighted mean squared deviation', imp(some, got == C.m_sqrt(v)))
            h.prove('fill value when nothing is left', imp(count(n, M) < 1, got == fill))
            frame()


# ------------------------------------------------------------------ quantiles
def left(row, x, wt, mk):
    """the unmasked elements (and weights) of one row"""
    xr, wr, mr = (None if a is None else a[tuple(row)] if row else a for a in (x, wt, mk))
    if mr is not None: xr = xr[mr]; wr = None if wr is None else wr[mr]
    return xr, wr


def wquantile(xr, wr, p, sort=True):
    """numpy.interp over the normalised cumulative weight of the sorted sample"""
    tot = npm.sum(wr)
    if sort:
        idx = npm.argsort(xr)
        xr, wr = xr[idx], wr[idx]
    return npm.interp(p, npm.cumsum(wr / tot), xr)


def expected(xr, wr, p, sort=True, unweighted=npm.quantile):
    return unweighted(xr, p) if wr is None else wquantile(xr, wr, p, sort)


def median_of(xr, p): return npm.median(xr)


def quantile_case(h, nd, w, m, make, p, unweighted=npm.quantile, sort=True, vec=None):
    x, wt, mk, n, row, X, W, M, frame = sample(h, nd, w, m)
    fill = h.real('fill')
    if w:
        wsum = total(n, M, W)
        pos = imp(count(n, M) >= 1, wsum > 0)
        h.assume(pos)
        if row: h.assume_rows(row[0], wsum, pos)
    r = make(h.mod(RD), fill)(x, wt, mk)
    h.shape('one result per row', r, rows(x) + (() if vec is None else (vec,)))
    xr, wr = left(row, x, wt, mk)
    k = count(n, M)
    ix, q = (row, p) if vec is None else (lambda c: (row + (c,), at(p, c)))(h.idx(vec))
    got = at(r, *ix)
    if CTX.branch(C.tobool(k >= 1)):
        h.eq('quantile of the unmasked elements', got, S(C.toreal(at(expected(xr, wr, q, sort, unweighted)))))
    else: h.eq('fill value when nothing is left', got, fill)
    frame()


for nd_name, nd in FORMS:
    for w, m in COMBOS:
        tag = f'({nd_name}, weights={w}, mask={m})'

        @suite.case('median ' + tag)
        def _(h, nd=nd, w=w, m=m):
            quantile_case(h, nd, w, m, lambda M, fill: M.Median(empty_fill=fill), S(C.lift(C.Fraction(1, 2))), median_of)

        @suite.case('one quantile ' + tag)
        def _(h, nd=nd, w=w, m=m):
            p = h.real('p', lo=0, hi=1)
            quantile_case(h, nd, w, m, lambda M, fill: M.Quantile(p, empty_fill=fill), p)

        @suite.case('several quantiles ' + tag)
        def _(h, nd=nd, w=w, m=m):
            q = h.size('q', lo=1); ps = h.array('ps', q); h.assume_all(ps, lambda v, *ix: conj(v >= 0, v <= 1))
            quantile_case(h, nd, w, m, lambda M, fill: M.Quantile(ps, empty_fill=fill), ps, vec=q)


# ------------------------------------------------------------------ error bars
LEVELS = {'median+1sigma': ('0.16', '0.5', '0.84'), 'median+2sigma': ('0.025', '0.5', '0.975'), 'median+3sigma': ('0.005', '0.5', '0.995')}


def lit(t): return S(C.lift(float(t)))


def errorbar_case(h, nd, w, m, how, sign=True):
    x, wt, mk, n, row, X, W, M, frame = sample(h, nd, w, m)
    fill = h.real('fill')
    wsum = total(n, M, W); k = count(n, M)
    pos = imp(k >= 1, wsum > 0)
    h.assume(pos)
    if row and w: h.assume_rows(row[0], wsum, pos)
    r = h.mod(RD).Errorbar(how, empty_fill=fill)(x, wt, mk)
    h.shape('center, lower and upper distance per row', r, rows(x) + (3,))
    c, lo, hi = (at(r, *row, i) for i in range(3))
    if how == 'mean+sd':
        mu = total(n, M, lambda i: X(i) * W(i)) / wsum
        v = total(n, M, lambda i: (X(i) - mu.e) * (X(i) - mu.e) * W(i)) / wsum
        h.prove('mean and standard deviation twice', imp(k >= 1, conj(c == mu, lo == C.m_sqrt(v), hi == C.m_sqrt(v))))
        h.prove('center is the fill value when nothing is left', imp(k < 1, c == fill))
    else:
        xr, wr = left(row, x, wt, mk)
        if CTX.branch(C.tobool(k >= 1)):
            q = [S(C.toreal(at(expected(xr, wr, lit(p))))) for p in LEVELS[how]]
            h.eq('center is the median', c, q[1]); h.eq('distance to the lower quantile', lo, q[1] - q[0]); h.eq('distance to the upper quantile', hi, q[2] - q[1])
        else: h.eq('center is the fill value when nothing is left', c, fill)
    frame()


for nd_name, nd in FORMS:
    for w, m in COMBOS:
        for how in ('mean+sd', *LEVELS):
            @suite.case(f'error bar {how} ({nd_name}, weights={w}, mask={m})')
            def _(h, nd=nd, w=w, m=m, how=how): errorbar_case(h, nd, w, m, how)


@suite.case('lemma: interpolation of ascending values over ascending nodes ascends')
def _(h):
    n = h.size('n', lo=1)
    cdf, F = (h.ascending(h.array(k, n), strict=False) for k in ('c', 'F'))
    p1, p2 = h.real('p1'), h.real('p2'); h.assume(p1 < p2)
    interp_ascends(h, cdf, F, n, p1, p2)


def wquantile_ascends(h, x, wt, n, p1, p2):
    """instance of the lemma: the weighted quantile does not decrease from level p1 to level p2 > p1"""
    tot = npm.sum(wt); idx = npm.argsort(x); F, cdf = x[idx], npm.cumsum(wt[idx] / tot)
    i, j = h.idx(n), h.idx(n)
    if h.prove('values ascend', imp(i <= j, at(F, i) <= at(F, j))):       # nodes: obligation of np.interp itself
        v1, v2 = (S(C.toreal(at(npm.interp(p, cdf, F)))) for p in (p1, p2))
        return v1, v2


def interp_ascends(h, cdf, F, n, p1, p2):
    q1, q2 = npm.searchsorted(cdf, p1, side='right'), npm.searchsorted(cdf, p2, side='right')
    v1, v2 = (S(C.toreal(at(npm.interp(p, cdf, F)))) for p in (p1, p2))

    def under(cond, goal):
        m = CTX.push()
        CTX.assume(cond)
        ok = goal()
        CTX.pop(m)
        if ok: CTX.assume(z3.Implies(b(cond), b(v1 <= v2)), True)

    def value(v): return S(C.resolve_ifs(CTX, v.e))

    def inside(q, p, v, name):
        """0 < q < n: v lies between the two nodes"""
        d, t, f0, f1 = h.real('d'), h.real('t'), h.real('f0'), h.real('f1')
        h.assume(f0 == at(F, q - 1)); h.assume(f1 == at(F, q)); h.lemma(name + ': nodes ascend', f0 <= f1)
        c0, c1 = h.real('c0'), h.real('c1')
        h.assume(c0 == at(cdf, q - 1)); h.assume(c1 == at(cdf, q)); h.lemma(name + ': bracketed', conj(c0 <= p, p < c1))
        h.assume(t == (p - c0) / (c1 - c0))
        h.derive(name + ': fraction', [c0 <= p, p < c1, t == (p - c0) / (c1 - c0)], conj(t >= 0, t <= 1))
        y = h.real('y'); h.assume(y == f0 + t * (f1 - f0))
        h.lemma(name + ': value', v == y)
        h.derive(name + ': between the nodes', [t >= 0, t <= 1, f0 <= f1, y == f0 + t * (f1 - f0)], conj(y >= f0, y <= f1))
        h.lemma(name + ': between the nodes too', conj(v >= at(F, q - 1), v <= at(F, q)))
        return f0, f1, c0, c1, t

    # positions do not decrease
    def contra():
        h.lemma('cumulative weight ascends', at(cdf, q2) <= at(cdf, q1 - 1))
        return h.prove('positions do not decrease', z3.BoolVal(False))
    m = CTX.push(); CTX.assume(b(q1 > q2)); ok = contra(); CTX.pop(m)
    if ok: h.assume(q1 <= q2)
    n_ = S(C.lift(n))

    def same():
        if CTX.holds(disj(q1 == 0, q1 == n_)): return h.prove('both outside', value(v1) <= value(v2))
        return h.prove('same cell', value(v1) <= value(v2))
    def both():
        f0, f1, c0, c1, t = inside(q1, p1, v1, 'lower level')
        g0, g1, d0, d1, s = inside(q2, p2, v2, 'upper level')
        h.lemma('same cell', conj(f0 == g0, f1 == g1, c0 == d0, c1 == d1))
        h.derive('same denominator', [t == (p1 - c0) / (c1 - c0), s == (p2 - d0) / (d1 - d0), c0 == d0, c1 == d1, p1 < p2, c0 <= p1, p1 < c1], t <= s)
        a1, a2 = h.real('a1'), h.real('a2'); h.assume(a1 == f0 + t * (f1 - f0)); h.assume(a2 == g0 + s * (g1 - g0))
        h.derive('ordered', [a1 == f0 + t * (f1 - f0), a2 == g0 + s * (g1 - g0), f0 == g0, f1 == g1, t <= s, f0 <= f1], a1 <= a2)
        return h.prove('same cell: ordered', v1 <= v2)
    def apart():
        inside(q1, p1, v1, 'lower level'); inside(q2, p2, v2, 'upper level')
        h.lemma('nodes ascend', at(F, q1) <= at(F, q2 - 1))
        return h.prove('other cell: ordered', v1 <= v2)
    def low_in():
        inside(q1, p1, v1, 'lower level'); h.lemma('nodes ascend', at(F, q1) <= at(F, n_ - 1))
        return h.prove('upper level beyond the last node', v1 <= v2)
    def up_in():
        inside(q2, p2, v2, 'upper level'); h.lemma('nodes ascend', at(F, 0) <= at(F, q2 - 1))
        return h.prove('lower level below the first node', v1 <= v2)
    in1, in2 = conj(q1 > 0, q1 < n_), conj(q2 > 0, q2 < n_)
    under(conj(in1, in2, q1 == q2), both)
    under(conj(in1, in2, q1 < q2), apart)
    under(conj(in1, q2 == n_), low_in)
    under(conj(q1 == 0, in2), up_in)
    under(conj(q1 == 0, q2 == 0), lambda: h.prove('both below', v1 <= v2))
    under(conj(q1 == n_, q2 == n_), lambda: h.prove('both beyond', v1 <= v2))
    under(conj(q1 == 0, q2 == n_), lambda: h.prove('first and last node', v1 <= v2))
    h.prove('the value at the higher level is not smaller', v1 <= v2)


for w in (False, True):
    for how in LEVELS:
        @suite.case(f'error bar distances are not negative ({how}, weights={w})')
        def _(h, w=w, how=how):
            n = h.size('n', lo=1); x = h.array('x', n)
            wt = None
            if w:
                wt = h.array('w', n); h.assume_all(wt, lambda v, i: v >= 0)
                h.assume(S(mk_sum(lambda i: at(wt, S(i)).e, n.e, R)) > 0)
            r = h.mod(RD).Errorbar(how)(x, wt)
            if w:
                for k, (a, c) in enumerate(zip(LEVELS[how], LEVELS[how][1:])):
                    v = wquantile_ascends(h, x, wt, n, lit(a), lit(c))
                    mark = CTX.push()
                    y1, y2, d = h.real('y1'), h.real('y2'), h.real('d')
                    h.lemma(f'distance {k} is a difference of two quantiles', at(r, k + 1) == v[1] - v[0])
                    h.assume(y1 == v[0]); h.assume(y2 == v[1]); h.assume(d == y2 - y1); h.assume(y1 <= y2)
                    h.derive(f'distance {k}', [d == y2 - y1, y1 <= y2], d >= 0)
                    CTX.pop(mark)
            else: h.prove('lower distance', at(r, 1) >= 0); h.prove('upper distance', at(r, 2) >= 0)


for key, extra in (('mean', {}), ('std_dev', {}), ('median', {}), ('quantile', {'ps': 0.5})):
    for shape in (1, 2):
        @suite.case(f'default fill of {key} ({shape}-d)')
        def _(h, key=key, extra=extra, shape=shape):
            n = h.size('n'); sh = (n,) if shape == 1 else (h.size('rows', lo=1), n)
            x = h.array('x', sh); mask = h.array('mask', sh, 'b1')
            ms = mask.snap()
            r = h.mod(RD).predefined[key](**extra)(x, mask=mask)
            row = [h.idx(s) for s in sh[:-1]]
            none = count(n, lambda i: C.tobool(S(ms(tuple(k.e for k in row) + (i,)))))
            h.prove('-1e10 when nothing is left', imp(none < 1, at(r, *row) == -1.0e10))


@suite.case('weighted quantile of a sample declared sorted')
def _(h):
    n = h.size('n', lo=1); x = h.ascending(h.array('x', n), strict=False)
    wt = h.array('w', n); h.assume_all(wt, lambda v, i: v >= 0); h.assume(S(mk_sum(lambda i: at(wt, S(i)).e, n.e, R)) > 0)
    p = h.real('p', lo=0, hi=1)
    h.eq('quantile', at(h.mod(RD).Quantile(p, sort=False)(x, wt)), at(wquantile(x, wt, p, False)))
    h.eq('median', at(h.mod(RD).Median(sort=False)(x, wt)), at(wquantile(x, wt, lit('0.5'), False)))


@suite.case('named quantile levels')
def _(h):
    Q = h.mod(RD).Quantile
    for name, ps in dict(LEVELS, **{'1sigma': ('0.16', '0.84'), '2sigma': ('0.025', '0.975'), '3sigma': ('0.005', '0.995'),
                                    'lower_3sigmas': ('0.68', '0.95', '0.99'), 'upper_3sigmas': ('0.01', '0.05', '0.32')}).items():
        q = Q(name)
        h.shape(name + ': as many levels', q.ps, (len(ps),))
        for k, p in enumerate(ps): h.eq(f'{name}: level {k}', at(q.ps, k), lit(p))
    d = Q()
    for k, p in enumerate(LEVELS['median+1sigma']): h.eq(f'default: level {k}', at(d.ps, k), lit(p))


@suite.case('impossible samples are refused')
def _(h):
    M = h.mod(RD)
    n, m = h.size('n'), h.size('m'); h.assume(n != m)
    x = h.array('x', n)
    for c in ('Count', 'Sum', 'Mean', 'StdDev', 'Median', 'Quantile', 'Errorbar'):
        r = getattr(M, c)()
        h.raises(c + ': weights of another length', AssertionError, lambda: r(x, h.array('w', m)))
        h.raises(c + ': mask of another length', AssertionError, lambda: r(x, mask=h.array('k', m, 'b1')))
        h.raises(c + ': three dimensions', AssertionError, lambda: r(h.array('y', (n, 2, 3))))


# ------------------------------------------------------------------ names
NAMES = {'count': 'Count', 'cnt': 'Count', 'sum': 'Sum', 'mean': 'Mean', 'std_dev': 'StdDev', 'std': 'StdDev', 'sd': 'StdDev',
         'quantile': 'Quantile', 'qs': 'Quantile', 'median': 'Median', 'errorbar': 'Errorbar'}


@suite.case('reductions by name, with options and as instances')
def _(h):
    M = h.mod(RD)
    P = M.predefined
    h.prove('exactly the documented names', sorted(P) == sorted(NAMES))
    fill = h.real('fill')
    for name, cls in NAMES.items():
        got, r = P.create(name)
        h.prove(f'{name}: by name', got == name and type(r) is getattr(M, cls))
        got, r = P.create((name, {'empty_fill': fill}))
        h.prove(f'{name}: with options', got == name and type(r) is getattr(M, cls))
        f = r.empty_fill
        h.eq(f'{name}: option used', at(f, *[h.idx(d) for d in f._shape]), fill)
        i = getattr(M, cls)()
        got, r = P.create(i)
        h.prove(f'{name}: instance', got == i.key and r is i)
        one = list(P.iter(name))
        h.prove(f'{name}: alone', len(one) == 1 and one[0][0] == name and type(one[0][1]) is getattr(M, cls))
    import itertools
    for a, c in itertools.product(NAMES, NAMES):
        inst = getattr(M, NAMES[c])()
        got = list(P.iter([a, (c, {'empty_fill': 3.}), inst, a]))
        h.prove(f'{a}, {c}: order kept', [g[0] for g in got] == [a, c, inst.key, a] and got[2][1] is inst
                and [type(g[1]) for g in got] == [getattr(M, NAMES[k]) for k in (a, c, c, a)])
    h.raises('unknown name', KeyError, lambda: P.create('no such reduction'))
