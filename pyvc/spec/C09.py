"""Bisection and linear interpolation (numerical/interpolate.py)."""
from ..harness import *
suite = Suite()
MOD = 'numerical.interpolate'


def grid(h, name='xs', n=None, lo=1):
    n = h.size('n_' + name, lo=lo) if n is None else n
    x = h.array(name, (n,))
    h.ascending(x, strict=True)
    return x, n


def is_sorted(x):
    if not getattr(x.buf, 'sorted', None) or x.buf.layers:
        raise Unsupported('array not known to be ascending')


def bisearch_post(x, v, l):
    n = S(dz(x._shape[0]))
    lo = at(x, 0)
    ol = ite(l < 0, 0, l)                       # keep the terms in range
    nx = ite(l + 1 < n, l + 1, n - 1)
    return conj(l >= -1, l < n, iff(l == -1, v < lo), imp(l >= 0, at(x, ol) <= v), imp(conj(l + 1 < n), v < at(x, nx)))


def bisearch_contract(x, v):
    is_sorted(x)
    CTX.used_contracts.add('numerical.interpolate:bisearch')
    CTX.side('bisearch requires a non-empty array', dz(x._shape[0]) > 0)
    l = S(CTX.skolem('bis', I))
    CTX.assume_post(b(bisearch_post(x, v, l)))
    return l


@suite.case('bisearch brackets the value')
def _(h):
    x, n = grid(h); v = h.real('v')
    l = h.mod(MOD).bisearch(x, v)
    l = S(C.lift(l))
    h.prove('result in [-1, n)', conj(l >= -1, l < n))
    h.prove('-1 exactly below the first entry', iff(l == -1, v < at(x, 0)))
    h.prove('entry at the result <= value', imp(l >= 0, at(x, l) <= v))
    h.prove('value < next entry', imp(conj(l >= 0, l + 1 < n), v < at(x, l + 1)))
    h.prove('last position at or above the last entry', imp(v >= at(x, n - 1), l == n - 1))


@suite.case('bisearch brackets the value (integer data)')
def _(h):
    n = h.size('n', lo=1)
    x = h.ascending(h.array('xs', (n,), 'i8')); v = h.int('v')
    l = S(C.lift(h.mod(MOD).bisearch(x, v)))
    h.prove('result in [-1, n)', conj(l >= -1, l < n))
    h.prove('-1 exactly below the first entry', iff(l == -1, v < at(x, 0)))
    h.prove('entry at the result <= value', imp(l >= 0, at(x, l) <= v))
    h.prove('value < next entry', imp(conj(l >= 0, l + 1 < n), v < at(x, l + 1)))


def dist(a, c):
    return abs(a - c)


@suite.case('bisearch_nearest returns a position at minimal distance')
def _(h):
    m = h.mod(MOD)
    m.bisearch = bisearch_contract
    x, n = grid(h); v = h.real('v')
    l = S(C.lift(m.bisearch_nearest(x, v)))
    h.prove('result in range', conj(l >= 0, l < n))
    k = h.idx(n)
    h.prove('no entry is closer', dist(at(x, l), v) <= dist(at(x, k), v))


@suite.case('bisearch_nearest_array works value by value')
def _(h):
    m = h.mod(MOD)
    x, n = grid(h)

    def near(x_, v):
        CTX.used_contracts.add('numerical.interpolate:bisearch_nearest')
        is_sorted(x_)
        CTX.side('nearest requires a non-empty array', dz(x_._shape[0]) > 0)
        r = S(CTX.skolem('near', I))
        CTX.assume_post(z3.And(r.e >= 0, r.e < dz(x_._shape[0])))
        # minimal distance for every entry, instantiated at the generic index k
        CTX.assume_post(b(dist(at(x_, r), v) <= dist(at(x_, k), v)))
        return r
    m.bisearch_nearest = near
    q = h.size('q'); k = h.idx(n)
    v = h.array('v', (q,)); v0 = v.snap()
    o = m.bisearch_nearest_array(x, v)
    h.shape('one result per value', o, (q,))
    i = h.idx(q)
    r = at(o, i)
    h.prove('result in range', conj(r >= 0, r < n))
    h.prove('no entry is closer', dist(at(x, r), at(v, i)) <= dist(at(x, k), at(v, i)))
    h.unchanged('values unchanged', v, v0)


@suite.case('linear_interp_weight')
def _(h):
    m = h.mod(MOD)
    x, a, c = h.real('x'), h.real('xl'), h.real('xr')
    h.assume(conj(a <= x, x <= c, a < c))
    wl, wr = m.linear_interp_weight(x, a, c)
    h.prove('non-negative', conj(wl >= 0, wr >= 0))
    h.prove('sum to one', wl + wr == 1)
    h.prove('reproduce the abscissa', wl * a + wr * c == x)


def weights_post(x, v, l, r, wl, wr):
    n = S(dz(x._shape[0]))
    return conj(l >= 0, l < n, r >= 0, r < n, wl >= 0, wr >= 0, wl + wr == 1,
                imp(v < at(x, 0), conj(l == 0, r == 0)),
                imp(v >= at(x, n - 1), conj(l == n - 1, r == n - 1)),
                imp(conj(v >= at(x, 0), v < at(x, n - 1)), conj(
                    r == l + 1, at(x, l) <= v, v < at(x, r), wl * at(x, l) + wr * at(x, r) == v,
                    wl == (at(x, l + 1) - v) / (at(x, l + 1) - at(x, l)), wr == (v - at(x, l)) / (at(x, l + 1) - at(x, l)))))


@suite.case('bisearch_interp_weight')
def _(h):
    m = h.mod(MOD)
    m.bisearch = bisearch_contract
    x, n = grid(h); v = h.real('v')
    l, r, wl, wr = [S(C.lift(t)) for t in m.bisearch_interp_weight(x, v)]
    h.prove('positions in range', conj(l >= 0, l < n, r >= 0, r < n))
    h.prove('weights non-negative and sum to one', conj(wl >= 0, wr >= 0, wl + wr == 1))
    h.prove('first node twice below the range', imp(v < at(x, 0), conj(l == 0, r == 0)))
    h.prove('last node at or above the range', imp(v >= at(x, n - 1), conj(l == n - 1, r == n - 1)))
    inside = conj(v >= at(x, 0), v < at(x, n - 1))
    h.prove('bracketing neighbours inside', imp(inside, conj(r == l + 1, at(x, l) <= v, v < at(x, r))))
    h.prove('reproduce the abscissa', imp(inside, wl * at(x, l) + wr * at(x, r) == v))
    h.prove('contract used by the callers', weights_post(x, v, l, r, wl, wr))


CAPT = []


def weight_contract(x, v):
    is_sorted(x)
    CTX.used_contracts.add('numerical.interpolate:bisearch_interp_weight')
    CTX.side('weights require a non-empty array', dz(x._shape[0]) > 0)
    l, r = S(CTX.skolem('wi_l', I)), S(CTX.skolem('wi_r', I))
    wl, wr = S(CTX.skolem('wi_wl', R)), S(CTX.skolem('wi_wr', R))
    CTX.assume_post(b(weights_post(x, v, l, r, wl, wr)))
    CAPT.append((l, r, wl, wr))
    return l, r, wl, wr


def checks_1d(h, f, x, y, n, v, oob=None):
    """f: value of the interpolant at v (already evaluated)"""
    k = h.idx(n)
    yl, yr = oob or (at(y, 0), at(y, n - 1))
    h.prove('left end value below the range', imp(v < at(x, 0), f == yl))
    h.prove('right end value above the range', imp(v > at(x, n - 1), f == yr))
    h.prove('node values at the nodes', imp(v == at(x, k), f == at(y, k)))
    inside = conj(k + 1 < n, at(x, k) <= v, v <= at(x, ite(k + 1 < n, k + 1, n - 1)))
    k1 = ite(k + 1 < n, k + 1, n - 1)
    lo = ite(at(y, k) < at(y, k1), at(y, k), at(y, k1)); hi = ite(at(y, k) < at(y, k1), at(y, k1), at(y, k))
    h.prove('stays between the two bracketing values', imp(inside, conj(f >= lo, f <= hi)))
    h.prove('linear between the two bracketing nodes',
            imp(inside, (f - at(y, k)) * (at(x, k1) - at(x, k)) == (at(y, k1) - at(y, k)) * (v - at(x, k))))


@suite.case('bisearch_interp')
def _(h):
    m = h.mod(MOD)
    m.bisearch_interp_weight = weight_contract
    x, n = grid(h); y = h.array('ys', (n,)); v = h.real('v')
    checks_1d(h, m.bisearch_interp(x, y, v), x, y, n, v)


@suite.case('bisearch_interp of linear data')
def _(h):
    m = h.mod(MOD)
    m.bisearch_interp_weight = weight_contract
    x, n = grid(h); v, p, q = h.real('v'), h.real('p'), h.real('q')
    y = x * p + q
    f = m.bisearch_interp(x, y, v)
    h.prove('exact inside the range', imp(conj(v >= at(x, 0), v <= at(x, n - 1)), f == p * v + q))


@suite.case('bisearch_interp_fix_oob')
def _(h):
    m = h.mod(MOD)
    m.bisearch_interp_weight = weight_contract
    x, n = grid(h); y = h.array('ys', (n,)); v, a, c = h.real('v'), h.real('yl'), h.real('yr')
    checks_1d(h, m.bisearch_interp_fix_oob(x, y, v, a, c), x, y, n, v, oob=(a, c))


for trailing in (False, True):
    @suite.case(f'bisearch_interp_2d {"(trailing axis)" if trailing else ""}')
    def _(h, trailing=trailing):
        m = h.mod(MOD)
        m.bisearch_interp_weight = weight_contract
        x1, n1 = grid(h, 'x1'); x2, n2 = grid(h, 'x2')
        t = h.size('t')
        y = h.array('ys', (n1, n2) + ((t,) if trailing else ()))
        v1, v2 = h.real('v1'), h.real('v2')
        f = m.bisearch_interp_2d(x1, x2, y, v1, v2)
        ix = ()
        if trailing:
            h.shape('shape', f, (t,))
            ix = (h.idx(t),); f = at(f, *ix)
        Y = lambda i, j: at(y, i, j, *ix)
        k1, k2 = h.idx(n1), h.idx(n2)
        h.prove('node values at the nodes', imp(conj(v1 == at(x1, k1), v2 == at(x2, k2)), f == Y(k1, k2)))
        e1 = conj(v1 < at(x1, 0)); e2 = conj(v2 < at(x2, 0)); f1 = conj(v1 >= at(x1, n1 - 1)); f2 = conj(v2 >= at(x2, n2 - 1))
        for c1, i1, t1 in ((e1, 0, 'below'), (f1, n1 - 1, 'above')):
            for c2, i2, t2 in ((e2, 0, 'below'), (f2, n2 - 1, 'above')):
                h.prove(f'end value outside ({t1}, {t2})', imp(conj(c1, c2), f == Y(i1, i2)))
        h.assume(conj(k1 + 1 < n1, k2 + 1 < n2))
        in1 = conj(at(x1, k1) <= v1, v1 < at(x1, k1 + 1)); in2 = conj(at(x2, k2) <= v2, v2 < at(x2, k2 + 1))
        dx1, dx2 = at(x1, k1 + 1) - at(x1, k1), at(x2, k2 + 1) - at(x2, k2)
        p1, p2 = v1 - at(x1, k1), v2 - at(x2, k2)
        h.assume(conj(in1, in2))
        (l1, r1, a1, b1), (l2, r2, a2, b2) = CAPT[-2:]
        h.lemma('brackets of the first axis', conj(l1 == k1, r1 == k1 + 1))
        h.lemma('brackets of the second axis', conj(l2 == k2, r2 == k2 + 1))
        h.lemma('weights of the first axis', conj(a1 == (dx1 - p1) / dx1, b1 == p1 / dx1))
        h.lemma('weights of the second axis', conj(a2 == (dx2 - p2) / dx2, b2 == p2 / dx2))
        h.prove('bilinear between the four bracketing nodes',
                f * dx1 * dx2 == Y(k1, k2) * (dx1 - p1) * (dx2 - p2) + Y(k1, k2 + 1) * (dx1 - p1) * p2
                + Y(k1 + 1, k2) * p1 * (dx2 - p2) + Y(k1 + 1, k2 + 1) * p1 * p2)
        cs = [Y(k1, k2), Y(k1, k2 + 1), Y(k1 + 1, k2), Y(k1 + 1, k2 + 1)]
        bnd = h.real('bound')
        h.prove('never above the four bracketing values', imp(conj(*[c <= bnd for c in cs]), f <= bnd))
        h.prove('never below the four bracketing values', imp(conj(*[c >= bnd for c in cs]), f >= bnd))


@suite.case('bisearch_interp_2d of bilinear data')
def _(h):
    m = h.mod(MOD)
    m.bisearch_interp_weight = weight_contract
    x1, n1 = grid(h, 'x1'); x2, n2 = grid(h, 'x2')
    a, p, q, v1, v2 = [h.real(s) for s in ('a', 'p', 'q', 'v1', 'v2')]
    y = x1.reshape(-1, 1) * p + x2 * q + a
    f = m.bisearch_interp_2d(x1, x2, y, v1, v2)
    h.prove('exact for linear data inside the range',
            imp(conj(v1 >= at(x1, 0), v1 <= at(x1, n1 - 1), v2 >= at(x2, 0), v2 <= at(x2, n2 - 1)), f == a + p * v1 + q * v2))


# ---- Linear
def interp_contract(x, y, v):
    CTX.used_contracts.add('numerical.interpolate:bisearch_interp')
    return ('interp', x, y, v)


@suite.case('Linear refuses nodes that are not strictly ascending')
def _(h):
    m = h.mod(MOD)
    n = h.size('n', lo=2)
    x, y = h.array('xs', (n,)), h.array('ys', (n,))
    k = h.int('k')
    h.assume(conj(k >= 0, k + 1 < n, at(x, k + 1) <= at(x, k)))
    CTX.elem_hints.append(k.e)
    h.raises('refused', AssertionError, lambda: m.Linear(x, y))


@suite.case('Linear refuses shapes that do not match')
def _(h):
    m = h.mod(MOD)
    n, q = h.size('n', lo=2), h.size('q', lo=2)
    h.assume(n != q)
    x, _ = grid(h, n=n); y = h.array('ys', (q,))
    h.raises('refused', AssertionError, lambda: m.Linear(x, y))


@suite.case('Linear refuses fewer than two nodes')
def _(h):
    m = h.mod(MOD)
    n = h.size('n', lo=0); h.assume(n < 2)
    x, y = h.array('xs', (n,)), h.array('ys', (n,))
    h.raises('refused', AssertionError, lambda: m.Linear(x, y, False))


for check in (None, True, False):
    @suite.case(f'Linear accepts ascending nodes and interpolates (check={check})')
    def _(h, check=check):
        m = h.mod(MOD)
        m.bisearch_interp_weight = weight_contract
        x, n = grid(h, lo=2); y = h.array('ys', (n,)); v = h.real('v')
        j = h.idx(n - 1)
        x0, y0 = x.snap(), y.snap()
        lin = m.Linear(x, y) if check is None else m.Linear(x, y, check)
        f = lin.value_at(v)
        checks_1d(h, f, x, y, n, v)
        h.unchanged('nodes unchanged', x, x0); h.unchanged('values unchanged', y, y0)


@suite.case('Linear.derivative interpolates the difference quotients')
def _(h):
    m = h.mod(MOD)
    x, n = grid(h, lo=2); y = h.array('ys', (n,))
    lin = m.Linear(x, y, False)
    d = lin.derivative()
    m.bisearch_interp = interp_contract
    v = h.real('v')
    tag, xs, yds, vv = d.value_at(v)
    h.eqarr('derivative keeps the nodes', xs, x)
    h.shape('one slope per node', yds, (n,))
    i = h.idx(n)
    l = ite(i == 0, 0, ite(i == n - 1, n - 2, i - 1)); r = ite(i == 0, 1, ite(i == n - 1, n - 1, i + 1))
    h.prove('slope is the difference quotient of the neighbours',
            at(yds, i) * (at(x, r) - at(x, l)) == at(y, r) - at(y, l))
    h.eq('evaluated at the argument', vv, v)
    h.same_object('original values kept', lin.value_at(v)[2].buf, y.buf)
