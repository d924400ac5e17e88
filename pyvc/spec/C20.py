"""C20: preprocessing transforms are inverse pairs (stats/preprocessing.py, stats/prob_dist.py)."""
from ..harness import *
from .. import arr as A, scimodels as SM
from ..arr import mk_sum
from .. import npm
suite = Suite()
PP, PD = 'stats.preprocessing', 'stats.prob_dist'


def r(x): return S(C.toreal(at(x) if not isinstance(x, S) else x))


# ---------------------------------------------------------------- standardisation
def trained(h, dt='f8'):
    m = h.mod(PP)
    n, d = h.size('n', lo=1), h.size('d')
    x = h.array('train', (n, d), dt)
    lb = h.real('sd_lb', gt=0)
    s0 = x.snap()
    t = m.Standardize(x, sd_lb=lb)
    return m, n, d, x, s0, lb, t


@suite.case('learned parameters')
def _(h):
    m, n, d, x, s0, lb, t = trained(h)
    j = h.idx(d)
    mu = S(mk_sum(lambda k: x.at(k, j.e), n.e, R)) / n
    var = S(mk_sum(lambda k: (S(x.at(k, j.e)) - mu).e * (S(x.at(k, j.e)) - mu).e, n.e, R)) / n
    h.shape('one mean per column', t.mean, (d,))
    h.shape('one deviation per column', t.sd, (d,))
    h.eq('mean', at(t.mean, j), mu)
    sd = C.m_sqrt(var)
    h.eq('deviation raised to the floor', at(t.sd, j), ite(sd < lb, lb, sd))
    h.unchanged('training data untouched', x, s0)


@suite.case('learned parameters of integer data')
def _(h):
    m, n, d, x, s0, lb, t = trained(h, 'i8')
    j = h.idx(d)
    mu = S(mk_sum(lambda k: z3.ToReal(x.at(k, j.e)), n.e, R)) / n
    h.eq('mean', at(t.mean, j), mu)
    h.unchanged('training data untouched', x, s0)


@suite.case('training data must be two-dimensional')
def _(h):
    m = h.mod(PP)
    for sh in ((h.size('a'),), (h.size('b'), h.size('c'), h.size('e'))):
        h.raises('refused', AssertionError, lambda: m.Standardize(h.array('x', sh)))


def blank(h):
    """a transform with arbitrary learned parameters, deviations positive (the floor is)"""
    m = h.mod(PP)
    d = h.size('d')
    t = m.Standardize.__new__(m.Standardize)
    t.mean = h.array('mean', d)
    t.sd = h.array('sd', d)
    h.assume_all(t.sd, lambda v, *i: v > 0)
    return m, d, t


def each(h, dt='f8'):
    m, d, t = blank(h)
    n = h.size('n')
    for name, sh in (('rows', (n, d)), ('one row', (d,)), ('stacked rows', (h.size('l'), n, d))):
        yield name, t, h.array('x', sh, dt), d


def forward_case(dt, nm):
    @suite.case(f'forward and backward{nm}')
    def _(h):
        for name, t, x, d in each(h, dt):
            s0 = x.snap()
            y, z = t(x), t(x, backward=True)
            h.shape(f'{name}: shape', y, x._shape); h.shape(f'{name}: shape backward', z, x._shape)
            ix = [h.idx(k) for k in x._shape]
            v, mu, sd = r(at(x, *ix)), at(t.mean, ix[-1]), at(t.sd, ix[-1])
            h.eq(f'{name}: subtract the mean, divide by the deviation', at(y, *ix), (v - mu) / sd)
            h.eq(f'{name}: multiply by the deviation, add the mean', at(z, *ix), v * sd + mu)
            h.eq(f'{name}: backward after forward', at(t(y, backward=True), *ix), v)
            h.eq(f'{name}: forward after backward', at(t(z), *ix), v)
            h.unchanged(f'{name}: input untouched', x, s0)


forward_case('f8', '')
forward_case('i8', ' of integers')


# ---------------------------------------------------------------- probability transform
cdfF, ppfF = z3.Function('norm_cdf', R, R), z3.Function('norm_ppf', R, R)


def models():
    def norm(*a, **k):
        npm.trust('scipy.stats.norm: cdf and ppf are strictly increasing inverse functions between the (extended) reals and [0, 1]')
        C.add_templ(cdfF, lambda t: [t >= 0, t <= 1, ppfF(t) == t.arg(0)])
        C.add_templ(ppfF, lambda t: [z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) <= 1), cdfF(t) == t.arg(0))])
        C.add_pair(ppfF, lambda a, c: [z3.Implies(z3.And(a.arg(0) >= 0, a.arg(0) < c.arg(0), c.arg(0) <= 1), a < c)])
        C.add_pair(cdfF, lambda a, c: [z3.Implies(a.arg(0) < c.arg(0), a < c)])
        o = LD.Stub('norm()')

        def ew(F):
            def g(x):
                f = lambda e: S(F(C.toreal(e)))
                return A.elementwise(f, [x], 'f8') if isinstance(x, SArr) else f(S(C.lift(x)))
            return g
        o.__dict__['cdf'], o.__dict__['ppf'] = ew(cdfF), ew(ppfF)
        return o
    st = LD.Stub('scipy.stats')
    st.__dict__['norm'] = norm
    return {'scipy.interpolate': SM.interpolate(), 'scipy.stats': st}


def prob(h):
    m = h.mod(PD)
    n = h.size('n', lo=2)
    xs = h.array('xs', n)
    i, j = h.idx(n, 'p'), h.idx(n, 'q')
    s0 = xs.snap()
    h.hint(i.e)
    try:
        t = m.ProbTransToNorm(xs)
    except AssertionError:
        return None
    CTX.watch  # keep
    h.unchanged('training values untouched', xs, s0)
    srt = npm.sort(xs)
    return m, n, xs, t, srt


def nodes(h, n, srt, k):
    """the assertion of the constructor at node k: strictly ascending"""
    h.hint(k.e)
    return S(z3.Implies(z3.And(k.e >= 0, k.e + 1 < n.e), srt.at(k.e) < srt.at(k.e + 1)))


@suite.case('cumulative probabilities of the training values', models=models)
def _(h):
    q = prob(h)
    if q is None: return
    m, n, xs, t, srt = q
    k = h.idx(n, 'k')
    v = at(srt, k)
    loc = t.CDF_x.index(v)
    h.lemma('nodes ascend', nodes(h, n, srt, loc))
    h.lemma('nodes ascend', nodes(h, n, srt, k))
    h.lemma('nodes ascend', nodes(h, n, srt, k - 1))
    h.lemma('first and last', conj(at(srt, 0) <= v, v <= at(srt, n - 1)))
    h.lemma('located at the node', disj(loc == k, loc + 1 == k))
    p = t.forw(A.asarr(v) if False else v, with_norm=False)
    h.eq('sorted value number k maps to k/(n-1)', p, r(k) / (r(n) - 1))
    h.eq('and its normal variate', t.forw(v), S(ppfF(C.toreal(r(k) / (r(n) - 1)))))


def inside(h, n, srt, name='v'):
    v = h.real(name)
    h.assume(v >= at(srt, 0)); h.assume(v <= at(srt, n - 1))
    return v


@suite.case('linear in between', models=models)
def _(h):
    q = prob(h)
    if q is None: return
    m, n, xs, t, srt = q
    v = inside(h, n, srt)
    k = h.int('k', lo=0)
    h.assume(k + 1 < n)
    h.assume(v >= at(srt, k)); h.assume(v <= at(srt, k + 1))
    loc = t.CDF_x.index(v)
    for e in (loc, k, loc - 1, loc + 1): h.lemma('nodes ascend', nodes(h, n, srt, e))
    h.lemma('located', disj(loc == k, conj(loc == k + 1, v == at(srt, k + 1)), conj(loc + 1 == k, v == at(srt, k))))
    x0, x1 = at(srt, k), at(srt, k + 1)
    h.eq('linear', t.forw(v, with_norm=False), (r(k) + (v - x0) / (x1 - x0)) / (r(n) - 1))


@suite.case('monotonic', models=models)
def _(h):
    q = prob(h)
    if q is None: return
    m, n, xs, t, srt = q
    v, w = inside(h, n, srt), inside(h, n, srt, 'w')
    h.assume(v < w)
    a, c = t.CDF_x.index(v), t.CDF_x.index(w)
    for e in (a, c): h.lemma('nodes ascend', nodes(h, n, srt, e))
    h.lemma('order of the cells', a <= c)
    pv, pw = t.forw(v, with_norm=False), t.forw(w, with_norm=False)
    N = r(n) - 1
    def frac(u, i):
        f = h.real('f')
        h.assume(f == (u - at(srt, i)) / (at(srt, i + 1) - at(srt, i)))
        dx = h.real('dx'); h.assume(dx == at(srt, i + 1) - at(srt, i))
        h.derive('within the cell', [dx > 0, f == (u - at(srt, i)) / dx, u >= at(srt, i), u - at(srt, i) <= dx], conj(f >= 0, f <= 1))
        return f, dx
    fv, dv = frac(v, a)
    fw, dw = frac(w, c)
    h.lemma('value', conj(pv * N == r(a) + fv, pw * N == r(c) + fw))
    if CTX.branch(b(a == c)):
        h.lemma('cell', conj(fv * dv == v - at(srt, a), fw * dv == w - at(srt, a)))
        h.derive('within', [fv * dv == v - at(srt, a), fw * dv == w - at(srt, a), v < w, dv > 0], fv < fw)
    else:
        h.lemma('cells apart', a + 1 <= c)
        if CTX.branch(b(conj(fv == 1, fw == 0, a + 1 == c))):
            h.lemma('then both are the same node', conj(v == at(srt, a + 1), w == at(srt, c)))
    h.lemma('larger value, larger probability (times n-1)', pv * N < pw * N)
    h.derive('larger value, larger probability', [pv * N < pw * N, N > 0], pv < pw)
    h.prove('also as normal variates', t.forw(v) < t.forw(w))


@suite.case('backward after forward', models=models)
def _(h):
    q = prob(h)
    if q is None: return
    m, n, xs, t, srt = q
    v = inside(h, n, srt)
    a = t.CDF_x.index(v)
    p = t.forw(v, with_norm=False)
    N = r(n) - 1
    for e in (a, a - 1, a + 1): h.lemma('nodes ascend', nodes(h, n, srt, e))
    dx = h.real('dx'); h.assume(dx == at(srt, a + 1) - at(srt, a))
    f = h.real('f'); h.assume(f == (v - at(srt, a)) / dx)
    h.derive('within the cell', [dx > 0, f == (v - at(srt, a)) / dx, v >= at(srt, a), v - at(srt, a) <= dx], conj(f >= 0, f <= 1, f * dx == v - at(srt, a)))
    P = h.real('P'); h.assume(P == p)
    h.lemma('value', P * N == r(a) + f)
    h.derive('probability range', [P * N == r(a) + f, f >= 0, f <= 1, a >= 0, a + 1 < n, N == r(n) - 1, N > 0], conj(P >= 0, P <= 1))
    c = t.invCDF_x.index(S(C.toreal(p)))
    h.lemma('cell of the probability', conj(r(c) / N <= P, P <= (r(c) + 1) / N, c >= 0, c + 1 < n))
    h.derive('cell of the probability (scaled)', [r(c) / N <= P, P <= (r(c) + 1) / N, N > 0], conj(r(c) <= P * N, P * N <= r(c) + 1))
    h.lemma('same cell', disj(c == a, conj(c == a + 1, f == 1), conj(c + 1 == a, f == 0)))
    for wn in (False, True):
        y = t.forw(v, with_norm=wn)
        x = t.back(y, with_norm=wn)
        g = h.real('g'); h.assume(g == P * N - r(c))
        X = h.real('X'); h.assume(X == at(srt, c) + g * (at(srt, c + 1) - at(srt, c)))
        h.lemma('interpolated', x == X)
        h.prove(f'returns the original value (with_norm={wn})', X == v)


@suite.case('arrays elementwise', models=models)
def _(h):
    q = prob(h)
    if q is None: return
    m, n, xs, t, srt = q
    k = h.size('k')
    vs = h.array('vs', k)
    j = h.idx(k)
    v = at(vs, j)
    h.assume(v >= at(srt, 0)); h.assume(v <= at(srt, n - 1))
    s0 = vs.snap()
    for wn in (False, True):
        y = t.forw(vs, with_norm=wn)
        h.shape('shape', y, (k,))
        h.eq('each element', at(y, j), t.forw(v, with_norm=wn))
        ps = h.array('ps', k)
        p = at(ps, j)
        if not wn:
            h.assume(p >= 0); h.assume(p <= 1)
        h.eq('each element backward', at(t.back(ps, with_norm=wn), j), t.back(p, with_norm=wn))
    h.unchanged('input untouched', vs, s0)


@suite.case('repeated training values are refused', models=models)
def _(h):
    m = h.mod(PD)
    n = h.size('n', lo=2)
    xs = h.array('xs', n)
    i = h.idx(n, 'i')
    srt = npm.sort(xs)
    h.assume(i + 1 < n)
    h.assume(at(srt, i) == at(srt, i + 1))
    h.raises('refused', AssertionError, lambda: m.ProbTransToNorm(xs))
