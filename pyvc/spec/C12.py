"""Spectral smoothing (field/cubic_box/smoothing.py)."""
from .common_fft import *
suite = Suite()
SM, MA, MESH, FIELD = ('field.cubic_box.' + s for s in ('smoothing', 'mass_assignment', 'mesh', 'field'))


def vec(h, k):
    """an array with the given three entries"""
    a = h.array('ki', (3,))
    for i in range(3): h.assume(at(a, i) == k[i])
    return a


@suite.case('Gaussian window')
def _(h):
    L, r, n = h.real('L', gt=0), h.real('r', lo=0), h.int('n', lo=1)
    mesh = h.mod(MESH)._Mesh(n, L)
    g = h.mod(SM)._Gaussian(r, mesh)
    k = [h.real(f'k{i}') for i in range(3)]
    a = vec(h, k)
    w = g.window_at_ki(a)
    pi = S(C.PI)
    K2 = (k[0] * k[0] + k[1] * k[1] + k[2] * k[2]) * (2 * pi / L) * (2 * pi / L)
    h.prove('a Gaussian', w.e.decl().eq(C.expF))
    h.eq('exponent -k^2 r^2 / 2', S(w.e.arg(0)), -K2 * r * r / 2)


@suite.case('top-hat window')
def _(h):
    L, r, n = h.real('L', gt=0), h.real('r', gt=0), h.int('n', lo=1)
    mesh = h.mod(MESH)._Mesh(n, L)
    g = h.mod(SM)._Tophat(r, mesh)
    k = [h.real(f'k{i}') for i in range(3)]
    a = vec(h, k)
    pi = S(C.PI)
    h.assume(C.PI > 0)
    w = g.window_at_ki(a)
    h.lemma('k^2 is not negative', k[0] * k[0] + k[1] * k[1] + k[2] * k[2] >= 0)
    kr = C.m_sqrt(k[0] * k[0] + k[1] * k[1] + k[2] * k[2]) * (2 * pi * r / L)
    x = h.real('x'); h.assume(x == kr)
    h.prove('one at zero', imp(x == 0, S(C.lift(w)) == 1))
    h.prove('3 (sin x - x cos x) / x^3 (beyond the series limit 1e-6, below which it is one to 1e-13)',
            imp(x >= 1e-6, S(C.lift(w)) == 3. * (S(C.sinF(x.e)) - x * S(C.cosF(x.e))) / (x * x * x)))
    h.prove('one below the limit', imp(x <= 1e-8, S(C.lift(w)) == 1))


@suite.case('zero mode: every window is one')
def _(h):
    L, r, n = h.real('L', gt=0), h.real('r', gt=0), h.int('n', lo=1)
    mesh = h.mod(MESH)._Mesh(n, L)
    m = h.mod(SM)
    z = h.mod(SM).np.zeros(3)
    h.eq('Gaussian', m._Gaussian(r, mesh).window_at_ki(z), 1)
    h.eq('top-hat', m._Tophat(r, mesh).window_at_ki(z), 1)
    h.eq('assignment', h.mod(MA)._LinearShapeFn(mesh).shape_at_ki_nd(z), 1)


@suite.case('assignment window on one axis')
def _(h):
    L, n = h.real('L', gt=0), h.int('n', lo=1)
    mesh = h.mod(MESH)._Mesh(n, L)
    s = h.mod(MA)._LinearShapeFn(mesh)
    k = [h.int(f'k{i}') for i in range(1)]
    kr = [S(C.toreal(v)) for v in k]
    h.assume(C.PI > 0)
    for i in range(1):
        x = S(C.PI) * kr[i] / S(C.toreal(n))
        h.eq('sinc^2', s.shape_at_ki(kr[i]), ite(k[i] == 0, 1., (S(C.sinF(z3.simplify(C.toreal(x)))) / x) * (S(C.sinF(z3.simplify(C.toreal(x)))) / x)))
        npm.trust('sine: positive on (0, pi), odd')
        sx = C.sinF(z3.simplify(C.toreal(x)))
        CTX.assume(z3.Implies(z3.And(x.e > 0, x.e < C.PI), sx > 0), True)
        CTX.assume(z3.Implies(z3.And(x.e < 0, x.e > -C.PI), sx < 0), True)
        xx = h.real('x'); h.assume(xx == x)
        h.lemma(f'x n = pi k', xx * S(C.toreal(n)) == S(C.PI) * kr[i])
        h.lemma(f'modes lie inside (-pi, pi)', imp(abs(k[i]) <= n // 2, conj(xx < S(C.PI), xx > -1 * S(C.PI))))
        h.lemma(f'nonzero away from the zero mode', imp(k[i] != 0, xx != 0))
        h.prove(f'positive on the modes of the grid', imp(abs(k[i]) <= n // 2, s.shape_at_ki(kr[i]) > 0))
    kk = h.real('kk')
    h.eq('in wave number units', s.shape_at_k(kk * 2 * S(C.PI) / L), s.shape_at_ki(kk))


@suite.case('assignment window: product over the axes')
def _(h):
    L, n = h.real('L', gt=0), h.int('n', lo=1)
    S_ = h.mod(MA)._LinearShapeFn
    f = z3.Function('shape1', R, R)
    S_.shape_at_ki = lambda self, k: S(f(C.toreal(k)))
    s = S_(h.mod(MESH)._Mesh(n, L))
    k = [h.real(f'k{i}') for i in range(3)]
    h.eq('product over the axes', s.shape_at_ki_nd(vec(h, k)), S(f(k[0].e)) * S(f(k[1].e)) * S(f(k[2].e)))


def windows(h):
    """callee contracts: the windows are functions of the three wave numbers"""
    wg, wt = (z3.Function(t, R, R, R, R) for t in ('win_gauss', 'win_tophat'))
    wc = z3.Function('win_cic', R, R, R, R)
    C.add_templ(wc, lambda app: [app > 0])
    m = h.mod(SM)

    def mk(f, tag):
        def window_at_ki(self, ki):
            CTX.used_contracts.add(tag)
            CTX.side('three wave numbers', C.tobool(S(C.lift(ki._shape[0])) == 3))
            return S(f(*[C.toreal(at(ki, t)) for t in range(3)]))
        return window_at_ki
    m._Gaussian.window_at_ki = mk(wg, SM + ':_Gaussian.window_at_ki')
    m._Tophat.window_at_ki = mk(wt, SM + ':_Tophat.window_at_ki')
    h.mod(MA)._LinearShapeFn.shape_at_ki_nd = mk(wc, MA + ':_LinearShapeFn.shape_at_ki_nd')
    return dict(gaussian=wg, tophat=wt), wc


def field(h):
    n, L = h.int('n', lo=1), h.real('L', gt=0)
    M = h.mod(MESH).Mesh.new(n, L)
    data = h.array('rho', (n, n, n))
    return h.mod(FIELD).Field.new_by_data(data, M), data, n, L


def check_transforms(h, fft, n, source, name=''):
    """one forward transform of the source, and the inverse of a given mode array with the same conventions"""
    h.prove(name + 'one forward transform', len(fft.fwd) == 1)
    f, sh, norm, m, m0 = fft.fwd[0]
    i, j, k = h.idx(n), h.idx(n), h.idx(n)
    h.prove(name + 'of the whole grid', conj(*[S(C.lift(d)) == n for d in sh]))
    h.eq(name + 'forward transform of the source', S(f((i.e, j.e, k.e))), source(i, j, k))
    return m0, norm


for method in ('gaussian', 'tophat'):
    @suite.case(f'FFTSmoothing ({method}): every mode times its window')
    def _(h, method=method):
        fft = install(h)
        win, wc = windows(h)
        F, data, n, L = field(h)
        d0 = data.snap()
        r = h.real('r', lo=0)
        o = h.mod(SM).FFTSmoothing(r_sm=r, method=method).run(F)
        m0, norm = check_transforms(h, fft, n, lambda i, j, k: S(d0((i.e, j.e, k.e))))
        h.prove('one inverse transform', len(fft.inv) == 1)
        y, ysh, norm2, res, res0 = fft.inv[0]
        h.prove('same normalisation', norm == norm2)
        ix, k = modes_idx(h, n)
        e = tuple(v.e for v in ix)
        h.prove('all modes', conj(S(C.lift(ysh[0])) == n, S(C.lift(ysh[1])) == n, S(C.lift(ysh[2])) == n // 2 + 1))
        h.eq('mode times window', S(y(e)), S(m0(e)) * S(win[method](*[v.e for v in k])))
        h.shape('shape kept for any grid size', o.data, (n, n, n))
        i, j, l = h.idx(n), h.idx(n), h.idx(n)
        h.eq('the smoothed field is the inverse transform', at(o.data, i, j, l), S(res0((i.e, j.e, l.e))))
        h.eq('same mesh: n', o.mesh.n_grids, n); h.eq('same mesh: L', o.mesh.l_box, L)
        h.unchanged('input field unchanged', data, d0)
        h.independent('own storage', o.data, data)


    @suite.case(f'{method}: the smoothing carries the requested radius')
    def _(h, method=method):
        # the filter is built with the requested radius and the mesh of the field
        fft = install(h)
        F, data, n, L = field(h)
        r = h.real('r', lo=0)
        m = h.mod(SM)
        for cls in (m.FFTSmoothing, m.FourierSpaceSmoothing):
            seen = []
            cls._smooth = staticmethod(lambda dk, sm: (seen.append(sm), dk)[1])
            cls._normalize = staticmethod(lambda x: x)
            cls(r_sm=r, method=method).run(F)
            h.prove('one filter', len(seen) == 1)
            sm = seen[0]
            h.prove(f'{cls.__name__}: filter kind', type(sm).__name__ == dict(gaussian='_Gaussian', tophat='_Tophat')[method])
            h.eq(f'{cls.__name__}: radius', sm.r, r)
            h.eq(f'{cls.__name__}: box', sm.mesh.l_box, L); h.eq(f'{cls.__name__}: grid', sm.mesh.n_grids, n)


    @suite.case(f'FourierSpaceSmoothing ({method}): windows divided by the assignment window')
    def _(h, method=method):
        fft = install(h)
        win, wc = windows(h)
        F, data, n, L = field(h)
        d0 = data.snap()
        mean = h.real('mean', gt=1e-10)
        m = h.mod(SM)
        duf = h.array('delta', (n, n, n))
        def norm_(x):
            CTX.used_contracts.add(SM + ':FourierSpaceSmoothing._normalize')
            h.same_object('normalises the input field', x.buf, data.buf)
            return duf
        m.FourierSpaceSmoothing._normalize = staticmethod(norm_)
        r = h.real('r', lo=0)
        o = m.FourierSpaceSmoothing(r_sm=r, method=method).run(F)
        dl0 = duf.snap()
        m0, norm = check_transforms(h, fft, n, lambda i, j, k: S(dl0((i.e, j.e, k.e))))
        h.prove('one inverse transform', len(fft.inv) == 1)
        y, ysh, norm2, res, res0 = fft.inv[0]
        h.prove('same normalisation', norm == norm2)
        ix, k = modes_idx(h, n)
        e = tuple(v.e for v in ix)
        ke = [v.e for v in k]
        want = S(m0(e)) * S(win[method](*ke)) / S(wc(*ke))
        h.prove('all modes', conj(S(C.lift(ysh[0])) == n, S(C.lift(ysh[1])) == n, S(C.lift(ysh[2])) == n // 2 + 1))
        h.eq('mode times window over assignment window', S(y(e)), want)
        h.eq('reported smoothed modes', at(o.delta_sm_k, *ix), want)
        h.eq('reported modes', at(o.delta_k, *ix), S(m0(e)))
        g = h.idx(n), h.idx(n), h.idx(n)
        h.eq('reported density', at(o.rho_x, *g), S(d0(tuple(v.e for v in g))))
        h.eq('reported overdensity', at(o.delta_x, *g), S(dl0(tuple(v.e for v in g))))
        h.eq('the smoothed field is the inverse transform', at(o.delta_sm_x, *g), S(res0(tuple(v.e for v in g))))
        h.shape('shape kept for any grid size', o.delta_sm_x, (n, n, n))
        h.eq('grid', o.n_grids, n); h.eq('box', o.l_box, L)
        h.unchanged('input field unchanged', data, d0)


@suite.case('overdensity: density over mean minus one, zero mean; no positive mean, no result')
def _(h):
    n = h.int('n', lo=1)
    rho = h.array('rho', (n, n, n)); r0 = rho.snap()
    f = h.mod(SM).FourierSpaceSmoothing._normalize
    total = h.nested(lambda *ix: at(rho, *ix), (n, n, n), R)
    mean = total / (S(C.toreal(n)) * S(C.toreal(n)) * S(C.toreal(n)))
    if CTX.branch(C.tobool(mean <= 0)):
        h.raises('refused', ValueError, lambda: f(rho))
        return
    h.assume(mean >= 1e-10)
    d = f(rho)
    i, j, k = h.idx(n), h.idx(n), h.idx(n)
    M = h.real('M'); h.assume(M == mean)
    h.eq('rho / mean - 1', at(d, i, j, k), at(rho, i, j, k) / M - 1)
    h.unchanged('input unchanged', rho, r0)
    h.sum_linear('sum of the overdensities', [lambda *ix: at(d, *ix)], lambda *ix: at(rho, *ix) * (1 / M) - 1, (n, n, n), R)
    N = S(C.toreal(n)) * S(C.toreal(n)) * S(C.toreal(n))
    T = h.real('T'); h.assume(T == total)
    h.lemma('total is mean times cells', T == M * N)
    h.eq('zero mean', h.nested(lambda *ix: at(d, *ix), (n, n, n), R), 0)


@suite.case('unknown methods are refused')
def _(h):
    install(h)
    F, data, n, L = field(h)
    m = h.mod(SM)
    for cls in (m.FFTSmoothing, m.FourierSpaceSmoothing):
        h.raises(cls.__name__, ValueError, lambda: cls(method='other').run(F))
