"""Tidal tensor (field/cubic_box/gravity.py)."""
from .common_fft import *
suite = Suite()
GR, SM, MA, MESH, FIELD = ('field.cubic_box.' + s for s in ('gravity', 'smoothing', 'mass_assignment', 'mesh', 'field'))


def field(h):
    n, L = h.int('n', lo=1), h.real('L', gt=0)
    M = h.mod(MESH).Mesh.new(n, L)
    data = h.array('rho', (n, n, n))
    return h.mod(FIELD).Field.new_by_data(data, M), data, n, L


@suite.case('Green function: inverse Laplacian, zero at the zero mode')
def _(h):
    k = [h.int(f'k{i}') for i in range(3)]
    a = h.array('ki', (3,))
    for i in range(3): h.assume(at(a, i) == k[i])
    g = S(C.lift(h.mod(GR)._GreenFn3d().at_ki(a)))
    k2 = k[0] * k[0] + k[1] * k[1] + k[2] * k[2]
    h.lemma('k^2 vanishes at the zero mode only', imp(k2 == 0, conj(*[v == 0 for v in k])))
    h.eq('k^2 G = -1, zero at the zero mode', g * S(C.toreal(k2)), ite(k2 == 0, 0., -1.))
    h.prove('G = 0 at the zero mode', imp(k2 == 0, g == 0))


@suite.case('tidal operator')
def _(h):
    k = h.array('ki', (3,)); phi = h.real('phi')
    T = h.mod(GR)._TidalTensor()
    for i in range(3):
        for j in range(3):
            h.eq(f'{i}{j}', T.at_ki(k, phi, i, j), -1 * at(k, i) * at(k, j) * phi)


def callee(h, shape):
    wg, wc, gf = (z3.Function(t, R, R, R, R) for t in ('win_gauss', 'win_cic', 'green'))
    C.add_templ(wc, lambda app: [app > 0])
    # contract proved above: k^2 G = -1 except at the zero mode, where G = 0
    C.add_templ(gf, lambda app: [z3.If(z3.And(*[c == 0 for c in app.children()]), app == 0,
                                       app * sum([c * c for c in app.children()], z3.RealVal(0)) == -1)])

    def mk(f, tag):
        def fn(self, ki):
            CTX.used_contracts.add(tag)
            return S(f(*[C.toreal(at(ki, t)) for t in range(3)]))
        return fn
    h.mod(SM)._Gaussian.window_at_ki = mk(wg, SM + ':_Gaussian.window_at_ki')
    h.mod(MA)._LinearShapeFn.shape_at_ki_nd = mk(wc, MA + ':_LinearShapeFn.shape_at_ki_nd')
    h.mod(GR)._GreenFn3d.at_ki = mk(gf, GR + ':_GreenFn3d.at_ki')
    return wg, (wc if shape else (lambda *a: z3.RealVal(1))), gf


for shape in ('cic', False):
    for default in ((True, False) if shape == 'cic' else (False,)):
        @suite.case(f'run (correct_shape={shape}, default={default}): modes, tensor, eigenvalues')
        def _(h, shape=shape, default=default):
            fft = install(h)
            wg, wc, gf = callee(h, shape)
            F, data, n, L = field(h)
            d0 = data.snap()
            m = h.mod(GR)
            delta = h.array('delta', (n, n, n)); dl0 = delta.snap()

            def norm_(x):
                CTX.used_contracts.add(GR + ':TidalField._normalize')
                h.same_object('normalises the input field', x.buf, data.buf)
                return delta
            m.TidalField._normalize = staticmethod(norm_)
            r = h.real('r', lo=0)
            t = m.TidalField(r_sm=r) if default else m.TidalField(r_sm=r, correct_shape=shape)
            o = t.run(F)
            h.prove('one forward transform', len(fft.fwd) == 1)
            f, sh, norm, modes, m0 = fft.fwd[0]
            g = h.idx(n), h.idx(n), h.idx(n)
            ge = tuple(v.e for v in g)
            h.eq('forward transform of the overdensity', S(f(ge)), S(dl0(ge)))
            h.shape('of the whole grid', delta, sh)
            ix, k = modes_idx(h, n)
            e = tuple(v.e for v in ix); ke = [v.e for v in k]
            dsm = S(m0(e)) * S(wg(*ke)) / S(wc(*ke))
            h.eq('reported modes', at(o.delta_k, *ix), S(m0(e)))
            h.eq('smoothed modes', at(o.delta_sm_k, *ix), dsm)
            phi = at(o.phi_k, *ix)
            k2 = k[0] * k[0] + k[1] * k[1] + k[2] * k[2]
            D = h.real('D'); h.assume(D == at(o.delta_sm_k, *ix))
            h.lemma('potential from the smoothed modes', phi == D * S(gf(*ke)))
            nz = disj(*[v != 0 for v in k])
            h.prove('Poisson equation', imp(nz, k2 * phi == -1 * D))
            h.prove('zero mode of the potential', imp(conj(*[v == 0 for v in k]), phi == 0))
            # inverse transforms: the smoothed overdensity, then one per tensor entry
            h.prove('same normalisation everywhere', all(rec[2] == norm for rec in fft.inv))

            def inverse_of(arr_at, what):
                """the entry is the inverse transform of exactly these modes"""
                ok = [rec for rec in fft.inv if CTX.holds(C.tobool(S(rec[0](e)) == what))]
                return [rec for rec in ok if CTX.holds(C.tobool(arr_at == S(rec[4](ge))))]
            h.prove('smoothed overdensity is an inverse transform of its modes', len(inverse_of(at(o.delta_sm_x, *g), dsm)) >= 1)
            for rec in fft.inv:
                h.prove('inverse of all modes', conj(S(C.lift(rec[1][0])) == n, S(C.lift(rec[1][1])) == n, S(C.lift(rec[1][2])) == n // 2 + 1))
            h.shape('shapes', o.T_x, (n, n, n, 3, 3)); h.shape('shapes', o.delta_sm_x, (n, n, n)); h.shape('shapes', o.lam, (n, n, n, 3))
            P = h.real('P'); h.assume(P == phi)
            for i in range(3):
                for j in range(3):
                    Tij = at(o.T_x, *g, i, j)
                    h.prove(f'T[{i},{j}] has modes -k_i k_j phi', len(inverse_of(Tij, -1 * k[i] * k[j] * phi)) >= 1)
                    h.eq(f'T[{i},{j}] symmetric', Tij, at(o.T_x, *g, j, i))
            h.lemma('the modes of the trace are the smoothed overdensity modes',
                    imp(nz, -1 * (k[0] * k[0] + k[1] * k[1] + k[2] * k[2]) * P == D))
            lam = [at(o.lam, *g, q) for q in range(3)]
            h.prove('eigenvalues ascending', conj(lam[0] <= lam[1], lam[1] <= lam[2]))
            h.eq('eigenvalues sum to the trace', lam[0] + lam[1] + lam[2], sum([at(o.T_x, *g, q, q) for q in range(3)], 0))
            lo = h.mod(GR).np.linalg.eigvalsh(o.T_x)
            q = h.idx(3)
            h.eq('eigenvalues of the tensor', at(o.lam, *g, q), at(lo, *g, q))
            h.eq('reported density', at(o.rho_x, *g), S(d0(ge))); h.eq('reported overdensity', at(o.delta_x, *g), S(dl0(ge)))
            h.eq('grid', o.n_grids, n); h.eq('box', o.l_box, L)
            h.unchanged('input unchanged', data, d0)


@suite.case('the filter carries the requested radius and mesh')
def _(h):
    fft = install(h)
    F, data, n, L = field(h)
    m = h.mod(GR)
    r = h.real('r', lo=0)
    for shape in ('cic', False):
        seen = []
        m.TidalField._normalize = staticmethod(lambda x: x)
        m.TidalField._solve_grav = staticmethod(lambda dk, S_, sm: (seen.append((S_, sm)), (dk, dk))[1])
        m.TidalField._find_tidal_ij = staticmethod(lambda pk, i, j, mesh: pk)
        m.TidalField(r_sm=r, correct_shape=shape).run(F)
        S_, sm = seen[0]
        h.prove('filter kind', type(sm).__name__ == '_Gaussian')
        h.eq('radius', sm.r, r); h.eq('box', sm.mesh.l_box, L); h.eq('grid', sm.mesh.n_grids, n)
        h.prove('assignment window', type(S_).__name__ == ('_LinearShapeFn' if shape else '_NoneShapeFn'))
        if shape: h.eq('its grid', S_.mesh.n_grids, n)
        else: h.eq('no correction', S_.shape_at_ki_nd(h.array('ki', (3,))), 1)
    h.raises('unknown correction', AssertionError, lambda: m.TidalField(correct_shape='other'))


@suite.case('overdensity: density over mean minus one; independent of the normalisation; positive mean required')
def _(h):
    n = h.int('n', lo=1)
    rho = h.array('rho', (n, n, n)); r0 = rho.snap()
    f = h.mod(GR).TidalField._normalize
    total = h.nested(lambda *ix: at(rho, *ix), (n, n, n), R)
    mean = total / (S(C.toreal(n)) * S(C.toreal(n)) * S(C.toreal(n)))
    if CTX.branch(C.tobool(mean <= 0)):
        h.raises('refused', ValueError, lambda: f(rho))
        return
    h.assume(mean >= 1e-10)
    d = f(rho)
    i, j, k = h.idx(n), h.idx(n), h.idx(n)
    M = h.real('M'); h.assume(M == mean)
    h.eq('rho / mean - 1', at(d, i, j, k), at(rho, i, j, k) / M - 1)
    h.unchanged('input unchanged', rho, r0)
    c = h.real('c', gt=0)
    h.assume(c * M >= 1e-10)
    N = S(C.toreal(n)) * S(C.toreal(n)) * S(C.toreal(n))
    h.lemma('mean of the rescaled field', total * c / N == c * M)
    d2 = f(rho * c)
    h.eq('same overdensity', at(d2, i, j, k), at(d, i, j, k))
