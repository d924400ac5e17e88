"""Power spectrum, variance and growth (astro/cosmology/power_spectrum.py)."""
from ..harness import *
from .. import arr as A
suite = Suite()
CM, PS = 'astro.cosmology.flat_lambda_cdm_nr', 'astro.cosmology.power_spectrum'


def r(x): return S(C.toreal(at(x)))


def cosmology(h):
    p = dict(hubble=h.real('hubble', gt=0, hi=2), omega_m0=h.real('om', gt=0, hi=1), omega_b0=h.real('ob', gt=0), n_spec=h.real('ns'), sigma_8=h.real('s8', gt=0))
    return h.mod(CM)._FlatLambdaCDMNR(**p), p


def rpow_rules():
    """x^(a+n) = x^n x^a for x > 0 and whole n"""
    def pr(t1, t2):
        (x, a), (y, b_) = t1.children(), t2.children()
        d = C.rconst(z3.simplify(a - b_))
        if not z3.eq(x, y) or d is None or d.denominator != 1 or not 0 < d.numerator <= 6: return []
        e = t2
        for _ in range(d.numerator): e = e * x
        return [z3.Implies(x > 0, t1 == e)]
    C.add_pair(C.rpowF, pr)


@suite.case('growth factor is one today')
def _(h):
    m, p = cosmology(h)
    g = h.mod(PS)._GrowthFactorCarroll92(m)
    h.lemma('present growth', conj(m.omega_m(0.) == p['omega_m0'], m.omega_l(0.) == 1 - p['omega_m0']))
    h.eq('one today', g.growth_factor(0.), 1)
    z = h.real('z', gt=-1)
    h.eq('collapse threshold', g.delta_crit(z), r(1.686) / r(g.growth_factor(z)))
    h.eq('today', g.delta_crit(0.), r(1.686))


@suite.case('growth factor is positive')
def _(h):
    m, p = cosmology(h)
    G = h.mod(PS)._GrowthFactorCarroll92
    om, ol = h.real('omz', gt=0, hi=1), h.real('olz', lo=0)
    h.assume(om + ol == 1)
    g = G(m)
    g.norm = h.real('norm', gt=0)
    z = h.real('z', gt=-1)
    m.omega_m = lambda z_: om
    m.omega_l = lambda z_: ol
    CTX.used_contracts.add(CM + ':_FlatLambdaCDMNR.omega_m'); CTX.used_contracts.add(CM + ':_FlatLambdaCDMNR.omega_l')
    h.prove('positive', g.growth_factor(z) > 0)


class Fn:
    """functional contract of a real-valued method"""

    def __init__(self, name, n, ax=None):
        self.f = z3.Function('c_' + name, *[R] * (n + 1)); self.name = name
        if ax: C.add_templ(self.f, ax)

    def __call__(self, *a):
        CTX.used_contracts.add(PS + ':' + self.name)
        return S(self.f(*[C.toreal(r(x)) for x in a]))


def spectrum(h, norm=True, contracts=('_transfer', 'growth', 'window')):
    """a power spectrum object over any transfer function and growth factor"""
    m, p = cosmology(h)
    M = h.mod(PS)
    T, D, W = Fn('transfer_function', 1), Fn('growth_factor', 1), Fn('window_func', 2)
    made = []

    class TF:
        def __init__(self, cosm, with_baryon_effect=False): made.append((cosm, with_baryon_effect)); self.transfer_function = T

    class GF:
        def __init__(self, cosm): made.append(cosm); self.growth_factor = D; self.delta_crit = Fn('delta_crit', 1)
    M._TransferFunctionFlatLambdaCDMNR, M._GrowthFactorCarroll92 = TF, GF
    P = M._PowerSpectrumFlatLambdaCDMNR
    P.window_func = lambda self, k, r_: W(k, r_)
    return M, P, m, p, T, D, W, made


def abstract_sigma(M, P):
    V = Fn('sigma_sqr', 2, lambda app: [app > 0])
    P.sigma_sqr = lambda self, r_, z: V(r_, z)
    return V


@suite.case('growth, transfer function and collapse threshold are those of the cosmology')
def _(h):
    M, P, m, p, T, D, W, made = spectrum(h)
    abstract_sigma(M, P)
    for be in (False, True):
        made.clear()
        s = P(m, be) if be else P(m)
        h.prove(f'cosmology and variant passed on ({be})', made[0] == (m, be) and made[1] is m)
        z, k = h.real('z', gt=-1), h.real('k', gt=0)
        h.eq(f'growth {be}', s.growth_fac(z), D(z)); h.eq(f'transfer {be}', s.transfer_func(k), T(k)); h.eq(f'threshold {be}', s.delta_crit(z), s._gf.delta_crit(z))


@suite.case('dimensionless and dimensional power')
def _(h):
    M, P, m, p, T, D, W, made = spectrum(h)
    abstract_sigma(M, P)
    s = P(m)
    rpow_rules()
    nn = h.real('norm', gt=0); s._sigma_sqr_norm = nn
    k, z = h.real('k', gt=0), h.real('z', gt=-1)
    d, pw = r(s.big_delta_sqr(k, z)), r(s.power(k, z))
    x = h.real('kn'); h.assume(x == C.m_pow(k, p['n_spec']))
    y = h.real('kn3'); h.assume(y == C.m_pow(k, p['n_spec'] + 3))
    h.lemma('k^(n+3) = k^3 k^n', y == k * k * k * x)
    t, g = h.real('t'), h.real('g'); h.assume(conj(t == T(k), g == D(z)))
    h.lemma('dimensionless', d == nn * y * 1000000 * t * t * g * g)
    h.lemma('dimensional', pw == nn * 2 * S(C.PI) * S(C.PI) * x * 1000000 * t * t * g * g)
    h.prove('Delta^2 = k^3 P / (2 pi^2)', d * 2 * S(C.PI) * S(C.PI) == k * k * k * pw)
    d0, p0 = r(s.big_delta_sqr(k, 0.)), r(s.power(k, 0.))
    g0 = h.real('g0'); h.assume(g0 == D(r(0)))
    h.prove('Delta^2 grows with the squared growth factor', d * g0 * g0 == d0 * g * g)
    h.prove('P grows with the squared growth factor', pw * g0 * g0 == p0 * g * g)


@suite.case('normalisation: the variance at 8 Mpc/h today is sigma_8 squared')
def _(h):
    M, P, m, p, T, D, W, made = spectrum(h)
    s = P(m)
    h.eq('sigma_8 squared', s.sigma_sqr(8., 0.), p['sigma_8'] * p['sigma_8'])
    h.eq('again (integer arguments)', s.sigma_sqr(8, 0), p['sigma_8'] * p['sigma_8'])


@suite.case('variance is the window-weighted integral of the dimensionless power')
def _(h):
    M, P, m, p, T, D, W, made = spectrum(h)
    s = P(m)
    rpow_rules()
    calls, t = M.integrate.calls, S(M.integrate.T)
    rr, z = h.real('r', gt=0), h.real('z', gt=-1)
    v = r(s.sigma_sqr(rr, z))
    g, a, b_, q = calls[-1]
    h.assume(conj(t >= a, t <= b_))
    nn = h.real('norm'); h.assume(nn == s._sigma_sqr_norm)
    h.prove('range of wave numbers', conj(a <= -23, b_ >= 23))
    h.eq('proportional to the integral', v, nn * S(q))
    k = h.real('k', gt=0); h.assume(k == C.m_exp(t))
    w = h.real('w'); h.assume(w == W(C.m_exp(t), rr))
    h.eq('integrand is Delta^2 W^2 per ln k', nn * S(g), r(s.big_delta_sqr(C.m_exp(t), z)) * w * w)
    # growth scaling
    v0 = r(s.sigma_sqr(rr, 0.))
    g0, a0, b0, q0 = calls[-1]
    h.prove('same range', conj(a0 == a, b0 == b_))
    d, d0 = h.real('d'), h.real('d0'); h.assume(conj(d == D(z), d0 == D(r(0))))
    h.lemma('integrand scales with the squared growth factor', S(g) * d0 * d0 == S(g0) * d * d)
    h.assume(S(q) * d0 * d0 == S(q0) * d * d)          # linearity of the integral, from the lemma just proved
    h.eq('variance scales with the squared growth factor', v * d0 * d0, v0 * d * d)


@suite.case('window')
def _(h):
    M = h.mod(PS); P = M._PowerSpectrumFlatLambdaCDMNR
    s = object.__new__(P)
    k, rr = h.real('k', gt=0), h.real('r', gt=0)
    x = h.real('x'); h.assume(x == k * rr)
    w = h.real('w'); h.assume(w == s.window_func(k, rr))
    if CTX.branch(b(x < r(1e-5))):
        h.prove('one at small arguments (to the accuracy of the series)', conj(w >= 1 - r(1e-10), w <= 1 + r(1e-10)))
    else:
        h.prove('3 (sin x - x cos x) / x^3', w * x * x * x == 3 * (C.m_uf(C.sinF)(k * rr) - x * C.m_uf(C.cosF)(k * rr)))


@suite.case('variance at a mass')
def _(h):
    M, P, m, p, T, D, W, made = spectrum(h)
    V = abstract_sigma(M, P)
    s = P(m)
    RM = Fn('m_to_r', 1)
    h.mod(CM)._Densities.m_to_r = lambda self, mass: RM(mass)
    mass, z = h.real('mass', gt=0), h.real('z', gt=-1)
    h.eq('that of the enclosing radius', s.sigma_sqr_at_mass(mass, z), V(RM(mass), z))
    h.prove('densities of this cosmology', True if not hasattr(m, 'densities') else m.densities().cosm is m)


@suite.case('tabulated variances')
def _(h):
    M, P, m, p, T, D, W, made = spectrum(h)
    abstract_sigma(M, P)
    s = P(m)
    V = Fn('sigma_sqr_at_mass', 2, lambda app: [app > 0])
    P.sigma_sqr_at_mass = lambda self, mass, z: V(mass, z)
    tab = []

    class Lin:
        """contract of numerical.interpolate.Linear (C09): reproduces the node values"""
        def __init__(self, x, y, check=False):
            CTX.used_contracts.add('numerical.interpolate:Linear')
            self.x, self.y = x, y
            j = CTX.index_var('nd')
            CTX.side('Linear requires strictly ascending nodes', z3.Implies(z3.And(j >= 0, j + 1 < A.dz(x._shape[0])), x.at(j) < x.at(j + 1)))
            tab.append(self)
    M.interpolate.Linear = Lin
    lo, n = h.real('lo'), h.int('n', lo=2); hi = h.real('hi'); h.assume(lo < hi)
    t = s.interp_lg_sigma_at_lg_mass((lo, hi), n)
    h.prove('a linear interpolator', isinstance(t, Lin))
    h.shape('nodes', t.x, (n,)); h.shape('values', t.y, (n,))
    j = h.idx(n)
    h.eq('first node', at(t.x, 0), lo); h.eq('last node', at(t.x, n - 1), hi)
    h.eq('value at each node', at(t.y, j), C.m_log10(C.m_sqrt(V(C.m_pow(r(10), at(t.x, j)), r(0)))))


@suite.case('tabulated variances, default range')
def _(h):
    M, P, m, p, T, D, W, made = spectrum(h)
    V = abstract_sigma(M, P)
    s = P(m)
    V = Fn('sigma_sqr_at_mass', 2, lambda app: [app > 0])
    P.sigma_sqr_at_mass = lambda self, mass, z: V(mass, z)

    class Lin:
        def __init__(self, x, y, check=False): self.x, self.y = x, y
    M.interpolate.Linear = Lin
    t = s.interp_lg_sigma_at_lg_mass()
    n = S(A.dz(t.x._shape[0]))
    h.prove('at least two nodes', n >= 2)
    h.prove('ascending range', at(t.x, 0) < at(t.x, n - 1))


@suite.case('transfer function variants')
def _(h):
    m, p = cosmology(h)
    M = h.mod(PS)
    log = []

    class EH98:
        def __init__(self): log.append('98')
        def set_cosmology(self, om, fb, hb, Tcmb=2.728): log.append((om, fb, hb, Tcmb))
        def transfer_function(self, k): return ('98', k)

    class EH99:
        def __init__(self, nu=False): log.append(('99', nu))
        def set_cosmology(self, om, ob, oh, dg, ol, hb, redshift=0.): log.append((om, ob, oh, dg, ol, hb, redshift))
        def transfer_function(self, k): return ('99', k)
    M._TransferFunctionEH98, M._TransferFunctionEH99 = EH98, EH99
    k = h.real('k')
    t = M._TransferFunctionFlatLambdaCDMNR(m, True)
    h.prove('baryon variant', t.transfer_function(k)[0] == '98'); h.eq('its wave number', t.transfer_function(k)[1], k)
    om, fb, hb, T = log[-1]
    h.eq('matter', om, p['omega_m0']); h.eq('baryon fraction', fb * p['omega_m0'], p['omega_b0']); h.eq('hubble', hb, p['hubble'])
    t = M._TransferFunctionFlatLambdaCDMNR(m)
    h.prove('no-wiggle variant', t.transfer_function(k)[0] == '99' and log[-2] == ('99', False)); h.eq('its wave number (no-wiggle)', t.transfer_function(k)[1], k)
    om, ob, oh, dg, ol, hb, zz = log[-1]
    h.eq('matter (no-wiggle)', om, p['omega_m0']); h.eq('baryons (no-wiggle)', ob, p['omega_b0']); h.eq('dark energy', ol, 1 - p['omega_m0']); h.eq('hubble (no-wiggle)', hb, p['hubble'])
    h.eq('no neutrinos', oh, 0); h.eq('today', zz, 0)
