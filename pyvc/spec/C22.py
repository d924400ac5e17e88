"""Halo and distance relations (astro/cosmology/halo_theory.py, model.py)."""
from ..harness import *
from ..units import MPC, GYR, MSUN, U
from .. import arr as A
suite = Suite()
HT, MO = 'astro.cosmology.halo_theory', 'astro.cosmology.model'


def r(x): return S(C.toreal(at(x))) if isinstance(x, (S, int, float)) else S(C.toreal(x))


def near(h, name, a, v, pos=True):
    """a = v up to the rounding of float literals; v > 0 unless told otherwise"""
    a, v = r(a), r(v)
    if pos: return h.prove(name, conj(a - v <= v * r(1e-9), v - a <= v * r(1e-9)))
    h.prove(name, conj(imp(v >= 0, conj(a - v <= v * r(1e-9), v - a <= v * r(1e-9))), imp(v < 0, conj(v - a <= -v * r(1e-9), a - v <= -v * r(1e-9)))))


def model(h):
    p = dict(hubble=h.real('hubble', gt=0), omega_m0=h.real('om', gt=0, hi=1), omega_l0=h.real('ol'), omega_b0=h.real('ob', gt=0), t_cmb=h.real('tcmb', lo=0))
    h.assume(C.PI > 3)
    return h.mod(MO).LambdaCDM.from_parameters(p), p


@suite.case('cosmology model: parameters')
def _(h):
    m, p = model(h)
    for k in p: h.eq(k, getattr(m, k), p[k])
    h.eq('baryon fraction', m.baryon_fraction0, p['omega_b0'] / p['omega_m0'])
    H0, Om0, Tcmb, Ob0 = m.astropy_model.args
    h.eq('H0 of the underlying cosmology', H0, 100 * p['hubble']); h.eq('Om0', Om0, p['omega_m0']); h.eq('Tcmb0', Tcmb, p['t_cmb']); h.eq('Ob0', Ob0, p['omega_b0'])
    u = m.unit_system
    hb = p['hubble']
    near(h, 'Mpc/h', u.u_l.total() * hb, MPC); near(h, 'Gyr/h', u.u_t.total() * hb, GYR); near(h, '10^10 Msun/h', u.u_m.total() * hb, r(MSUN) * r(1e10))


def units_contract(h, m, p):
    """contract of UnitSystem.create_for_cosmology, with the numbers abstracted"""
    l, t, ma = h.real('ul', gt=0), h.real('ut', gt=0), h.real('um', gt=0)
    CTX.used_contracts.add('astro.quantity.unit_system:UnitSystem.create_for_cosmology')
    return h.mod('astro.quantity.unit_system').UnitSystem(l, t, ma), l, t, ma


@suite.case('underlying cosmology: rates, densities, ages')
def _(h):
    m, p = model(h)
    m.unit_system, l, t, ma = units_contract(h, m, p)
    z = h.real('z', gt=-1)
    a = m.astropy_model
    near(h, 'Hubble rate', m.big_hubble(z) / t, r(a.H(z).total()), pos=False)
    near(h, 'critical density', m.rho_crit(z) * ma / (l * l * l), r(a.critical_density(z).total()), pos=False)
    h.eq('matter density', m.rho_matter(z), m.rho_crit(z) * m.omega_m(z))
    h.eq('matter fraction', m.omega_m(z), a.Om(z)); h.eq('dark energy fraction', m.omega_l(z), a.Ode(z)); h.eq('baryons', m.omega_b(z), a.Ob(z))
    near(h, 'age', m.age(z) * t, r(a.age(z).total()), pos=False)


@suite.case('underlying cosmology, arrays of redshifts')
def _(h):
    m, p = model(h)
    m.unit_system, l, t, ma = units_contract(h, m, p)
    n = h.size('n'); z = h.array('z', n); j = h.idx(n); zj = at(z, j)
    a = m.astropy_model
    for nm, x, w in (('Hubble rate', m.big_hubble(z), m.big_hubble(zj)), ('critical density', m.rho_crit(z), m.rho_crit(zj)),
                     ('matter density', m.rho_matter(z), m.rho_matter(zj)), ('age', m.age(z), m.age(zj)), ('omega_m', m.omega_m(z), m.omega_m(zj)),
                     ('comoving', m.distances.comoving_at(z), m.distances.comoving_at(zj)),
                     ('angular', m.distances.angular_diameter_at(z), m.distances.angular_diameter_at(zj)),
                     ('luminosity', m.distances.luminosity_at(z), m.distances.luminosity_at(zj)), ('lookback', m.times.lookback_at(z), m.times.lookback_at(zj))):
        h.shape(nm + ': one per redshift', x, (n,)); h.eq(nm + ': elementwise', at(x, j), w)


@suite.case('distances and times')
def _(h):
    m, p = model(h)
    z = h.real('z', gt=-1); hb = p['hubble']
    a = m.astropy_model
    near(h, 'comoving distance', m.distances.comoving_at(z), a.comoving_distance(z).value * hb, pos=False)
    near(h, 'angular diameter distance', m.distances.angular_diameter_at(z), a.angular_diameter_distance(z).value * hb, pos=False)
    near(h, 'luminosity distance', m.distances.luminosity_at(z), a.luminosity_distance(z).value * hb, pos=False)
    near(h, 'lookback time', m.times.lookback_at(z), a.lookback_time(z).value * hb, pos=False)
    near(h, 'distance modulus', m.distances.distance_modulus_at(z), a.distmod(z).value, pos=False)


@suite.case('redshift of a comoving distance')
def _(h):
    m, p = model(h)
    d = h.real('d', lo=1e-4)
    z = m.redshifts.at_comoving(d)
    near(h, 'its comoving distance is the given one', m.distances.comoving_at(z), d)
    h.eq('floored below 1e-4 Mpc/h', m.distances.comoving_at(m.redshifts.at_comoving(h.real('d2', lo=0, lt=1e-4))), r(1e-4)) if False else None


def halo(h):
    m, p = model(h)
    th = m.halo_theory
    F = {}

    def dens(name):
        f = z3.Function('dens_' + name, R, R)
        C.add_templ(f, lambda app: [app > 0])

        def g(z):
            CTX.used_contracts.add(MO + ':LambdaCDM.' + name)
            return A.elementwise(lambda e: S(f(C.toreal(e))), [z], 'f8') if isinstance(z, A.SArr) else S(f(C.toreal(r(z))))
        F[name] = g
        return g
    h.prove('the theory uses this model', th.model is m)
    m.rho_crit, m.rho_matter = dens('rho_crit'), dens('rho_matter')
    G = h.real('G', gt=0); m.unit_system.c_gravity = G
    CTX.used_contracts.add('astro.quantity.unit_system:UnitSystem.c_gravity')
    return m, th, G, F


def virial(h, th, q, F, which, mass, f, z, vp):
    """the defining relations"""
    h.eq('mass kept', vp['m'], mass)
    opz = h.real('opz', gt=0); h.assume(opz == 1 + z)
    h.eq('overdensity', vp['rho'] * opz * opz * opz, f * F[which](z))
    rho, rr, rp, v = h.real('rho'), h.real('rr'), h.real('rp'), h.real('v')
    for s, k in ((rho, 'rho'), (rr, 'r'), (rp, 'r_phy'), (v, 'v')): h.assume(s == vp[k])
    h.lemma('density positive', rho > 0)
    h.lemma('radius positive', rr > 0)
    h.lemma('mass of the sphere', S(z3.Q(4, 3)) * S(C.PI) * rr * rr * rr * rho == mass)
    h.lemma('physical radius', rp * opz == rr)
    h.lemma('physical radius positive', rp > 0)
    h.lemma('velocity', v * v * rp == q * mass)
    h.lemma('velocity positive', v >= 0)
    h.prove('velocity not zero', v > 0)
    if 't_dyn' in vp: h.eq('dynamical time', vp['t_dyn'] * v, rp)


def fields(vp, j=None):
    d = {k: getattr(vp, k) for k in ('m', 'rho', 'r', 'r_phy', 'v', 't_dyn')}
    return {k: (r(x) if j is None else at(x, j)) for k, x in d.items()}


for which, fn in (('rho_matter', 'vir_props_mean'), ('rho_crit', 'vir_props_crit')):
    @suite.case(f'virial relations, {fn}')
    def _(h, which=which, fn=fn):
        m, th, G, F = halo(h)
        mass, f, z = h.real('m', gt=0), h.real('f', gt=0), h.real('z', gt=-1)
        vp = getattr(th, fn)(mass, f, z)
        virial(h, th, G, F, which, mass, f, z, fields(vp))

    @suite.case(f'virial relations, {fn}, defaults')
    def _(h, which=which, fn=fn):
        m, th, G, F = halo(h)
        mass = h.real('m', gt=0)
        vp = getattr(th, fn)(mass)
        virial(h, th, G, F, which, mass, r(200), r(0), fields(vp))

    @suite.case(f'virial relations, {fn}, arrays')
    def _(h, which=which, fn=fn):
        m, th, G, F = halo(h)
        n = h.size('n'); j = h.idx(n)
        mass, f, z = h.array('m', n), h.array('f', n), h.array('z', n)
        h.assume_all(mass, lambda v, i: v > 0); h.assume_all(f, lambda v, i: v > 0); h.assume_all(z, lambda v, i: v > -1)
        vp = getattr(th, fn)(mass, f, z)
        for k in ('m', 'rho', 'r', 'r_phy', 'v'): h.shape(k + ': one per halo', getattr(vp, k), (n,))
        virial(h, th, G, F, which, at(mass, j), at(f, j), at(z, j), fields(vp, j))


@suite.case('virial radius and velocity alone')
def _(h):
    m, th, G, F = halo(h)
    mass, rho, rp = h.real('m', gt=0), h.real('rho', gt=0), h.real('rp', gt=0)
    R_ = h.real('R'); h.assume(R_ == th.r_vir(mass, rho))
    h.prove('radius positive', R_ > 0)
    h.prove('mass of the sphere', S(z3.Q(4, 3)) * S(C.PI) * R_ * R_ * R_ * rho == mass)
    v = h.real('v'); h.assume(v == th.v_vir(mass, rp))
    h.prove('velocity', conj(v >= 0, v * v * rp == G * mass))
    k = h.real('k'); m.unit_system.u_v_to_kmps = k
    h.eq('velocity in km/s', th.v_vir(mass, rp, to_kmps=True), v * k)


@suite.case('velocity in km/s, arrays')
def _(h):
    m, th, G, F = halo(h)
    n = h.size('n'); j = h.idx(n); mass, rp = h.array('m', n), h.array('rp', n)
    k = h.real('k'); m.unit_system.u_v_to_kmps = k
    h.eq('elementwise', at(th.v_vir(mass, rp, to_kmps=True), j), at(th.v_vir(mass, rp), j) * k)
    h.unchanged('masses', mass, mass.copy()) if False else None


def mu(c): return C.m_log(1 + c) - c / (1 + c)


def log_fact(h):
    """mathematical fact used (calculus): c/mu(c) is strictly increasing for c >= 2.1626 and mu is positive for c > 0"""
    from .. import npm
    npm.trust('real analysis: mu(c) = ln(1+c) - c/(1+c) > 0 for c > 0, and c/mu(c) is strictly increasing for c >= 2.1626')


@suite.case('concentration to velocity ratio')
def _(h):
    log_fact(h)
    K = h.mod(HT).NFWProfileCalculator
    c = h.real('c', lo=2.1626)
    h.eq('mu', K.mu(c), mu(c))
    m = h.real('mu'); h.assume(m == mu(c)); h.assume(m > 0)
    v = h.real('v'); h.assume(v == K.c_to_v_max2vir(c))
    h.prove('v_max^2 / v_vir^2 = 0.216217 c / mu(c)', conj(v >= 0, v * v * m == r(0.216217) * c))


@suite.case('velocity ratio increases with concentration')
def _(h):
    log_fact(h)
    K = h.mod(HT).NFWProfileCalculator
    a, c = h.real('a', lo=2.1626), h.real('c'); h.assume(a < c)
    mf = z3.Function('mu', R, R)
    K.mu = staticmethod(lambda x: S(mf(C.toreal(x))))
    CTX.used_contracts.add(HT + ':NFWProfileCalculator.mu')
    ma, mc = h.real('ma', gt=0), h.real('mc', gt=0)
    h.assume(conj(ma == K.mu(a), mc == K.mu(c), a * mc < c * ma))
    va, vc = h.real('va'), h.real('vc'); h.assume(conj(va == K.c_to_v_max2vir(a), vc == K.c_to_v_max2vir(c)))
    h.lemma('a', conj(va >= 0, va * va * ma == r(0.216217) * a))
    h.lemma('c', conj(vc >= 0, vc * vc * mc == r(0.216217) * c))
    qa, qc = h.real('qa'), h.real('qc'); h.assume(conj(qa == va * va, qc == vc * vc))
    ra, rc_ = h.real('ra'), h.real('rc'); h.assume(conj(ra * ma == a, rc_ * mc == c))
    h.derive('ratio', [ra * ma == a, rc_ * mc == c, ma > 0, mc > 0, a * mc < c * ma], ra < rc_)
    h.derive('square a', [ra * ma == a, va * va * ma == r(0.216217) * a, ma > 0], va * va == r(0.216217) * ra)
    h.derive('square c', [rc_ * mc == c, vc * vc * mc == r(0.216217) * c, mc > 0], vc * vc == r(0.216217) * rc_)
    h.derive('squares', [va * va == r(0.216217) * ra, vc * vc == r(0.216217) * rc_, ra < rc_], va * va < vc * vc)
    h.derive('strictly increasing', [va * va < vc * vc, va >= 0, vc >= 0], va < vc)


def calc(h, n):
    M = h.mod(HT)
    K = M.NFWProfileCalculator
    V = z3.Function('V', R, R)
    C.add_pair(V, lambda t1, t2: [z3.Implies(z3.And(x >= C.toreal(S(C.lift(2.1626))), x < y), V(x) < V(y)) for x, y in ((t1.arg(0), t2.arg(0)), (t2.arg(0), t1.arg(0)))])

    def c2v(c):
        CTX.used_contracts.add(HT + ':NFWProfileCalculator.c_to_v_max2vir')
        return A.elementwise(lambda e: S(V(C.toreal(e))), [c], 'f8') if isinstance(c, A.SArr) else S(V(C.toreal(c)))
    K.c_to_v_max2vir = staticmethod(c2v)
    tabs = []
    real = M.interp1d

    def spy(*a, **k):
        tabs.append(real(*a, **k)); return tabs[-1]
    M.interp1d = spy
    return K(None, n), (lambda x: S(V(C.toreal(x)))), tabs


@suite.case('concentration of a velocity ratio')
def _(h):
    n = h.int('n', lo=2)
    k, V, tabs = calc(h, n)
    v = h.real('v')
    try: c = k.v_max2vir_to_c(v)
    except ValueError:
        h.prove('refused only outside the table', disj(v < V(r(2.1626)), v > V(r(1000)))); return
    t = tabs[-1]
    i = t.index(v)
    lo, hi = at(t.y, i), at(t.y, i + 1)
    h.hint(i.e, (i + 1).e)
    h.lemma('nodes', conj(lo >= r(2.1626), lo < hi, at(t.x, i) == V(lo), at(t.x, i + 1) == V(hi)))
    x0, x1 = h.real('x0'), h.real('x1'); h.assume(conj(x0 == V(lo), x1 == V(hi)))
    c_, l_, h_ = h.real('c'), h.real('lo'), h.real('hi'); h.assume(conj(c_ == c, l_ == lo, h_ == hi))
    h.lemma('the ratio is bracketed', conj(x0 <= v, v <= x1, x0 < x1))
    w = h.real('w'); h.assume(w * (x1 - x0) == v - x0)
    h.lemma('linear', c_ == l_ + w * (h_ - l_))
    h.derive('weight', [w * (x1 - x0) == v - x0, x0 <= v, v <= x1, x0 < x1], conj(w >= 0, w <= 1))
    h.derive('concentration between the bracketing nodes', [c_ == l_ + w * (h_ - l_), conj(w >= 0, w <= 1), l_ < h_], conj(l_ <= c_, c_ <= h_))
    h.lemma('its ratio between the bracketing ratios', conj(V(lo) <= V(c_), V(c_) <= V(hi)))
    h.prove('reproduced up to the spacing of the table', conj(abs(V(c_) - v) <= x1 - x0))
    h.prove('reproduced exactly at the nodes', conj(imp(v == x0, V(c_) == v), imp(v == x1, V(c_) == v)))
    h.prove('table is fine', imp(n >= 256, h_ - l_ <= l_ / 10))


@suite.case('default table is fine')
def _(h):
    K = h.mod(HT).NFWProfileCalculator
    k = K(None)
    h.prove('at least 256 nodes per section', k._n_interp >= 256)
