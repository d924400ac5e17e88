"""Flat radiation-free cosmology (astro/cosmology/flat_lambda_cdm_nr.py)."""
from ..harness import *
suite = Suite()
CM = 'astro.cosmology.flat_lambda_cdm_nr'


def model(h, **kw):
    p = dict(hubble=h.real('hubble', gt=0), omega_m0=h.real('om', gt=0, hi=1), omega_b0=h.real('ob', gt=0),
             n_spec=h.real('ns'), sigma_8=h.real('s8', gt=0))
    h.assume(C.PI > 3)
    m = h.mod(CM)._FlatLambdaCDMNR(**p)
    return m, p


@suite.case('parameters are kept, flatness')
def _(h):
    m, p = model(h)
    for k, v in p.items(): h.eq(k, getattr(m, k), v)
    h.eq('flat', m.omega_l0, 1 - p['omega_m0'])
    h.eq('baryon fraction', m.baryon_fraction(), p['omega_b0'] / p['omega_m0'])
    h.prove('H0 of h = 1 in 1/Gyr', m.big_hubble0 == 0.1022712165045695)


@suite.case('expansion rate and fractions')
def _(h):
    m, p = model(h)
    z = h.real('z', gt=-1)
    om = p['omega_m0']
    e2 = h.real('e2')
    h.assume(e2 == (1 - om) + om * (1 + z) * (1 + z) * (1 + z))
    h.eq('E^2', m.efunc_sqr(z), e2)
    h.lemma('a cube', (1 + z) * (1 + z) * (1 + z) > 0)
    h.lemma('E^2 > 0', e2 > 0)
    E = m.efunc(z)
    h.prove('E is the positive root', conj(E >= 0, E * E == e2))
    H = m.big_hubble(z)
    h.eq('Hubble rate', H, m.big_hubble0 * E)
    h.eq('matter fraction', m.omega_m(z) * e2, om * (1 + z) * (1 + z) * (1 + z))
    h.eq('dark energy fraction', m.omega_l(z) * e2, 1 - om)
    h.eq('sum to one', m.omega_m(z) + m.omega_l(z), 1)
    h.eq('today: matter', m.omega_m(0.), om); h.eq('today: dark energy', m.omega_l(0.), 1 - om)
    h.eq('today: E', m.efunc_sqr(0.), 1)


@suite.case('redshift and scale factor')
def _(h):
    m, p = model(h)
    z, a = h.real('z', gt=-1), h.real('a', gt=0)
    h.eq('z to a', m.z2a(z) * (1 + z), 1)
    h.eq('a to z', (m.a2z(a) + 1) * a, 1)
    h.eq('there and back', m.a2z(m.z2a(z)), z)
    h.eq('and the other way', m.z2a(m.a2z(a)), a)


@suite.case('densities')
def _(h):
    m, p = model(h)
    z = h.real('z', gt=-1)
    d = m.densities()
    G = m.us.gravity_constant
    h.assume(m.big_hubble0 > 0)
    rc = h.real('rc')
    h.eq('critical density today', d.crit0() * (8 * S(C.PI) * G), 3 * m.big_hubble0 * m.big_hubble0)
    h.eq('critical density', d.crit(z), d.crit0() * m.efunc_sqr(z))
    h.eq('mean density today', d.mean0(), d.crit0() * p['omega_m0'])
    h.eq('mean density', d.mean(z), d.mean0() * (1 + z) * (1 + z) * (1 + z))


@suite.case('gravitational constant of the unit system')
def _(h):
    m, p = model(h)
    us, hb = m.us, p['hubble']
    c = h.mod('astro.quantity.unit_system')._Constants()
    h.eq('Mpc/h', us.u_length * hb, c.mpc_to_m)
    h.eq('Gyr/h', us.u_time * hb, c.gyr_to_s)
    h.eq('10^10 Msun/h', us.u_mass * hb, c.msun_to_kg * 1e10)
    h.prove('G > 0', us.gravity_constant > 0)


@suite.case('mass and radius of a mean-density sphere are inverse')
def _(h):
    m, p = model(h)
    d = m.densities()
    rho = h.real('rho', gt=0)
    Dn = h.mod(CM)._Densities

    def mean0(self):
        CTX.used_contracts.add(CM + ':_Densities.mean0')
        return rho
    Dn.mean0 = mean0
    r, M = h.real('r', gt=0), h.real('M', gt=0)
    h.eq('mass in a sphere', d.r_to_m(r), S(z3.Q(4, 3)) * S(C.PI) * r * r * r * rho)
    R_ = d.m_to_r(M)
    h.prove('radius positive', R_ > 0)
    RR = h.real('R'); h.assume(RR == R_)
    h.lemma('the sphere holds the mass', S(z3.Q(4, 3)) * S(C.PI) * RR * RR * RR * rho == M)
    h.eq('mass of the radius', d.r_to_m(R_), M)
    mm = h.real('mm'); h.assume(mm == d.r_to_m(r))
    q = h.real('q'); h.assume(q == d.m_to_r(mm))
    h.lemma('radius of the mass: positive', q >= 0)
    h.lemma('its cube', S(z3.Q(4, 3)) * S(C.PI) * q * q * q * rho == mm)
    h.lemma('equal cubes', q * q * q == r * r * r)
    h.eq('radius of the mass', q, r)


@suite.case('mean density is positive')
def _(h):
    m, p = model(h)
    h.prove('mean0 > 0', m.densities().mean0() > 0)
