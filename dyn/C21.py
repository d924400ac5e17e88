"""Executable contracts: flat radiation-free cosmology."""
import numpy as np
from dyn.fw import *
from pyhipp.astro.cosmology import flat_lambda_cdm_nr as FM


def model(r):
    p = dict(hubble=r.pos(.3, 1.5), omega_m0=r.pick([r.pos(.05, 1.), .3, 1.]), omega_b0=r.pos(.01, .1), n_spec=r.real(.8, 1.1), sigma_8=r.pos(.5, 1.2))
    r.note(**p)
    return FM._FlatLambdaCDMNR(p['hubble'], p['omega_m0'], p['omega_b0'], p['n_spec'], p['sigma_8']), p


def rel(a, b, msg, tol=1e-10): ensure(abs(a - b) <= tol * (abs(a) + abs(b) + 1e-300), msg, a, b)


def redshift(r): return r.pick([0., 1., r.real(0, 20), r.pos(1e-3, 1e3), max(-.9, r.real(-.9, 0))])


@contract('background')
def _(r):
    m, p = model(r)
    for k, v in p.items(): ensure(getattr(m, k) == v, k)
    z = redshift(r); r.note(z=z)
    om = p['omega_m0']
    e2 = 1 - om + om * (1 + z) ** 3
    ensure(abs(m.omega_l0 - (1 - om)) < 1e-14, 'flatness')
    rel(m.efunc_sqr(z), e2, 'E^2'); rel(m.efunc(z), np.sqrt(e2), 'E')
    rel(m.omega_m(z), om * (1 + z) ** 3 / e2, 'matter fraction')
    ensure(abs(m.omega_l(z) - (1 - om) / e2) < 1e-12, 'dark energy fraction')
    ensure(abs(m.omega_l(z) + m.omega_m(z) - 1) < 1e-12, 'sum')
    rel(m.big_hubble(z), 0.1022712165045695 * np.sqrt(e2), 'Hubble rate')
    rel(m.z2a(z), 1 / (1 + z), 'z to a'); ensure(abs(m.a2z(m.z2a(z)) - z) < 1e-9 * (1 + z), 'and back')
    a = r.pos(1e-3, 10); rel(m.z2a(m.a2z(a)), a, 'a to z and back', 1e-9)
    rel(m.baryon_fraction(), p['omega_b0'] / om, 'baryon fraction')


@contract('densities')
def _(r):
    m, p = model(r)
    z = redshift(r); r.note(z=z)
    d = m.densities()
    # G in (Mpc/h)^3 (Gyr/h)^-2 (1e10 Msun/h)^-1
    G = 6.6743e-11 / ((3.085677581491367e+22) ** 3 / 3.15576e+16 ** 2 / (1.988409870698051e+40))
    rel(m.us.gravity_constant, G, 'G', 1e-8)
    rc = 3 * 0.1022712165045695 ** 2 / (8 * np.pi * G)
    e2 = 1 - p['omega_m0'] + p['omega_m0'] * (1 + z) ** 3
    rel(d.crit0(), rc, 'critical density today', 1e-8); rel(d.crit(z), rc * e2, 'critical density', 1e-8)
    rel(d.mean0(), rc * p['omega_m0'], 'mean density today', 1e-8); rel(d.mean(z), rc * p['omega_m0'] * (1 + z) ** 3, 'mean density', 1e-8)
    R = r.pos(1e-3, 1e3); M = r.pos(1e-5, 1e8)
    r.note(R=R, M=M)
    rel(d.r_to_m(R), 4 / 3 * np.pi * R ** 3 * rc * p['omega_m0'], 'enclosed mass', 1e-8)
    rel(d.m_to_r(d.r_to_m(R)), R, 'radius of the mass', 1e-9); rel(d.r_to_m(d.m_to_r(M)), M, 'mass of the radius', 1e-9)
