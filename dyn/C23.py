"""Executable contracts: unit systems (values compared with the installed astropy)."""
import numpy as np
from dyn.fw import *
import astropy.units as u, astropy.constants as c
from pyhipp.astro.quantity import unit_system as US
from pyhipp.astro.cosmology import flat_lambda_cdm_nr as FM


def rel(a, b, msg, tol=1e-9):
    ensure(np.isfinite(a) and abs(a - b) <= tol * (abs(a) + abs(b)), msg, a, b)


def base(r): return r.pos(1e-3, 1e24), r.pos(1e-3, 1e18), r.pos(1e-3, 1e42)


def check_general(s, l, t, m):
    for nm, want in dict(u_l=l * u.m, u_t=t * u.s, u_m=m * u.kg, u_v=l / t * u.m / u.s, u_e=m * (l / t) ** 2 * u.J,
                         u_power=m * (l / t) ** 2 / t * u.W, u_angular_momentum=m * l * l / t * u.J * u.s,
                         u_gravity_constant=l ** 3 / t ** 2 / m * u.m ** 3 / u.s ** 2 / u.kg, u_density=m / l ** 3 * u.kg / u.m ** 3,
                         u_big_hubble=1 / t / u.s).items():
        rel(getattr(s, nm).to_value(want.unit), want.value, nm)
    for nm, want, unit in (('c_gravity', c.G.si.value, s.u_gravity_constant), ('c_light_speed', c.c.si.value, s.u_v), ('c_m_p', c.m_p.si.value, s.u_m),
                           ('c_h_planck', c.h.si.value, s.u_angular_momentum), ('c_m_sun', u.Msun.to('kg'), s.u_m)):
        rel(getattr(s, nm) * unit.si.value, want, nm)
    for nm, x, k in (('u_l_to_pc', s.u_l, u.pc), ('u_t_to_yr', s.u_t, u.yr), ('u_m_to_sol', s.u_m, u.Msun), ('u_v_to_kmps', s.u_v, u.km / u.s),
                     ('u_e_to_erg', s.u_e, u.erg), ('u_power_to_ergps', s.u_power, u.erg / u.s)):
        rel(getattr(s, nm), x.to_value(k), nm)


def check_compiled(s, l, t, m, T=None):
    rel(s.u_length, l, 'length'); rel(s.u_time, t, 'time'); rel(s.u_mass, m, 'mass')
    if T is not None: rel(s.u_temperature, T, 'temperature')
    rel(s.u_velocity, l / t, 'velocity'); rel(s.u_density, m / l ** 3, 'density'); rel(s.u_gravity_constant, l ** 3 / t ** 2 / m, 'unit of G')
    rel(s.u_big_hubble, 1 / t, 'rate'); rel(s.u_velocity_in_kmps, l / t / 1e3, 'km/s')
    rel(s.gravity_constant * s.u_gravity_constant, c.G.si.value, 'G'); rel(s.light_speed * s.u_velocity, c.c.si.value, 'c')
    rel(s.proton_mass * m, c.m_p.si.value, 'proton mass'); rel(s.solar_mass * m, u.Msun.to('kg'), 'solar mass')
    rel(s.pc * l, u.pc.to('m'), 'pc'); rel(s.yr * t, u.yr.to('s'), 'yr'); rel(s.salpeter_time * t, 450.49 * u.Myr.to('s'), 'Salpeter time')


@contract('general')
def _(r):
    l, t, m = base(r); r.note(l=l, t=t, m=m)
    check_general(US.UnitSystem(l, t, m), l, t, m)


@contract('compiled')
def _(r):
    l, t, m = base(r); T = r.pos(); r.note(l=l, t=t, m=m, T=T)
    s = US._UnitSystem(l, t, m, T)
    check_compiled(s, l, t, m, T)
    g = US.UnitSystem(l, t, m)
    rel(s.gravity_constant, g.c_gravity, 'G agrees'); rel(s.light_speed, g.c_light_speed, 'c agrees'); rel(s.solar_mass, g.c_m_sun, 'Msun agrees')
    rel(s.proton_mass, g.c_m_p, 'm_p agrees'); rel(s.u_velocity_in_kmps, g.u_v_to_kmps, 'km/s agrees')


@contract('cosmological')
def _(r):
    h = r.pos(.1, 2); r.note(h=h)
    l, t, m = u.Mpc.to('m') / h, u.Gyr.to('s') / h, 1e10 * u.Msun.to('kg') / h
    check_general(US.UnitSystem.create_for_cosmology(h), l, t, m)
    check_compiled(FM._make_us_for_cosmology(h), l, t, m)
    check_compiled(FM._FlatLambdaCDMNR(h, .3, .05, 1., .8).us, l, t, m)


@contract('constants', .1)
def _(r):
    s = US._Constants()
    for nm, v in dict(pc_to_m=u.pc.to('m'), kpc_to_m=u.kpc.to('m'), mpc_to_m=u.Mpc.to('m'), yr_to_s=u.yr.to('s'), kyr_to_s=u.kyr.to('s'), myr_to_s=u.Myr.to('s'),
                      gyr_to_s=u.Gyr.to('s'), msun_to_kg=u.Msun.to('kg'), solar_mass=u.Msun.to('kg'), light_speed=c.c.si.value, proton_mass=c.m_p.si.value,
                      gravity_constant=c.G.si.value, salpeter_time=450.49 * u.Myr.to('s')).items():
        rel(getattr(s, nm), v, nm)
