"""Unit systems (astro/quantity/unit_system.py)."""
from ..harness import *
from ..units import MPC, GYR, MSUN, U
suite = Suite()
US, CM = 'astro.quantity.unit_system', 'astro.cosmology.flat_lambda_cdm_nr'
SI = dict(G=6.6743e-11, c=299792458., m_p=1.67262192369e-27, h=6.62607015e-34)


def base(h): return h.real('l', gt=0), h.real('t', gt=0), h.real('m', gt=0)


def r(x): return S(C.toreal(x))


def near(h, name, a, v):
    """a = v up to the rounding of float literals (the code folds them in floating point); v > 0"""
    a, v = r(a), r(v)
    h.prove(name, conj(a - v <= v * r(1e-9), v - a <= v * r(1e-9)))


def quantity(h, name, q, dims, value):
    """a quantity of these dimensions and this SI value"""
    h.prove(name + ': dimension', tuple(q.dims) == dims)
    h.eq(name + ': SI value', r(q.total()), value)


def check_general(h, s, l, t, m, tag=''):
    for nm, d, v in (('u_l', (1, 0, 0, 0), l), ('u_t', (0, 1, 0, 0), t), ('u_m', (0, 0, 1, 0), m), ('u_v', (1, -1, 0, 0), l / t),
                     ('u_e', (2, -2, 1, 0), m * l * l / (t * t)), ('u_power', (2, -3, 1, 0), m * l * l / (t * t * t)),
                     ('u_angular_momentum', (2, -1, 1, 0), m * l * l / t), ('u_gravity_constant', (3, -2, -1, 0), l * l * l / (t * t * m)),
                     ('u_density', (-3, 0, 1, 0), m / (l * l * l)), ('u_big_hubble', (0, -1, 0, 0), 1 / t)):
        quantity(h, tag + nm, getattr(s, nm), d, v)
    for nm, v, unit in (('c_gravity', SI['G'], l * l * l / (t * t * m)), ('c_light_speed', SI['c'], l / t), ('c_m_p', SI['m_p'], m),
                        ('c_h_planck', SI['h'], m * l * l / t), ('c_m_sun', MSUN, m)):
        near(h, tag + nm + ' times its unit is the SI value', r(getattr(s, nm)) * unit, r(v))
    for nm, v, k in (('u_l_to_pc', l, MPC / 1e6), ('u_t_to_yr', t, GYR / 1e9), ('u_m_to_sol', m, MSUN), ('u_v_to_kmps', l / t, 1e3),
                     ('u_e_to_erg', m * l * l / (t * t), 1e-7), ('u_power_to_ergps', m * l * l / (t * t * t), 1e-7)):
        near(h, tag + nm, r(getattr(s, nm)) * r(k), v)


def check_compiled(h, s, l, t, m, T, tag=''):
    for nm, v in (('u_length', l), ('u_time', t), ('u_mass', m), ('u_temperature', T), ('u_velocity', l / t), ('u_density', m / (l * l * l)),
                  ('u_gravity_constant', l * l * l / (t * t * m)), ('u_big_hubble', 1 / t), ('u_velocity_in_kmps', l / t / 1000)):
        near(h, tag + nm, r(getattr(s, nm)), r(v))
    for nm, v, unit in (('gravity_constant', SI['G'], l * l * l / (t * t * m)), ('light_speed', SI['c'], l / t), ('proton_mass', SI['m_p'], m),
                        ('solar_mass', MSUN, m), ('pc', r(MPC) / 1000000, l), ('yr', r(GYR) / 1000000000, t), ('salpeter_time', r(450.49) * r(GYR) / 1000, t)):
        near(h, tag + nm + ' times its unit is the SI value', r(getattr(s, nm)) * unit, r(v))


@suite.case('general unit system')
def _(h):
    l, t, m = base(h)
    check_general(h, h.mod(US).UnitSystem(l, t, m), l, t, m)


@suite.case('compiled unit system')
def _(h):
    l, t, m = base(h); T = h.real('T', gt=0)
    check_compiled(h, h.mod(US)._UnitSystem(l, t, m, T), l, t, m, T)


@suite.case('compiled and general implementation agree')
def _(h):
    l, t, m = base(h)
    a, g = h.mod(US)._UnitSystem(l, t, m, 1.), h.mod(US).UnitSystem(l, t, m)
    for x, y in (('gravity_constant', 'c_gravity'), ('light_speed', 'c_light_speed'), ('solar_mass', 'c_m_sun'), ('proton_mass', 'c_m_p'),
                 ('u_velocity_in_kmps', 'u_v_to_kmps')):
        near(h, f'{x} = {y}', r(getattr(a, x)), r(getattr(g, y)))
    for x, y in (('u_length', 'u_l'), ('u_time', 'u_t'), ('u_mass', 'u_m'), ('u_velocity', 'u_v'), ('u_density', 'u_density'),
                 ('u_gravity_constant', 'u_gravity_constant'), ('u_big_hubble', 'u_big_hubble')):
        near(h, f'{x} = {y}', r(getattr(a, x)), r(getattr(g, y).total()))


@suite.case('cosmological unit systems: Mpc/h, Gyr/h, 10^10 Msun/h')
def _(h):
    hb = h.real('hubble', gt=0)
    l, t, m = h.real('l', gt=0), h.real('t', gt=0), h.real('m', gt=0)
    h.assume(conj(l * hb == r(MPC), t * hb == r(GYR), m * hb == r(MSUN) * r(1e10)))
    for tag, s in (('general ', h.mod(US).UnitSystem.create_for_cosmology(hb)),):
        near(h, tag + 'length', s.u_l.total(), l); near(h, tag + 'time', s.u_t.total(), t); near(h, tag + 'mass', s.u_m.total(), m)
    m2 = h.mod(CM)
    for tag, s in (('compiled ', m2._make_us_for_cosmology(hb)), ('model ', m2._FlatLambdaCDMNR(hb, .3, .05, 1., .8).us)):
        near(h, tag + 'length', s.u_length, l); near(h, tag + 'time', s.u_time, t); near(h, tag + 'mass', s.u_mass, m)
        h.prove(tag + 'system', type(s).__name__ == '_UnitSystem')


@suite.case('base constants')
def _(h):
    s = h.mod(US)._Constants()
    for nm, v in dict(pc_to_m=r(MPC) / 1000000, kpc_to_m=r(MPC) / 1000, mpc_to_m=r(MPC), yr_to_s=r(GYR) / 1000000000, kyr_to_s=r(GYR) / 1000000,
                      myr_to_s=r(GYR) / 1000, gyr_to_s=r(GYR), msun_to_kg=r(MSUN), solar_mass=r(MSUN), light_speed=r(SI['c']), proton_mass=r(SI['m_p']),
                      gravity_constant=r(SI['G']), salpeter_time=r(450.49) * r(GYR) / 1000).items():
        near(h, nm, r(getattr(s, nm)), v)
