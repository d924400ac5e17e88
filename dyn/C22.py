"""Executable contracts: halo relations and distances (against the installed astropy)."""
import numpy as np
from dyn.fw import *
import astropy.units as u, astropy.constants as c, astropy.cosmology as ac
from pyhipp.astro.cosmology import model as MO, halo_theory as HT


def rel(a, b, msg, tol=1e-9):
    a, b = np.asarray(a), np.asarray(b)
    ensure(a.shape == b.shape, msg + ' shape', a.shape, b.shape)
    ensure(bool(np.all(np.isfinite(a))) and bool(np.all(np.abs(a - b) <= tol * (np.abs(a) + np.abs(b)))), msg, a, b)


_cache = {}


def cosm(r):
    """a small pool of models (construction is slow)"""
    k = r.int(0, 5)
    if k not in _cache:
        g = np.random.default_rng(k)
        p = dict(hubble=np.array(g.uniform(.5, .9)), omega_m0=np.array(g.uniform(.1, .9)), omega_b0=np.array(g.uniform(.01, .09)), t_cmb=np.array(g.choice([0., 2.7255])))
        p['omega_l0'] = 1 - p['omega_m0']
        _cache[k] = (MO.LambdaCDM.from_parameters(p) if k else MO.predefined['tng'])
    m = _cache[k]
    r.note(model=k, hubble=m.hubble, om=m.omega_m0, ob=m.omega_b0, tcmb=m.t_cmb)
    a = ac.FlatLambdaCDM(H0=100 * float(m.hubble), Om0=float(m.omega_m0), Tcmb0=float(m.t_cmb), Ob0=float(m.omega_b0))
    return m, a, float(m.hubble)


def zs(r):
    z = r.pick([0., r.pos(1e-3, 20), r.real(0, 10), r.arr((r.int(1, 4),), 0, 8)])
    r.note(z=z)
    return z


@contract('virial', 2)
def _(r):
    m, a, h = cosm(r); z = zs(r)
    nd = np.shape(z)
    M = np.asarray(r.arr(nd, 1, 1e6)) if r.bool() and nd else r.pos(1e-3, 1e6)
    f = r.pick([200., 500., r.pos(1, 1e3)])
    kind = r.pick(['mean', 'crit']); r.note(M=M, f=f, kind=kind)
    t = m.halo_theory
    vp = (t.vir_props_mean if kind == 'mean' else t.vir_props_crit)(M, f, z)
    zz = np.asarray(z)
    if r.bool(.3):
        vp = (t.vir_props_mean if kind == 'mean' else t.vir_props_crit)(M); f, zz = 200., np.zeros(())
    rho_c = a.critical_density(zz).to_value('kg/m3') / (1e10 * u.Msun.to('kg') / h) * (u.Mpc.to('m') / h) ** 3
    rho = f * rho_c * (a.Om(zz) if kind == 'mean' else 1.) / (1 + zz) ** 3
    shp = np.broadcast_shapes(np.shape(M), np.shape(rho))
    bc = lambda x: np.broadcast_to(x, shp)
    rel(bc(vp.rho), bc(rho), 'density'); rel(bc(vp.m), bc(M), 'mass kept')
    rel(4 / 3 * np.pi * bc(vp.r) ** 3 * rho, bc(M), 'mass of the sphere')
    rel(bc(vp.r_phy), bc(vp.r) / (1 + zz), 'physical radius')
    G = c.G.si.value * (1e10 * u.Msun.to('kg') / h) * (u.Gyr.to('s') / h) ** 2 / (u.Mpc.to('m') / h) ** 3
    rel(bc(vp.v) ** 2, G * bc(M) / bc(vp.r_phy), 'velocity'); rel(bc(vp.t_dyn), bc(vp.r_phy) / bc(vp.v), 'dynamical time')
    kms = (u.Mpc / u.Gyr).to('km/s')
    M_, R_ = np.asarray(bc(M)).copy(), np.asarray(bc(vp.r_phy)).copy()
    rel(t.v_vir(M_, R_, to_kmps=True), t.v_vir(M_, R_) * kms, 'velocity in km/s')
    rel(t.r_vir(M_, bc(rho)), bc(vp.r), 'radius alone')


@contract('background')
def _(r):
    m, a, h = cosm(r); z = zs(r)
    rel(m.big_hubble(z), a.H(z).to_value('1/s') * u.Gyr.to('s') / h, 'Hubble rate')
    rel(m.rho_matter(z), m.rho_crit(z) * a.Om(z), 'matter density')
    rel(m.omega_m(z), a.Om(z), 'omega m'); rel(m.omega_l(z), a.Ode(z), 'omega l'); rel(m.omega_b(z), a.Ob(z), 'omega b')
    rel(m.rho_crit(z), a.critical_density(z).to_value('kg/m3') / (1e10 * u.Msun.to('kg') / h) * (u.Mpc.to('m') / h) ** 3, 'critical density')
    rel(m.age(z), a.age(z).to_value('Gyr') * h, 'age'); rel(m.baryon_fraction0, m.omega_b0 / m.omega_m0, 'baryon fraction')
    d = m.distances
    rel(d.comoving_at(z), a.comoving_distance(z).to_value('Mpc') * h, 'comoving'); rel(d.luminosity_at(z), a.luminosity_distance(z).to_value('Mpc') * h, 'luminosity')
    rel(d.angular_diameter_at(z), a.angular_diameter_distance(z).to_value('Mpc') * h, 'angular'); rel(m.times.lookback_at(z), a.lookback_time(z).to_value('Gyr') * h, 'lookback')
    if np.all(np.asarray(z) > 0): rel(d.distance_modulus_at(z), a.distmod(z).value, 'modulus')


@contract('inverse distance', .3)
def _(r):
    m, a, h = cosm(r); z = r.pick([r.pos(1e-3, 5), r.real(.01, 10), r.pos(1e-6, 5)]); r.note(z=z)
    d = m.distances.comoving_at(z)
    if d < 1e-4: raise Skip
    rel(m.redshifts.at_comoving(d), z, 'redshift of the distance', 1e-4)
    d2 = r.pos(1e-3, 3000.); r.note(d=d2)
    rel(m.distances.comoving_at(m.redshifts.at_comoving(d2)), d2, 'distance of the redshift', 1e-4)


@contract('concentration')
def _(r):
    k = HT.NFWProfileCalculator(None)
    x = r.pick([r.real(2.17, 1000.), r.pos(2.17, 1000), 2.17 + r.pos(1e-3, 10)]); r.note(c=x)
    mu = np.log(1 + x) - x / (1 + x)
    v = k.c_to_v_max2vir(x)
    rel(v * v * mu, .216217 * x, 'ratio of the concentration')
    got = k.v_max2vir_to_c(v)
    rel(k.c_to_v_max2vir(got), v, 'ratio of the recovered concentration', 2e-4)
    nodes = np.concatenate([np.linspace(2.1626, 50.0, 256), np.linspace(51., 100.0, 256), np.linspace(101., 1000.0, 256)])[1:-1]
    rel(k.v_max2vir_to_c(k.c_to_v_max2vir(x + np.zeros(3))), got + np.zeros(3), 'arrays')
