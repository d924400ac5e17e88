"""Executable contracts: power spectrum, variance, growth."""
import numpy as np
from dyn.fw import *
from scipy import integrate
from pyhipp.astro.cosmology import flat_lambda_cdm_nr as FM, power_spectrum as PM


def rel(a, b, msg, tol=1e-8): ensure(np.isfinite(a) and abs(a - b) <= tol * (abs(a) + abs(b)), msg, a, b)


_cache = {}


def spec(r):
    k = (r.int(0, 3), r.bool()); r.note(model=k)
    if k not in _cache:
        g = np.random.default_rng(k[0])
        p = (g.uniform(.5, .9), g.uniform(.1, .9), g.uniform(.02, .06), g.uniform(.85, 1.1), g.uniform(.5, 1.2))
        m = FM._FlatLambdaCDMNR(*p)
        _cache[k] = (PM._PowerSpectrumFlatLambdaCDMNR(m, k[1]), m, p)
    return _cache[k]


def zd(r): return r.pick([0., r.pos(1e-2, 20), r.real(0, 10)])


@contract('power', 2)
def _(r):
    s, m, p = spec(r); k, z = r.pos(1e-5, 1e4), zd(r); r.note(k=k, z=z)
    d, P = s.big_delta_sqr(k, z), s.power(k, z)
    rel(d, k ** 3 * P / (2 * np.pi ** 2), 'Delta^2 and P')
    rel(s.growth_fac(0.), 1., 'growth today'); ensure(s.growth_fac(z) > 0, 'growth positive')
    rel(d, s.big_delta_sqr(k, 0.) * s.growth_fac(z) ** 2, 'Delta^2 growth'); rel(P, s.power(k, 0.) * s.growth_fac(z) ** 2, 'P growth')
    rel(s.delta_crit(z), 1.686 / s.growth_fac(z), 'threshold')
    rel(P / s.power(2 * k, z), .5 ** p[3] * (s.transfer_func(k) / s.transfer_func(2 * k)) ** 2, 'power and transfer function', 1e-6)


@contract('growth')
def _(r):
    m = FM._FlatLambdaCDMNR(r.pos(.3, 1.5), r.pick([r.pos(.05, 1.), .3]), r.pos(.01, .1), 1., .8); z = zd(r); r.note(om=m.omega_m0, z=z)
    g = PM._GrowthFactorCarroll92(m)
    rel(g.growth_factor(0.), 1., 'one today')
    ensure(g.growth_factor(z) > 0, 'positive'); rel(g.delta_crit(z) * g.growth_factor(z), 1.686, 'threshold')


@contract('window', 2)
def _(r):
    s, m, p = spec(r); k, x = r.pos(1e-3, 1e3), r.pick([r.pos(1e-8, 1e-3), r.pos(1e-2, 100), r.pos(.1, 10)]); r.note(k=k, x=x)
    w = s.window_func(k, x / k)
    if x < 2e-3: ensure(abs(w - 1) < 1e-3, 'tends to one', w)
    else: ensure(abs(w - 3 * (np.sin(x) - x * np.cos(x)) / x ** 3) < 1e-6, 'window', w)


@contract('variance', .3)
def _(r):
    s, m, p = spec(r); z, R = zd(r), r.pos(.5, 50); r.note(z=z, R=R)
    rel(s.sigma_sqr(8., 0.), p[4] ** 2, 'sigma_8')
    rel(s.sigma_sqr(R, z), s.sigma_sqr(R, 0.) * s.growth_fac(z) ** 2, 'variance growth', 1e-5)
    M = r.pos(1e-2, 1e5); r.note(M=M)
    rel(s.sigma_sqr_at_mass(M, z), s.sigma_sqr(m.densities().m_to_r(M), z), 'variance at a mass', 1e-7)
    k = np.linspace(-23, 9, 6001)
    f = np.array([s.big_delta_sqr(np.exp(x), z) * s.window_func(np.exp(x), R) ** 2 for x in k])
    rel(np.trapezoid(f, k), s.sigma_sqr(R, z), 'variance is the integral', 2e-2)


@contract('table', .1)
def _(r):
    s, m, p = spec(r); n = r.int(2, 4); lo = r.real(-3, 1); hi = lo + r.pos(.5, 5); r.note(n=n, lo=lo, hi=hi)
    t = s.interp_lg_sigma_at_lg_mass((lo, hi), n)
    for x in np.linspace(lo, hi, n): rel(10 ** (2 * t.value_at(x)), s.sigma_sqr_at_mass(10 ** x, 0.), 'node', 1e-6)
    t = s.interp_lg_sigma_at_lg_mass((lo, lo + 1), 2)
