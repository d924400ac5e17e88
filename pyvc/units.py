"""Assumed contract of astropy.units / astropy.constants: quantities with SI values and dimension exponents.

A quantity is a number times a unit; .to(u) changes the unit (equal dimensions required), .value is the number.
The SI values of the named units and constants are those of astropy (compared with the installed astropy by the bounded
conformance search)."""
from __future__ import annotations
from . import core as C
from . import loader as LD
from .core import S

BASE = ('m', 's', 'kg', 'K')
MPC, GYR, MSUN = 3.085677581491367e+22, 3.15576e+16, 1.988409870698051e+30


class UnitConversionError(TypeError):
    pv_modelled = True


def mul(a, b): return a * b if not (_one(a) or _one(b)) else (b if _one(a) else a)


def _one(x): return isinstance(x, (int, float)) and x == 1


def div(a, b):
    from .npm import S as _S
    if _one(b): return a
    if isinstance(a, (int, float)): a = S(C.toreal(S(C.lift(a))))
    return a / b


class U:
    """unit (value None) or quantity"""

    def __init__(self, si, dims, value=None):
        self.si, self.dims, self._v = si, dims, value

    @property
    def is_unit(self): return self._v is None

    @property
    def value(self):
        if self.is_unit: raise AttributeError('value')
        return self._v

    def total(self):
        """SI value"""
        return self.si if self.is_unit else mul(self._v, self.si)

    def __mul__(self, o):
        if isinstance(o, U):
            d = tuple(a + b for a, b in zip(self.dims, o.dims))
            si = mul(self.si, o.si)
            if self.is_unit and o.is_unit: return U(si, d)
            return U(si, d, mul(1 if self.is_unit else self._v, 1 if o.is_unit else o._v))
        return U(self.si, self.dims, o if self.is_unit else self._v * o)

    def __rmul__(self, o): return U(self.si, self.dims, o if self.is_unit else o * self._v)

    def __truediv__(self, o):
        if isinstance(o, U):
            d = tuple(a - b for a, b in zip(self.dims, o.dims))
            si = div(self.si, o.si)
            if self.is_unit and o.is_unit: return U(si, d)
            return U(si, d, div(1. if self.is_unit else self._v, 1 if o.is_unit else o._v))
        return U(self.si, self.dims, div(1. if self.is_unit else self._v, o))

    def __rtruediv__(self, o):
        inv = U(div(1., self.si), tuple(-a for a in self.dims))
        return U(inv.si, inv.dims, o if self.is_unit else div(o, self._v))

    def __pow__(self, n):
        if not isinstance(n, int): raise C.Unsupported('fractional power of a unit')
        return U(self.si ** n, tuple(a * n for a in self.dims), None if self.is_unit else self._v ** n)

    def to(self, u):
        if isinstance(u, str): u = getattr(units(), u)
        if isinstance(u, (int, float)): u = U(1., (0,) * 4)
        if u.dims != self.dims: raise UnitConversionError(f'{self.dims} {u.dims}')
        r = div(self.total(), u.total())
        return r if self.is_unit else U(u.si, u.dims, r)

    def to_value(self, u):
        r = self.to(u)
        return r if self.is_unit else r.value

    def __str__(self): return 'quantity'

    def __float__(self): raise TypeError('only dimensionless quantities')


def dim(m=0, s=0, kg=0, K=0): return (m, s, kg, K)


_u = None


def units():
    global _u
    if _u is None:
        u = _u = LD.Stub('astropy.units')
        for n, si, d in (('m', 1., dim(1)), ('km', 1e3, dim(1)), ('cm', 1e-2, dim(1)), ('pc', MPC / 1e6, dim(1)), ('kpc', MPC / 1e3, dim(1)), ('Mpc', MPC, dim(1)),
                         ('s', 1., dim(s=1)), ('yr', GYR / 1e9, dim(s=1)), ('Myr', GYR / 1e3, dim(s=1)), ('Gyr', GYR, dim(s=1)),
                         ('kg', 1., dim(kg=1)), ('g', 1e-3, dim(kg=1)), ('Msun', MSUN, dim(kg=1)), ('K', 1., dim(K=1)),
                         ('erg', 1e-7, dim(2, -2, 1)), ('J', 1., dim(2, -2, 1)), ('W', 1., dim(2, -3, 1))):
            setattr(u, n, U(si, d))
    return _u


def constants():
    c = LD.Stub('astropy.constants')
    for n, si, d in (('G', 6.6743e-11, dim(3, -2, -1)), ('c', 299792458., dim(1, -1)), ('m_p', 1.67262192369e-27, dim(kg=1)),
                     ('h', 6.62607015e-34, dim(2, -1, 1)), ('M_sun', MSUN, dim(kg=1))):
        setattr(c, n, U(1., d, si))
    return c


class FlatLambdaCDM:
    """Assumed contract of astropy.cosmology.FlatLambdaCDM: every method is a function of the model parameters and the
    redshift, reported in its documented unit."""

    def __init__(self, H0, Om0, Tcmb0=0., Neff=None, m_nu=None, Ob0=None, **kw):
        if kw or Neff is not None or m_nu is not None: raise C.Unsupported('astropy model options')
        self.args = (H0, Om0, Tcmb0, Ob0)
        self.h, self.Om0, self.Ob0, self.Tcmb0 = H0 / 100., Om0, Ob0, U(1., dim(K=1), Tcmb0)

    def _f(self, name, z, dims=None, si=None):
        from . import npm, arr as A
        npm.trust('astropy.cosmology.FlatLambdaCDM: functions of the parameters and the redshift, in the documented units')
        F = C.z3.Function('astropy_' + name, *[C.R] * 6)
        pr = [C.toreal(_scal(a)) for a in self.args]
        fn = lambda x: S(F(*pr, C.toreal(x)))
        v = A.elementwise(lambda x: fn(x), [A.asarr(z)], 'f8') if isinstance(z, A.SArr) and z.ndim else fn(_scal(z))
        return v if dims is None else U(si, dims, v)

    def H(self, z): return self._f('H', z, dim(s=-1), S(C.toreal(1e3)) / S(C.toreal(MPC)))
    def critical_density(self, z): return self._f('critical_density', z, dim(-3, 0, 1), 1e3)
    def age(self, z): return self._f('age', z, dim(s=1), GYR)
    def lookback_time(self, z): return self._f('lookback_time', z, dim(s=1), GYR)
    def comoving_distance(self, z): return self._f('comoving_distance', z, dim(1), MPC)
    def angular_diameter_distance(self, z): return self._f('angular_diameter_distance', z, dim(1), MPC)
    def luminosity_distance(self, z): return self._f('luminosity_distance', z, dim(1), MPC)
    def distmod(self, z): return self._f('distmod', z, dim(), 1.)
    def Om(self, z): return self._f('Om', z)
    def Ode(self, z): return self._f('Ode', z)
    def Ob(self, z): return self._f('Ob', z)


def _scal(x):
    from .arr import SArr
    if isinstance(x, SArr): return x.__pv_scalar__()
    if isinstance(x, U): return _scal(x.value)
    return S(C.lift(x))


def cosmology():
    c = LD.Stub('astropy.cosmology')
    c.FlatLambdaCDM = FlatLambdaCDM

    def z_at_value(func, fval, **kw):
        from . import npm
        if kw: raise C.Unsupported('z_at_value options')
        npm.trust('astropy.cosmology.z_at_value: a redshift at which the function takes the given value')
        z = S(C.CTX.skolem('z', C.R))
        q = func(z)
        C.CTX.assume_post(C.tobool(_scal(q.value) == _scal(fval.to(U(q.si, q.dims)).value)))
        return U(1., dim(), z)
    c.z_at_value = z_at_value
    return c
