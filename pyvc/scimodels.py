"""Assumed contracts of scipy pieces."""
from __future__ import annotations
import z3
from . import core as C
from . import loader as LD
from .core import S, CTX, R, I, Unsupported
from .arr import SArr, asarr, dz
from . import arr as A


class interp1d:
    """scipy.interpolate.interp1d, kind 'linear'/'slinear', ascending nodes: piecewise linear interpolation between the
    bracketing nodes; ValueError outside (the returned value is only constrained for arguments inside)."""

    def __init__(self, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=None, assume_sorted=False):
        from . import npm
        if kind not in ('linear', 'slinear') or bounds_error is not None or fill_value is not None: raise Unsupported('interp1d options')
        npm.trust('scipy.interpolate.interp1d (slinear): linear between the bracketing nodes, ValueError outside the nodes')
        x, y = asarr(x), asarr(y)
        if copy: x, y = x.copy(), y.copy()
        self.x, self.y = x, y
        if x.ndim != 1 or y.ndim != 1: raise Unsupported('interp1d shape')
        self.n = n = dz(x._shape[0])
        i = CTX.index_var('node')
        CTX.elem_hints.append(i)
        C.CTX.side('interp1d nodes and values have the same length', n == dz(y._shape[0]))
        C.CTX.side('interp1d nodes are strictly ascending', z3.Implies(z3.And(i >= 0, i + 1 < n), C.num(S(x.at(i))) < C.num(S(x.at(i + 1)))))
        self.F = z3.Function(CTX.fresh_name('locate'), R, I)

        def t(app):
            v, = app.children()
            lo, hi = C.toreal(S(x.at(app))), C.toreal(S(x.at(app + 1)))
            return [z3.And(app >= 0, app + 1 < n), z3.Implies(z3.And(v >= C.toreal(S(x.at(z3.IntVal(0)))), v <= C.toreal(S(x.at(n - 1)))), z3.And(lo <= v, v <= hi, lo < hi))]
        C.add_templ(self.F, t)

    def index(self, v): return S(self.F(C.toreal(v)))

    def _one(self, v):
        i = self.F(C.toreal(v))
        x0, x1, y0, y1 = (S(C.toreal(S(e))) for e in (self.x.at(i), self.x.at(i + 1), self.y.at(i), self.y.at(i + 1)))
        return y0 + (S(C.toreal(v)) - x0) / (x1 - x0) * (y1 - y0)

    def __call__(self, v):
        if isinstance(v, SArr) and v.ndim: return A.elementwise(lambda e: self._one(e), [v], 'f8')
        v = v.__pv_scalar__() if isinstance(v, SArr) else S(C.lift(v))
        lo, hi = S(self.x.at(z3.IntVal(0))), S(self.x.at(self.n - 1))
        if not C.CTX.branch(C.tobool(v >= lo)) or not C.CTX.branch(C.tobool(v <= hi)):
            raise ValueError('A value in x_new is outside the interpolation range')
        return self._one(v)


def interpolate():
    m = LD.Stub('scipy.interpolate')
    m.interp1d = interp1d
    return m


def integrate():
    """scipy.integrate.quad as a functional: its value depends on the integrand (pointwise), the limits and nothing else;
    positive for a non-negative integrand (taken not to vanish identically)."""
    m = LD.Stub('scipy.integrate')
    T = z3.Real('quad!t')

    def quad(f, a, b, args=(), full_output=0, **kw):
        from . import npm
        npm.trust('scipy.integrate.quad: a functional of the integrand (equal integrands give equal values; linear in a constant factor), positive for a non-negative integrand that does not vanish identically')
        if not isinstance(args, tuple): args = (args,)
        if set(kw) - {'limit', 'epsabs', 'epsrel', 'points'}: raise Unsupported('quad options')
        a, b = S(C.toreal(C.S(C.lift(a)))), S(C.toreal(C.S(C.lift(b))))
        CTX.assume(C.tobool(S(T) >= a)); CTX.assume(C.tobool(S(T) <= b))
        g = z3.simplify(C.toreal(f(S(T), *args)))
        for h0, a0, b0, q in m.__dict__['calls']:
            if z3.eq(h0, g) and z3.eq(a0.e, a.e) and z3.eq(b0.e, b.e): return (S(q), 0.)
        q = CTX.skolem('quad', R)
        nn = CTX.holds(z3.Implies(z3.And(T >= a.e, T <= b.e), g >= 0))
        if nn: CTX.assume_post(q > 0)
        m.__dict__['calls'].append((g, a, b, q))
        return (S(q), 0.)
    m.__dict__['calls'] = []
    m.__dict__['T'] = T
    m.__dict__['quad'] = quad
    return m
