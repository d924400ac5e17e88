"""Executable contracts: Eisenstein & Hu transfer functions."""
import numpy as np
from dyn.fw import *
from oracle import eh
from pyhipp.astro.cosmology import flat_lambda_cdm_nr as FM, power_spectrum as PM


def uni(r, a, b): return float(r.g.uniform(a, b))


class F:
    log, sqrt, exp, sin, pow = np.log, np.sqrt, np.exp, np.sin, np.power

    @staticmethod
    def where(c, a, b): return a if c else b


def near(a, b, msg, scale=0.):
    if np.isnan(b): raise Skip
    ensure(np.isfinite(a) and abs(a - b) <= 1e-8 * (abs(a) + abs(b) + scale), msg, a, b)


def relations(t, rel, d):
    for k, v in rel:
        near(float(getattr(t, k)), float(v), k, k == 'alpha_b'); d[k] = float(getattr(t, k))
    return d


_t = {}


def obj(cls, *a):
    k = cls.__name__, a
    if k not in _t: _t[k] = cls(*a)
    return _t[k]


def wave(r): return r.pick([r.pos(1e-4, 1e2), r.pos(1e-3, 1.), r.pos(1e-6, 1e4)])


@contract('baryon variant', 2)
def _(r):
    om, fb, h, T = r.pick([uni(r, .05, 1.), r.pos(.02, 3.)]), r.pick([uni(r, .01, .3), uni(r, .3, .95)]), uni(r, .2, 1.8), r.pick([2.728, uni(r, 1., 5.)])
    r.note(om=om, fb=fb, h=h, T=T)
    t = obj(PM._TransferFunctionEH98)
    if T == 2.728: t.set_cosmology(om, fb, h)
    else: t.set_cosmology(om, fb, h, T)
    d = eh.eh98_scales(F, om, fb, h, T)
    for k in d: near(float(getattr(t, k)), d[k], k)
    relations(t, eh.eh98_relations(F, d, fb), d)
    k = wave(r); r.note(k=k)
    for kk in (k, -k):
        got, want = t._transfer_function(kk), eh.eh98_transfer(F, d, k)
        for n, g, w in zip(('total', 'baryons', 'CDM'), got, want): near(g, w, n, abs(d['alpha_b']) * 1e-4)
        near(t.transfer_function(kk), want[0], 'returned', abs(d['alpha_b']) * 1e-4)
    ensure(t._transfer_function(0.) == (1., 1., 1.), 'one at zero')


@contract('no-wiggle variant', 2)
def _(r):
    om = r.pick([uni(r, .1, 1.), r.pos(.05, 2.)])
    ob, on = om * r.pick([0., uni(r, 0., .4)]), om * r.pick([0., uni(r, 0., .4)])
    N, ol, h, z = r.pick([0, 1, r.int(-1, 4)]), r.pick([max(1 - om, 0.), uni(r, 0., 1.)]), uni(r, .2, 2.), r.pick([0., uni(r, -.5, 5.), uni(r, 0., 99.)])
    nu = r.pick([None, False, True])
    r.note(om=om, ob=ob, on=on, N=N, ol=ol, h=h, z=z, nu=nu)
    t = obj(PM._TransferFunctionEH99) if nu is None else obj(PM._TransferFunctionEH99, nu)
    if nu is None: t.set_variant()
    else: t.set_variant(nu)
    if z == 0.: t.set_cosmology(om, ob, on, N, ol, h)
    else: t.set_cosmology(om, ob, on, N, ol, h, z)
    d = relations(t, _rel(t, om, ob, on, N, ol, h, z), {})
    k = wave(r); r.note(k=k)
    want = eh.eh99_transfer(F, d, k)
    for n, g, w in zip(('CDM + baryons', 'CDM + baryons + neutrinos'), t._transfer_function(k), want): near(g, w, n)
    near(t.transfer_function(k), want[1 if nu else 0], 'variant')


def _rel(t, *a):
    d = {}
    for k, v in eh.eh99_relations(F, d, eh.eh99_inputs(F, *a)):
        yield k, v
        d[k] = float(getattr(t, k))


@contract('new objects', .3)
def _(r):
    nu = r.bool(); om, k = uni(r, .1, 1.), wave(r); r.note(nu=nu, om=om, k=k)
    key = ('new', nu)
    if key not in _t: _t[key] = PM._TransferFunctionEH99(nu) if nu else PM._TransferFunctionEH99()
    t = _t[key]; t.set_cosmology(om, .1 * om, .1 * om, 1, 1 - om, .7)
    near(t.transfer_function(k), t._transfer_function(k)[1 if nu else 0], 'variant of a new object')


@contract('refused', .5)
def _(r):
    t8, t9 = obj(PM._TransferFunctionEH98), obj(PM._TransferFunctionEH99)
    bad = r.pick([0., -r.pos(1e-8, 10)])
    a = [uni(r, .1, 1.), uni(r, .05, .5), uni(r, .3, 1.), uni(r, 2., 3.)]
    i = r.int(0, 3); a[i] = bad; r.note(a=a)
    ensure_raises(ValueError, lambda: t8.set_cosmology(*a), f'parameter {i} (baryon variant)')
    a = [uni(r, .1, 1.), uni(r, 0., .1), uni(r, 0., .1), r.int(0, 3), uni(r, 0., 1.), uni(r, .1, 2.), uni(r, -.9, 99.)]
    i, v = r.pick([(1, -r.pos(1e-8, 10)), (2, -r.pos(1e-8, 10)), (5, bad), (5, 2 + r.pos(1e-6, 100)), (6, -1. - r.pick([0., r.pos(1e-6, 10)])), (6, 99. + r.pos(1e-6, 100))])
    a[i] = v; r.note(b=a)
    ensure_raises(ValueError, lambda: t9.set_cosmology(*a), f'parameter {i} (no-wiggle variant)')


@contract('of a cosmology', .5)
def _(r):
    p = (uni(r, .4, 1.), uni(r, .1, .9), r.pick([uni(r, .02, .08), 10 ** uni(r, -4, -1)]), 1., .8); k, be = wave(r), r.bool(); r.note(p=p, k=k, be=be)
    m = FM._FlatLambdaCDMNR(*p)
    t = PM._TransferFunctionFlatLambdaCDMNR(m, be) if be else PM._TransferFunctionFlatLambdaCDMNR(m)
    h, om, ob = p[:3]
    if be:
        d = eh.eh98_scales(F, om, ob / om, h, 2.728)
        for n, v in eh.eh98_relations(F, d, ob / om): d[n] = v
        w = eh.eh98_transfer(F, d, k)[0]
    else:
        d = {}
        for n, v in eh.eh99_relations(F, d, eh.eh99_inputs(F, om, ob, 0., 0, 1 - om, h, 0.)): d[n] = v
        w = eh.eh99_transfer(F, d, k)[0]
    near(t.transfer_function(k), w, 'transfer function', 1e-4)
