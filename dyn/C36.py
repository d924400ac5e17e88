"""Executable contracts: halo-theory tables and mass function."""
import sys, os, types, tempfile
import numpy as np, h5py
from dyn.fw import *
from pyhipp.astro.cosmology.halo_theory import HaloTheory

CALLS = []


class MassFunction:
    """stand-in for hmf (not installed): records the request"""

    def __init__(self, **kw):
        CALLS.append(dict(kw)); self.m = 10. ** np.arange(kw['Mmin'], kw['Mmax'], kw['dlog10m']); self.dndlog10m = self.m ** -.9


sys.modules['hmf'] = types.ModuleType('hmf'); sys.modules['hmf'].MassFunction = MassFunction


@contract('tables', 2)
def _(r):
    nz, nm = r.int(2, 9), r.int(2, 9)
    t = dict(z=np.cumsum(r.g.uniform(.01, 2, nz)) - 1, lg_delta_c=r.arr((nz,)), lg_m=np.cumsum(r.g.uniform(.01, 2, nm)) - 3, lg_sigma=r.arr((nm,)), dlg_sigma_dlg_m=r.arr((nm,)))
    r.note(**t)
    with tempfile.TemporaryDirectory() as d:
        fn = os.path.join(d, 'data.hdf5')
        with h5py.File(fn, 'w') as f:
            for k, v in t.items(): f[('LgDeltaC/' if k in ('z', 'lg_delta_c') else 'LgSigma/') + k] = v
        th = HaloTheory(fn, None)
        for fn, x, y in (('lg_sigma', 'lg_m', 'lg_sigma'), ('dlg_sigma_dlg_m', 'lg_m', 'dlg_sigma_dlg_m'), ('lg_delta_c', 'z', 'lg_delta_c')):
            f, x, y = getattr(th, fn), t[x], t[y]
            q = r.g.uniform(x[0], x[-1], r.pick([(), (4,), (2, 3), (0,)]))
            r.note(quantity=fn, at=q)
            ensure_close(f(x), y, fn + ' at the nodes'); ensure_close(f(q), np.interp(q, x, y), fn + ' between'); ensure(np.shape(f(q)) == np.shape(q), fn + ': shape')
            for out in (x[0] - .1, x[-1] + .1): ensure_raises(ValueError, lambda: f(out), fn + ' outside')


@contract('mass function', 2)
def _(r):
    th = HaloTheory('/nonexistent', None)
    for _ in range(r.int(1, 3)):
        lo = r.g.uniform(-1, 4); d = r.pick([.05, .1, .25]); hi = lo + d * r.int(1, 9); z = r.pick([0., 1., 7.5])
        md = r.pick([None, '200crit', '200mean', 'custom'])
        kw = r.pick([None, {}, {'hmf_model': 'SMT'}, {'mdef_model': 'FOF', 'mdef_params': {'overdensity': 99}}, {'mdef_params': {'overdensity': 500.}}, {'z': 3., 'Mmin': 1.}])
        r.note(mass_def=md, impl_kw=kw, lo=lo, hi=hi, d=d, z=z)
        kw0 = None if kw is None else {k: dict(v) if isinstance(v, dict) else v for k, v in kw.items()}
        o = th.mass_function(lo, hi, d, z, **({'mass_def': md} if md else {}), **({} if kw is None else {'impl_kw': kw}))
        got = CALLS[-1]
        want = ({} if md == 'custom' else {'mdef_model': 'SOMean' if md == '200mean' else 'SOCritical', 'mdef_params': {'overdensity': 200.}}) | (kw0 or {})
        for k in ('Mmin', 'Mmax', 'dlog10m', 'z'): want[k] = got[k]
        ensure(got == want, 'parameters', got, want); ensure(kw == kw0, 'parameters given left alone', kw, kw0)
        ensure_close(got['Mmin'], lo + 10, 'lower'); ensure(hi + 10 < got['Mmax'] < hi + 10 + d, 'upper'); ensure_close(got['dlog10m'], d, 'step'); ensure_close(got['z'], z, 'redshift')
        ensure_close(o.lgM[-1], hi, 'upper mass included')
        m = 10. ** np.arange(got['Mmin'], got['Mmax'], got['dlog10m'])
        ensure_close(o.lgM, np.log10(m) - 10, 'masses'); ensure_close(o.dn_dlgM, m ** -.9, 'counts')
    n = len(CALLS)
    ensure_raises(ValueError, lambda: th.mass_function(1., 2., .1, 0., mass_def=r.pick(['', '500crit', 'vir', None])), 'unknown definition'); ensure(len(CALLS) == n, 'refused before')
