"""Halo-theory tables and mass function (astro/cosmology/halo_theory.py)."""
import types
from ..harness import *
from .. import arr as A
suite = Suite()
HT = 'astro.cosmology.halo_theory'
PATH = '/data/data.hdf5'


class Set:
    def __init__(self, x): self.x = x
    def __getitem__(self, k):
        assert k == ()
        return self.x.copy()


class H5:
    """a file with any tables: the contract of h5py used here is that reading a dataset gives its stored contents, while the file is open"""
    def __init__(self, tree): self.tree, self.is_open, self.opened = tree, False, []

    def File(self, name, mode='r'):
        self.opened.append((name, mode))
        return self
    def __enter__(self): self.is_open = True; return self
    def __exit__(self, *a): self.is_open = False
    def __getitem__(self, k):
        assert self.is_open
        return self.tree[k]


def theory(h):
    M = h.mod(HT)
    nz, nm = h.size('nz', lo=1), h.size('nm', lo=1)
    t = dict(z=h.array('z', nz), lg_delta_c=h.array('ldc', nz), lg_m=h.array('lgm', nm), lg_sigma=h.array('ls', nm), dlg_sigma_dlg_m=h.array('dls', nm))
    h.ascending(t['z'], strict=True); h.ascending(t['lg_m'], strict=True)
    f = H5({'LgDeltaC': {k: Set(t[k]) for k in ('z', 'lg_delta_c')}, 'LgSigma': {k: Set(t[k]) for k in ('lg_m', 'lg_sigma', 'dlg_sigma_dlg_m')}})
    M.h5py = f
    tabs = []
    real = M.interp1d

    def spy(*a, **k):
        tabs.append(real(*a, **k)); return tabs[-1]
    M.interp1d = spy
    return M.HaloTheory(PATH, None), t, f, tabs


for fn, xs, ys in (('lg_sigma', 'lg_m', 'lg_sigma'), ('dlg_sigma_dlg_m', 'lg_m', 'dlg_sigma_dlg_m'), ('lg_delta_c', 'z', 'lg_delta_c')):
    @suite.case(f'{fn}: stored values at the nodes')
    def _(h, fn=fn, xs=xs, ys=ys):
        th, t, f, tabs = theory(h)
        x, y = t[xs], t[ys]
        j = h.idx(x._shape[0])
        h.hint(j.e, (j + 1).e, (j - 1).e)
        h.eq('value at a node', getattr(th, fn)(at(x, j)), at(y, j))
        h.prove('the file of the theory, for reading', set(f.opened) == {(PATH, 'r')} and not f.is_open)

    @suite.case(f'{fn}: linear between the nodes, refused outside')
    def _(h, fn=fn, xs=xs, ys=ys):
        th, t, f, tabs = theory(h)
        x, y = t[xs], t[ys]; n = x._shape[0]
        v = h.real('v')
        try: c = getattr(th, fn)(v)
        except ValueError:
            h.prove('refused only outside the table', disj(v < at(x, 0), v > at(x, S(A.dz(n)) - 1))); return
        h.prove('within the table', conj(at(x, 0) <= v, v <= at(x, S(A.dz(n)) - 1)))
        j = h.idx(n); h.assume(j + 1 < S(A.dz(n))); h.assume(conj(at(x, j) <= v, v <= at(x, j + 1)))
        for tb in tabs:
            i = tb.index(v); h.hint(i.e, (i + 1).e, j.e, (j + 1).e)
        w = h.real('w'); h.assume(w * (at(x, j + 1) - at(x, j)) == v - at(x, j))
        h.eq('linear', c, at(y, j) + w * (at(y, j + 1) - at(y, j)))

    @suite.case(f'{fn}: arrays')
    def _(h, fn=fn, xs=xs, ys=ys):
        th, t, f, tabs = theory(h)
        n = h.size('n'); v = h.array('v', n); j = h.idx(n)
        h.assume_all(v, lambda e, i: conj(e >= at(t[xs], 0), e <= at(t[xs], S(A.dz(t[xs]._shape[0])) - 1)))
        c = getattr(th, fn)(v)
        h.shape('one per value', c, (n,)); h.eq('elementwise', at(c, j), getattr(th, fn)(at(v, j)))


def stub(h):
    calls = []
    n = h.size('n'); m, dn = h.array('m', n), h.array('dn', n)
    h.assume_all(m, lambda v, i: v > 0)

    class MassFunction:
        def __init__(self, **kw): calls.append(dict(kw)); self.m, self.dndlog10m = m, dn
    mod = types.ModuleType('hmf'); mod.MassFunction = MassFunction
    h.ld.models['hmf'] = mod
    return calls, n, m, dn


for mdef in (None, '200crit', '200mean', 'custom'):
    for kw in ('none', 'other', 'overriding', 'range'):
        @suite.case(f'mass function, definition {mdef}, parameters: {kw}')
        def _(h, mdef=mdef, kw=kw):
            calls, n, m, dn = stub(h)
            th = h.mod(HT).HaloTheory(PATH, None)
            lo, hi, d, z = h.real('lo'), h.real('hi'), h.real('d', gt=0), h.real('z', lo=0)
            p = {'none': None, 'other': {'hmf_model': 'SMT', 'sigma_8': h.real('s8')}, 'overriding': {'mdef_params': {'overdensity': h.real('od')}, 'mdef_model': 'FOF'},
                 'range': {'z': h.real('z2'), 'Mmin': h.real('m2'), 'Mmax': h.real('m3'), 'dlog10m': h.real('d2')}}[kw]
            given = dict(p or {})
            args = dict(mass_def=mdef) if mdef else {}
            if p is not None: args['impl_kw'] = p
            for k in range(2):   # a second call: nothing is left over from the first
                out = th.mass_function(lo, hi, d, z, **args)
                got = calls[-1]
                want = {'200crit': dict(mdef_model='SOCritical', mdef_params={'overdensity': 200.0}), '200mean': dict(mdef_model='SOMean', mdef_params={'overdensity': 200.0}), 'custom': {}}[mdef or '200crit'] | given
                h.prove(f'call {k}: parameters named', set(got) == set(want) | {'Mmin', 'Mmax', 'dlog10m', 'z'})
                h.eq('from the lower mass, in Msun/h', got['Mmin'], lo + 10); h.eq('step', got['dlog10m'], d); h.eq('redshift', got['z'], z)
                h.prove('to the upper mass, which is included', conj(got['Mmax'] > hi + 10, got['Mmax'] < hi + 10 + d))
                for q in sorted(set(want) - {'Mmin', 'Mmax', 'dlog10m', 'z'}): h.prove(f'parameter {q}', got[q] is given[q] if q in given else got[q] == want[q])
                j = h.idx(n)
                h.shape('one per mass', out.lgM, (n,)); h.eq('masses in 10^10 Msun/h', at(out.lgM, j), C.m_log10(at(m, j)) - 10)
                h.shape('one per mass (counts)', out.dn_dlgM, (n,)); h.eq('counts per dex', at(out.dn_dlgM, j), at(dn, j))
                if p is not None: h.prove('the parameters given are left alone', set(p) == set(given) and all(p[q] is given[q] for q in given))


@suite.case('mass function, unknown definition')
def _(h):
    calls, n, m, dn = stub(h)
    th = h.mod(HT).HaloTheory(PATH, None)
    for q in ('', '200', 'crit', '500crit', 'vir', None, 200):
        h.raises(f'{q!r}', ValueError, lambda: th.mass_function(1., 2., .1, 0., mass_def=q))
    h.prove('nothing computed', not calls)
