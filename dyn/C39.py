"""Executable contracts: plain representations and summaries."""
import json
import tempfile
import os
import numpy as np
import yaml
from dyn.fw import *
from pyhipp.core.abc import HasDictRepr, HasListRepr, HasSimpleRepr, HasName
from pyhipp.core.arrays.array import Array
from pyhipp.core.containers.data_dict import DataDict
from pyhipp.core.dataproc.data_structs import Dict
from pyhipp.core.dataproc.grid import Grid1d, GridMd
from pyhipp.astro.cosmology.model import LambdaCDM
from pyhipp.astro.cosmology.param import Param, ParamList
from pyhipp.field.cubic_box.cosmic_web import TidalClassifier
from pyhipp.field.cubic_box.mesh import Mesh
from pyhipp.field.neighbor.kd_tree import PE
from pyhipp.group_theory.point_group import RotationXY, Rotation2DXY
from pyhipp.io.binary.fortran import BinaryFile
from pyhipp.io.h5.utils import KeyList
from pyhipp.plot.two_dim import Histogram2D
from pyhipp.stats import reduction as RD, kernel as KN
from pyhipp.stats.binning import EqualSpaceBins, BiSearchBins, BinnedData
from pyhipp.stats.preprocessing import Standardize
from pyhipp.stats.summary import SummaryFloatArray1D


class Leaf(HasSimpleRepr):
    def __init__(self, v): self.v = v
    def to_simple_repr(self): return {'leaf': self.v}


def value(r, depth=0):
    """(value, what stands for it)"""
    k = r.int(0, 6 if depth < 2 else 5)
    if k == 0: return None, None
    if k == 1: v = r.int(-9, 9); return v, v
    if k == 2: v = r.pick(['', 'a', 'text']); return v, v
    if k == 3: v = [1, 'x', r.int(0, 3)]; return v, v
    if k == 4: v = r.int(0, 99); return Leaf(v), {'leaf': v}
    if k == 5: return r.pick([(DataDict(), {}), (DataDict({'q': Leaf(3)}), {'q': {'leaf': 3}}), (KeyList(()), ())])
    return describer(r, depth + 1)


def describer(r, depth=0):
    form, typ = r.bool(), r.pick([None, True, False])
    names = [r.pick('abcdefgh') + str(i) for i in range(r.int(0, 6))]
    names = [names[i] for i in r.perm(len(names))]
    ns = dict(repr_attr_keys=tuple(names))
    if typ is not None: ns['repr_enable_type_string'] = typ
    o = type('Thing', (HasDictRepr if form else HasListRepr,), ns)()
    o.undeclared = 1
    vs = [value(r, depth) for _ in names]
    for k, (v, _) in zip(names, vs): setattr(o, k, v)
    if form: return o, ({'type': 'Thing'} if typ is not False else {}) | {k: w for k, (_, w) in zip(names, vs)}
    return o, (('Thing',) if typ else ()) + tuple(w for _, w in vs)


@contract('declared members', 2)
def _(r):
    o, want = describer(r)
    r.note(want=want)
    before = dict(o.__dict__)
    for _ in range(2):
        got = o.to_simple_repr()
        ensure(type(got) is type(want) and got == want, 'the declared members', got, want)
        if isinstance(want, dict): ensure(list(got) == list(want), 'in the order declared', got, want)
    ensure(o.__dict__ == before, 'the object is left alone')
    plain = json.loads(json.dumps(want))
    ensure(json.loads(o.to_json()) == plain, 'as JSON', o.to_json()); ensure('\n' in o.to_json(indent=2) or not want, 'options of JSON')
    ensure(yaml.unsafe_load(o.to_yaml()) == want, 'as YAML', o.to_yaml()); ensure(isinstance(repr(o), str), 'as text')
    d, w = DataDict(), {}
    for k in ('z', 'y', 'x')[:r.int(0, 3)]: d[k], w[k] = value(r)
    ensure(d.to_simple_repr() == w and list(d.to_simple_repr()) == list(w), 'entries of a data dictionary', d.to_simple_repr(), w)
    ensure(DataDict({'a': d}).to_simple_repr() == {'a': w}, 'nested dictionaries')


@contract('combining mappings')
def _(r):
    ds = [None if r.bool(.2) else {r.pick('abcdef'): r.int(0, 99) for _ in range(r.int(0, 5))} for _ in range(r.int(0, 4))]
    items = {r.pick('abcxyz'): r.int(0, 99) for _ in range(r.int(0, 3))}
    r.note(ds=ds, items=items)
    want = {}
    for d in ds + [items]:
        for k, v in (d or {}).items(): want[k] = v
    s = [None if d is None else dict(d) for d in ds]
    got = Dict.combine_dicts(*ds, **items)
    ensure(got == want and list(got) == list(want), 'later mappings win', got, want)
    got['new'] = 1
    ensure(ds == s, 'operands left alone'); ensure(Dict(*ds, **items).d == want, 'as an object')
    for d in ds: ensure(Dict.none_to_empty(d) is d if d is not None else Dict.none_to_empty(d) == {}, 'none is empty')


@contract('summary', 2)
def _(r):
    n = r.int(1, 60)
    a = r.arr(n) if r.bool() else r.iarr(n).astype(float)
    if r.bool(.2): a = a + 1e3
    r.note(a=a)
    a0 = a.copy()
    s = SummaryFloatArray1D(a)
    o = sorted(a.tolist())

    def quantile(p):
        x = p * (n - 1); i = min(int(np.floor(x)), n - 1); j = min(i + 1, n - 1)
        return o[i] + (o[j] - o[i]) * (x - i)
    mean = sum(o) / n
    want = dict(size=n, mean=mean, stddev=(sum((v - mean) ** 2 for v in o) / n) ** .5, median=quantile(.5), _1sigma=[quantile(.16), quantile(.84)],
                _2sigma=[quantile(.025), quantile(.975)], _3sigma=[quantile(.005), quantile(.995)])
    order = list(want)
    for k in [order[i] for i in r.perm(7)]: ensure_close(getattr(s, k), want[k], k, 1e-9, 1e-9)
    got = s.to_simple_repr()
    ensure(list(got) == ['type'] + order and got['type'] == 'SummaryFloatArray1D', 'members', list(got))
    for k in order: ensure_close(got[k], want[k], k, 1e-9, 1e-9)
    ensure_eq(a, a0, 'the sample is left alone')


def described(o, name, **want):
    for _ in range(2):
        got = o.to_simple_repr()
        ensure(type(got) is dict and list(got) == ['type'] + list(want) and got['type'] == name, 'members of ' + name, got, list(want))
        for k, w in want.items():
            if isinstance(w, (dict, str, bool)): ensure(got[k] == w and type(got[k]) is type(w), f'{name}.{k}', got[k], w)
            elif isinstance(w, tuple) and len(w) and isinstance(w[0], np.ndarray): ensure(len(got[k]) == len(w) and all(np.array_equal(a, b) for a, b in zip(got[k], w)), f'{name}.{k}', got[k], w)
            else: ensure_close(got[k], w, f'{name}.{k}', 1e-12, 1e-12)
        ensure(repr(o).startswith('{'), 'as text')


@contract('bins')
def _(r):
    n = r.int(1, 30); a = r.real(-5, 5); b = a + r.pos(1e-3, 1e3)
    r.note(n=n, a=a, b=b)
    e = EqualSpaceBins(x_range=(a, b), n_bins=n)
    described(e, 'EqualSpaceBins', x_range=(a, b), n_bins=n, x_span=b - a, x_step=(b - a) / n)
    x = r.asc(n + 1); x0 = x[r.perm(n + 1)]; r.note(x=x0)
    bi = BiSearchBins(x0)
    described(bi, 'BiSearchBins', x_edges=x, n_bins=n, x_span=x[-1] - x[0], x_step_mean=(x[-1] - x[0]) / n)
    for bins in (e, bi):
        bd = BinnedData(bins)
        got = bd.to_simple_repr()
        ensure(list(got) == ['type', 'bins', 'data'] and got['type'] == 'BinnedData' and list(got['bins']) == list(bins.to_simple_repr()), 'binned data', got)
        bd.add(x[:1]); ensure(bd.to_simple_repr()['data'].sum() == bd.data.sum(), 'its counts')


@contract('statistics')
def _(r):
    v, sort, f = r.pos(1e-3, 1e3), r.bool(), r.real(-9, 9)
    ps = np.sort(r.g.uniform(size=r.int(1, 5)))
    n, d = r.int(1, 9), r.int(1, 4); x = r.arr((n, d)); lb = r.pos(1e-9, 1.)
    r.note(v=v, sort=sort, f=f, ps=ps, x=x, lb=lb)
    described(KN.Gaussian(v), 'Gaussian', sigma=v); described(KN.Tophat(v), 'Tophat', radius=v)
    described(RD.Quantile(ps, sort=sort), 'Quantile', ps=ps, sort=sort); described(RD.Median(sort=sort), 'Median', sort=sort)
    k = r.pick(['mean+sd', 'median+1sigma', 'median+3sigma']); described(RD.Errorbar(k), 'Errorbar', reduce=k)
    for cls, key in (('Count', 'count'), ('Sum', 'sum'), ('Mean', 'mean'), ('StdDev', 'std_dev')): described(getattr(RD, cls)(empty_fill=f), cls, key=key, empty_fill=f)
    described(Standardize(x, sd_lb=lb), 'Standardize', mean=x.mean(0), sd=np.maximum(x.std(0), lb), sd_lb=lb)
    described(Standardize(x), 'Standardize', mean=x.mean(0), sd=np.maximum(x.std(0), 1e-10), sd_lb=1e-10)
    a = x if r.bool() else r.iarr(r.shape(3))
    got = Array(a).to_simple_repr()
    ensure(list(got) == ['type', 'n_dims', 'shape', 'dtype', 'data'] and got['type'] == 'Array' and got['n_dims'] == a.ndim and got['shape'] == a.shape and got['dtype'] == str(a.dtype), 'array', got)
    ensure_eq(got['data'], a, 'its elements')


@contract('boxes, grids and keys')
def _(r):
    n, L, th = r.int(1, 6), r.pos(1e-2, 1e3), r.pick([0., r.real(-1, 1)])
    lam = np.sort(r.g.normal(size=(n, n, n, 3)).astype('f4'), -1)
    r.note(n=n, L=L, th=th, lam=lam)
    M = Mesh.new(n, L)
    mesh = dict(type='Mesh', n_grids=n, l_box=L, l_grid=M.l_grid)
    described(M, 'Mesh', n_grids=n, l_box=L, l_grid=L / n)
    T = TidalClassifier(lam, M, lam_th=th)
    c = (lam > th).sum(-1)
    fr = {f'f_{k}': np.mean(c == i) for k, i in (('knot', 3), ('filament', 2), ('sheet', 1), ('void', 0))}
    described(T, 'TidalClassifier', mesh=mesh, lam_th=th, web_types=dict(knot=3, filament=2, sheet=1, void=0, k=3, f=2, s=1, v=0), **fr)
    described(PE(r.g.uniform(0, L * .99, (5, 3)), L, n_workers=2), 'PE', l_box=L, n_workers=2)
    a, b = r.asc(r.int(1, 5)), r.asc(r.int(1, 5)); r.note(a=a, b=b)
    described(Grid1d(a), 'Grid1d', locs=a)
    described(GridMd(a, b), 'GridMd', n_dims=2, n_locs=(len(a), len(b)), locs_1d=(a, b))
    ks = tuple(r.pick(['a', 'b/c', 'x']) for _ in range(r.int(0, 4)))
    ensure(KeyList(iter(ks)).to_simple_repr() == ks, 'keys'); 
    for cls in (RotationXY, Rotation2DXY):
        g = cls.group(); got = g.to_simple_repr()
        ensure(len(got) == len(g.ops) and all(list(x) == ['mat'] and np.array_equal(x['mat'], o.mat) for x, o in zip(got, g.ops)), 'operations', got)
    mode = r.pick(['zero', 'fixed'])
    described(Histogram2D(n, n + 1, (0., L), (-L, 0.), mode), 'Histogram2D', x_bins=n, y_bins=n + 1, x_range=(0., L), y_range=(-L, 0.), out_of_range=mode)
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'f'); open(p, 'wb').close()
        m, kw = r.pick(['rb', 'r+b']), r.pick([{}, {'buffering': 0}])
        with BinaryFile(p, m, kw) as f:
            vs = [v for k, v in f.to_simple_repr().items() if k != 'type']
            ensure(all(any(type(v) is type(w) and v == w for v in vs) for w in (p, m, kw)), 'file, mode and options', vs)
            ensure(p in repr(f), 'as text')


@contract('cosmologies', .3)
def _(r):
    h, om, ob = r.pick([.7, r.g.uniform(.4, 1.)]), float(r.g.uniform(.1, .9)), float(r.g.uniform(.01, .09))
    p = dict(hubble=float(h), omega_m0=om, omega_l0=1 - om, omega_b0=ob, t_cmb=2.7255)
    if r.bool(): p |= dict(sigma_8=.8, n_spec=.96)
    p = {k: p[k] for k in [list(p)[i] for i in r.perm(len(p))]}
    r.note(p=p)
    meta = {'ref': r.int(0, 9)}
    m = LambdaCDM.from_parameters(p, name='mine', data_dir='/data/x', meta=meta)
    want = dict(name='mine', data_dir='/data/x', meta=meta, params=[dict(name=k, value=v) for k, v in p.items()])
    got = m.to_simple_repr()
    ensure(got == want and list(got) == list(want), 'description', got, want)
    ensure(json.loads(m.to_json()) == want and yaml.safe_load(m.to_yaml()) == want, 'as JSON and YAML')
    v = r.int(0, 9)
    ensure(ParamList([Param(v, 'b'), Param(.5, 'a')]).to_simple_repr() == [dict(name='b', value=v), dict(name='a', value=.5)], 'parameters in order')
    c = LambdaCDM.from_astropy_model(m.astropy_model, name='copy')
    for k in ('hubble', 'omega_m0', 'omega_b0', 't_cmb'): ensure_close(getattr(c, k), p[k], k)
    ensure_close(c.omega_l0, m.astropy_model.Ode0, 'omega_l0'); ensure(c.name == 'copy', 'name')
    ensure(HasName().name == 'HasName' and HasName(name='q').name == 'q', 'names')
