"""C39: plain representations and summaries (core/abc.py and the classes that describe themselves, stats/summary.py, Dict in core/dataproc/data_structs.py)."""
import types
from ..harness import *
from .. import arr as A, npm, loops as L
from ..ghost import GhostMap, Name, NameS
suite = Suite()
ABC, SM, BN, PG, PM, MO, US, AR, DT_, DS, DD = ('core.abc', 'stats.summary', 'stats.binning', 'group_theory.point_group', 'astro.cosmology.param', 'astro.cosmology.model',
                                              'astro.quantity.unit_system', 'core.arrays.array', 'core.arrays.dtype', 'core.dataproc.data_structs', 'core.containers.data_dict')


class Plain:
    def __init__(self, n): self.n = n


def member(m, kind, k):
    """(attribute, its expected representation): a plain value stays itself, a describing object is represented in turn"""
    if kind == 'plain':
        v = Plain(k); return v, v
    if kind == 'none': return None, None
    r = Plain(f'repr {k}')

    class D(m.HasSimpleRepr):
        def to_simple_repr(self): return r
    if kind == 'empty': D.__len__ = lambda self: 0      # a describing container without elements
    return D(), r


for n in range(5):
    for typ in (None, True, False):
        for form in ('dict', 'tuple'):
            @suite.case(f'{n} declared members as {form}, type name={typ}')
            def _(h, n=n, typ=typ, form=form):
                m = h.mod(ABC)
                for shift in range(4):
                    names = [f'k{9 - i}' for i in range(n)]
                    ns = dict(repr_attr_keys=tuple(names))
                    if typ is not None: ns['repr_enable_type_string'] = typ
                    T = type('Thing', (m.HasDictRepr if form == 'dict' else m.HasListRepr,), ns)
                    o, want = T(), []
                    o.other = Plain('not declared')
                    for i, k in enumerate(names):
                        v, r = member(m, ('plain', 'described', 'none', 'empty')[(i + shift) % 4], k)
                        setattr(o, k, v); want.append(r)
                    before = dict(o.__dict__)
                    got = o.to_simple_repr()
                    named = typ if typ is not None else form == 'dict'
                    if form == 'dict':
                        keys = (['type'] if named else []) + names
                        h.prove('the declared members in order', type(got) is dict and list(got) == keys)
                        if named: h.prove('the name of the class', got['type'] == 'Thing')
                        h.prove('values, described objects represented in turn', all(got[k] is r for k, r in zip(names, want)))
                    else:
                        h.prove('a tuple', type(got) is tuple and len(got) == n + bool(named))
                        if named: h.prove('the name of the class', got[0] == 'Thing')
                        h.prove('values, described objects represented in turn', all(g is r for g, r in zip(got[bool(named):], want)))
                    h.prove('the object is left alone', dict(o.__dict__) == before)


for kind in ('json', 'yaml'):
    @suite.case(f'text as {kind}')
    def _(h, kind=kind):
        m = h.mod(ABC)
        calls, res = [], Plain('text')

        def dump(x, **kw):
            calls.append((x, kw)); return res
        setattr(m, kind, types.SimpleNamespace(dumps=dump, dump=dump))
        r = Plain('representation')
        T = type('T', (m.HasSimpleRepr,), {'to_simple_repr': lambda self: r})
        out = getattr(T(), 'to_' + kind)(indent=4)
        h.prove('the text of the representation with the options given', out is res and len(calls) == 1 and calls[0][0] is r and calls[0][1] == {'indent': 4})


@suite.case('names')
def _(h):
    m = h.mod(ABC)
    T = type('T', (m.HasName,), {})
    h.prove('its own name', T(name='x').name == 'x'); h.prove('else that of the class', T().name == 'T'); h.prove('text', T(name=3).name == '3')


@suite.case('summary of a sample')
def _(h):
    n = h.size('n', 1)
    a = h.array('a', n)
    s0 = a.snap()
    s = h.mod(SM).SummaryFloatArray1D(a)
    Q = h.mod('stats.reduction').Quantile
    mean = S(A.mk_sum(lambda t: C.toreal(S(s0((t,)))), C.toint(n), R)) / S(C.toreal(n))
    for again in range(2):
        h.prove('size', s.size == n)
        h.eq('mean', s.mean, mean)
        h.eq('population deviation', s.stddev, npm.sqrt(S(A.mk_sum(lambda t: C.toreal((S(s0((t,))) - mean) * (S(s0((t,))) - mean)), C.toint(n), R)) / S(C.toreal(n))))
        h.eq('median', s.median, npm.median(a))
        for k, ps in (('_1sigma', (.16, .84)), ('_2sigma', (.025, .975)), ('_3sigma', (.005, .995))):
            got = getattr(s, k)
            h.shape(k, got, (2,))
            for c in (0, 1): h.eq(f'{k} range', at(got, c), npm.quantile(a, ps[c]))
    h.prove('listed', list(s.to_simple_repr()) == ['type', 'size', 'mean', 'stddev', 'median', '_1sigma', '_2sigma', '_3sigma'])
    h.unchanged('sample', a, s0)


def same(h, name, got, want): h.prove(name, got is want if not isinstance(want, (int, str, S)) else got == want)


@suite.case('bins')
def _(h):
    M = h.mod(BN)
    n = h.size('n', 1)
    a, b_ = h.real('a'), h.real('b'); h.assume(a < b_)
    r = M.EqualSpaceBins(x_range=(a, b_), n_bins=n).to_simple_repr()
    h.prove('members', list(r) == ['type', 'x_range', 'n_bins', 'x_span', 'x_step'] and r['type'] == 'EqualSpaceBins')
    h.prove('values', conj(r['x_range'][0] == a, r['x_range'][1] == b_, r['n_bins'] == n, r['x_span'] == b_ - a, r['x_step'] * S(C.toreal(n)) == b_ - a))
    e = h.array('e', n + 1); h.ascending(e)
    bi = M.BiSearchBins(e)
    r = bi.to_simple_repr()
    h.prove('members', list(r) == ['type', 'x_edges', 'n_bins', 'x_span', 'x_step_mean'] and r['type'] == 'BiSearchBins')
    i = h.idx(n + 1)
    h.prove('values', conj(r['n_bins'] == n, r['x_span'] == at(bi.x_edges, n) - at(bi.x_edges, 0))); h.eq('edges', at(r['x_edges'], i), at(bi.x_edges, i))
    bd = M.BinnedData(M.EqualSpaceBins(x_range=(a, b_), n_bins=n))
    r = bd.to_simple_repr()
    h.prove('members', list(r) == ['type', 'bins', 'data'] and r['type'] == 'BinnedData' and r['data'] is bd.data and list(r['bins']) == ['type', 'x_range', 'n_bins', 'x_span', 'x_step'])


@suite.case('operations and groups')
def _(h):
    P = h.mod(PG)
    for cls in ('RotationXY', 'Rotation2DXY'):
        g = getattr(P, cls).group()
        r = g.to_simple_repr()
        h.prove('one entry per operation, in order', len(r) == len(g.ops) and all(list(x) == ['mat'] and x['mat'] is o.mat for x, o in zip(r, g.ops)))
    h.prove('empty group', P.Group().to_simple_repr() == [])


@suite.case('arrays and element types')
def _(h):
    n, m = h.size('n'), h.size('m')
    a = h.mod(AR).Array(h.array('a', (n, m)))
    r = a.to_simple_repr()
    h.prove('members', list(r) == ['type', 'n_dims', 'shape', 'dtype', 'data'] and r['type'] == 'Array' and r['n_dims'] == 2 and r['data'] is a._impl)
    h.prove('shape', conj(S(C.lift(r['shape'][0])) == n, S(C.lift(r['shape'][1])) == m))



@suite.case('combining mappings')
def _(h):
    D = h.mod(DS).Dict
    a, b_, c = ({k: Plain((t, k)) for k in ks} for t, ks in (('a', 'xyz'), ('b', 'yw'), ('c', 'zyv')))
    sa, sb, sc = dict(a), dict(b_), dict(c)
    h.prove('later mappings win, items last', D.combine_dicts(a, None, b_, c, z=1) == sa | sb | sc | {'z': 1} and list(D.combine_dicts(a, b_)) == list(sa | sb))
    h.prove('operands left alone', (a, b_, c) == (sa, sb, sc))
    h.prove('nothing', D.combine_dicts() == {} and D.combine_dicts(None) == {} and D(a, y=2).d == sa | {'y': 2})
    out = D.combine_dicts(a); out['new'] = 1
    h.prove('a new dictionary', a == sa)
    e = {}
    h.prove('none is empty', D.none_to_empty() == {} and D.none_to_empty(None) == {} and D.none_to_empty(e) is e and D.none_to_empty(a) is a)


@suite.case('data dictionaries')
def _(h):
    m = h.mod(DD)
    H = h.mod(ABC)
    for n in range(4):
        for shift in range(4):
            d, want = m.DataDict(), {}
            for i in range(n):
                v, r = member(H, ('plain', 'described', 'none', 'empty')[(i + shift) % 4], i)
                d[f'k{i}'] = v; want[f'k{i}'] = r
            got = d.to_simple_repr()
            h.prove('every entry, described objects represented in turn', list(got) == list(want) and all(got[k] is want[k] for k in want) and got is not d.get_dict())
            h.prove('views', list(d.keys()) == list(want) and len(list(d.values())) == n and [k for k, _ in d.items()] == list(want) and len(d) == n)
    outer = m.DataDict({'a': m.DataDict({'b': 1})})
    h.prove('nested', outer.to_simple_repr() == {'a': {'b': 1}})


@suite.case('parameters')
def _(h):
    P = h.mod(PM)
    v, w = h.real('v'), h.real('w')
    p, q = P.Param(v, 'one'), P.Param(w, 'two')
    r = P.ParamList([p, q]).to_simple_repr()
    h.prove('in order', [x['name'] for x in r] == ['one', 'two'] and [list(x) for x in r] == [['name', 'value']] * 2)
    h.prove('values', conj(S(C.lift(r[0]['value'])) == v, S(C.lift(r[1]['value'])) == w))


def cosmology(h, **kw):
    p = dict(hubble=h.real('hubble', gt=0), omega_m0=h.real('om', gt=0, hi=1), omega_l0=h.real('ol'), omega_b0=h.real('ob', gt=0), t_cmb=h.real('tcmb', lo=0),
             sigma_8=h.real('s8'), n_spec=h.real('ns'))
    h.assume(C.PI > 3)
    return p


@suite.case('cosmology models')
def _(h):
    p = cosmology(h)
    meta = {'ref': Plain('x')}
    m = h.mod(MO).LambdaCDM.from_parameters(p, name='mine', data_dir='/data/x', meta=meta)
    r = m.to_simple_repr()
    h.prove('members', list(r) == ['name', 'data_dir', 'meta', 'params'] and r['name'] == 'mine' and r['data_dir'] == '/data/x' and r['meta'] is meta)
    h.prove('parameters in order', [x['name'] for x in r['params']] == list(p))
    for x in r['params']: h.eq(x['name'], S(C.lift(x['value'])), p[x['name']])
    h.eq('sigma_8', at(m.sigma_8), p['sigma_8']); h.eq('n_spec', at(m.n_spec), p['n_spec'])


@suite.case('a model from an astropy cosmology')
def _(h):
    p = cosmology(h)
    src = types.SimpleNamespace(h=p['hubble'], Om0=p['omega_m0'], Ode0=p['omega_l0'], Ob0=p['omega_b0'], Tcmb0=p['t_cmb'], H0=100 * p['hubble'])
    m = h.mod(MO).LambdaCDM.from_astropy_model(src, name='copy')
    h.prove('name', m.name == 'copy')
    for k in ('hubble', 'omega_m0', 'omega_l0', 'omega_b0', 't_cmb'): h.eq(k, at(getattr(m, k)), p[k])
    H0, Om0, Tcmb, Ob0 = m.astropy_model.args
    h.eq('H0', at(H0), 100 * p['hubble']); h.eq('Om0', at(Om0), p['omega_m0']); h.eq('Tcmb0', at(Tcmb), p['t_cmb']); h.eq('Ob0', at(Ob0), p['omega_b0'])


# ---------------------------------------------------------------- what each class says of itself
def described(h, o, name, **want):
    r = o.to_simple_repr()
    h.prove(f'{name} can be represented', type(r) is dict and list(r) == ['type'] + list(want) and r['type'] == name)
    for k, v in want.items():
        if isinstance(v, A.SArr):
            ix = [h.idx(d) for d in v.shape]
            h.shape(k, r[k], tuple(v.shape)); h.eq(k, at(r[k], *ix), at(v, *ix))
        elif isinstance(v, S) or type(v) is float: h.eq(k, at(r[k]) if isinstance(r[k], A.SArr) else S(C.lift(r[k])), v)
        else: h.prove(k, r[k] is v or r[k] == v)
    return r


@suite.case('standardisation')
def _(h):
    m = h.mod('stats.preprocessing')
    n, d = h.size('n', lo=1), h.size('d')
    x = h.array('train', (n, d))
    lb = h.real('sd_lb', gt=0)
    t = m.Standardize(x, sd_lb=lb)
    described(h, t, 'Standardize', mean=t.mean, sd=t.sd, sd_lb=lb)
    described(h, m.Standardize(x), 'Standardize', mean=t.mean, sd=m.Standardize(x).sd, sd_lb=1e-10)


@suite.case('record files')
def _(h):
    m = h.mod('io.binary.fortran')
    f, kw = Plain('file'), {'buffering': 0}
    h.replace('io.binary.fortran', 'open', lambda path, mode='r', **k: f)
    for args, want in ((('data',), ('data', 'rb', {})), (('data', 'r+b', kw), ('data', 'r+b', kw))):
        r = m.BinaryFile(*args).to_simple_repr()
        h.prove('path, mode and options', r['type'] == 'BinaryFile' and all(any(v is w or v == w for k, v in r.items() if k != 'type') for w in want))


@suite.case('meshes and cells')
def _(h):
    n, L = h.int('n', lo=1), h.real('L', gt=0)
    M = h.mod('field.cubic_box.mesh').Mesh.new(n, L)
    described(h, M, 'Mesh', n_grids=n, l_box=L, l_grid=L / S(C.toreal(n)))
    C_ = h.mod('field.cubic_box.cosmic_web')
    lam = h.array('lam', (n, n, n, 3))
    h.assume_all(lam, lambda v, i, j, k, c: conj(imp(c == 0, v <= at(lam, i, j, k, 1)), imp(c == 1, v <= at(lam, i, j, k, 2))))
    th = h.real('th')
    t = C_.TidalClassifier(lam, M, lam_th=th)
    r = t.to_simple_repr()
    h.prove('members', list(r) == ['type', 'mesh', 'lam_th', 'web_types', 'f_knot', 'f_filament', 'f_sheet', 'f_void'] and r['type'] == 'TidalClassifier')
    h.prove('the mesh', list(r['mesh']) == ['type', 'n_grids', 'l_box', 'l_grid']); h.eq('threshold', S(C.lift(r['lam_th'])), th)
    h.prove('classes', {k: r['web_types'][k] for k in ('knot', 'filament', 'sheet', 'void')} == dict(knot=3, filament=2, sheet=1, void=0))
    for k in ('knot', 'filament', 'sheet', 'void'): h.eq('fraction of ' + k, at(r['f_' + k]) if isinstance(r['f_' + k], A.SArr) else S(C.lift(r['f_' + k])), S(C.lift(getattr(t, 'f_' + k))))


@suite.case('grids')
def _(h):
    G = h.mod('core.dataproc.grid')
    n, m = h.size('n', lo=1), h.size('m', lo=1)
    a, b_ = h.array('a', n), h.array('b', m)
    h.ascending(a); h.ascending(b_)
    described(h, G.Grid1d(a), 'Grid1d', locs=a)
    r = G.GridMd(a, b_).to_simple_repr()
    h.prove('members', list(r) == ['type', 'n_dims', 'n_locs', 'locs_1d'] and r['type'] == 'GridMd' and r['n_dims'] == 2 and len(r['locs_1d']) == 2)
    h.prove('sizes', conj(r['n_locs'][0] == n, r['n_locs'][1] == m))
    i, j = h.idx(n), h.idx(m)
    h.eq('first axis', at(r['locs_1d'][0], i), at(a, i)); h.eq('second axis', at(r['locs_1d'][1], j), at(b_, j))


@suite.case('kernels and reductions')
def _(h):
    K, Rd = h.mod('stats.kernel'), h.mod('stats.reduction')
    v = h.real('v', gt=0)
    described(h, K.Gaussian(v), 'Gaussian', sigma=v); described(h, K.Tophat(v), 'Tophat', radius=v); described(h, K.Gaussian(), 'Gaussian', sigma=1.); described(h, K.Tophat(), 'Tophat', radius=1.)
    p = h.array('ps', (3,))
    for sort in (True, False):
        described(h, Rd.Quantile(p, sort=sort), 'Quantile', ps=p, sort=sort)
        described(h, Rd.Median(sort=sort), 'Median', sort=sort)
    for kind in ('mean+sd', 'median+2sigma'): described(h, Rd.Errorbar(kind), 'Errorbar', reduce=kind)
    f = h.real('fill')
    for cls, key in (('Count', 'count'), ('Sum', 'sum'), ('Mean', 'mean'), ('StdDev', 'std_dev')): described(h, getattr(Rd, cls)(empty_fill=f), cls, key=key, empty_fill=f)


@suite.case('histograms of the plane')
def _(h):
    T = h.mod('plot.two_dim')
    xb, yb, xr, yr = (Plain(k) for k in ('xb', 'yb', 'xr', 'yr'))
    for mode in ('zero', 'fixed'): described(h, T.Histogram2D(xb, yb, xr, yr, mode), 'Histogram2D', x_bins=xb, y_bins=yb, x_range=xr, y_range=yr, out_of_range=mode)
    described(h, T.Histogram2D(), 'Histogram2D', x_bins=10, y_bins=10, x_range=(0., 1.), y_range=(0., 1.), out_of_range='zero')


@suite.case('keys')
def _(h):
    U = h.mod('io.h5.utils')
    for ks in ((), ('b', 'a'), ('x', 'y', 'x')): h.prove('keys in order', U.KeyList(ks).to_simple_repr() == ks and U.KeyList(iter(ks)).to_simple_repr() == ks)
