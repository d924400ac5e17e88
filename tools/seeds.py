"""Definitions of the planted bugs (written from the property texts; the patches are generated by tools/seed.py)."""
SEEDS = {}


def seed(name, prop, edits, needs, breaks, demo):
    SEEDS[name] = dict(property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo)


seed('C06-edge-side', 'C06', [('core/dataproc/grid.py', "return np.searchsorted(self.locs, x, side='right') - 1", "return np.searchsorted(self.locs[1:], x, side='left')\\\n            - (np.asarray(x) < self.locs[0])")],
     'a value exactly on an inner grid location', 'a value equal to a location is assigned to the cell below it', '''
import numpy as np
from pyhipp.core.dataproc import GridMd
g = GridMd(np.array([0., 1., 2.]), np.array([0., .5, 1.]))
i, j = g.locate(np.array([[1., .2], [.5, .5], [-1., 1.], [3., 2.]]))
assert list(i) == [1, 0, -1, 2], i
assert list(j) == [0, 1, 2, 2], j
''')

seed('C07-combine-alias', 'C07', [('stats/binning.py', 'x_out = x[:n_out].copy()', 'x_out = np.ascontiguousarray(x[:n_out])')],
     'combining at least two bins of a one-dimensional array (the copy is skipped when the slice is contiguous)', 'the caller\'s contents are overwritten and windows of three or more bins sum already modified contents', '''
import numpy as np
from pyhipp.stats.binning import Bin
x = np.arange(1., 7.)
y = Bin.combine_adjacent_bins(x, 3)
assert np.allclose(y, [6, 9, 12, 15]), y
assert np.allclose(x, np.arange(1., 7.)), x
''')

seed('C09-nearest-last', 'C09', [('numerical/interpolate.py', '''    if r > n-1:
        return n-1
    dx_l = x_dst''', '''    if r > n-1:
        return n-1
    if r == n-1:
        return r
    dx_l = x_dst''')],
     'a value in the last interval that is closer to its left node', 'the nearest node of a value in the last interval is always the last one', '''
import numpy as np
from pyhipp.numerical.interpolate import bisearch_nearest, bisearch_nearest_array
x = np.array([0., 1., 2., 4.])
assert bisearch_nearest(x, 2.1) == 2
assert list(bisearch_nearest_array(x, np.array([.1, 1.9, 2.2, 3.9]))) == [0, 2, 2, 3]
''')

seed('C10-trunc', 'C10', [('field/cubic_box/mass_assignment.py', '''        i_l = np.int64(x_l)
        i_r''', '''        i_l = np.int64(x)
        i_r''')],
     'a position below zero (outside the box on the low side)', 'negative positions are deposited one grid point too far to the right', '''
import numpy as np
from pyhipp.field.cubic_box.mass_assignment import DensityField
a, b = DensityField(8., 4), DensityField(8., 4)
a.add(np.array([[-.7, 1., 3.]])); b.add(np.array([[7.3, 1., 3.]]))
assert np.allclose(a.data, b.data)
''')

seed('C28-order', 'C28', [('group_theory/point_group.py', 'ops.append(op0.combined(op1))', 'ops.append(op1.combined(op0))')],
     'combining groups whose operations do not commute, looking at the order of the products', 'the matrices of a pair are multiplied in the wrong order', '''
import numpy as np
from pyhipp.group_theory.point_group import RotationXY, ReflectionX
a, b = RotationXY.group(), ReflectionX.group()
c = a.combined(b)
want = [x.mat @ y.mat for x in a for y in b]
assert all(np.allclose(o.mat, w) for o, w in zip(c, want))
''')

seed('C29-deg-hours', 'C29', [('core/dataproc/frame.py', "        vnew_y = np.cross(vnew_z, vnew_x)\n", "        vnew_y = np.cross(vnew_x, vnew_z)\n")],
     'a vector with a second tangential component', 'the frame is left-handed: the second tangential axis is inverted', '''
import numpy as np
from pyhipp.core.dataproc.frame import Polar
x = np.array([[1., 2., 3.]])
e = [Polar.rt_to_cart(x, np.eye(3)[[k]])[0] for k in range(3)]
assert np.allclose(np.cross(e[0], e[1]), e[2])
''')
del SEEDS['C29-deg-hours']   # touches a line of an own fix commit

seed('C01-tuple-slash', 'C01', [('core/containers/data_dict.py', '''            for _key, _val in zip(key, val):
                self[_key] = _val
            return''', '''            self._dict.update(zip(key, val))
            return''')],
     'a tuple write with a slash-separated member', 'the member is stored as a top-level name with slashes instead of in the nested dictionary', '''
from pyhipp.core import DataDict
d = DataDict({'a': {'x': 1}, 'b': 2})
d['a/x', 'b'] = 10, 20
assert d['a/x'] == 10 and d['b'] == 20 and len(d) == 2
''')

seed('C02-subset-view', 'C02', [('core/containers/data_table.py', '''            k: v[args] for k, v in self.items()
        }, copy=copy)''', '''            k: v[args] for k, v in self.items()
        }, copy=copy and isinstance(args, slice))''')],
     'a row selection by an ellipsis (a basic selection that is no slice) followed by a write', 'the subset shares memory with the table', '''
import numpy as np
from pyhipp.core import DataTable
t = DataTable({'a': np.arange(4.), 'b': np.arange(8).reshape(4, 2)})
for sel in (..., (slice(1, 3),), np.array([0, 2]), slice(0, 2)):
    s = t.subset(sel)
    s['a'][...] = -1
    s['b'][...] = -1
    assert (t['a'] == np.arange(4.)).all() and (t['b'] == np.arange(8).reshape(4, 2)).all(), sel
''')

seed('C02-concat-repeat', 'C02', [('core/containers/data_table.py', 'all_tables = [self] + list(other)', 'all_tables = [self] + list({id(t): t for t in other}.values())')],
     'the same table given twice to a concatenation', 'its rows appear once only', '''
import numpy as np
from pyhipp.core import DataTable
a, b = DataTable({'x': np.arange(2.)}), DataTable({'x': np.array([5.])})
assert a.concat(a)['x'].tolist() == [0., 1., 0., 1.]
assert a.concat(b, b)['x'].tolist() == [0., 1., 5., 5.]
''')

seed('C03-copy-view', 'C03', [('core/dataproc/frame.py', 'x', 'x')], '', '', '')
del SEEDS['C03-copy-view']

seed('C08-norm-before-mask', 'C08', [('stats/reduction.py', '''        if mask is not None:
            x = x[mask]
            if weight is not None:
                weight = weight[mask]
        if x.size == 0:''', '''        if weight is not None:
            weight = weight / weight.sum()
        if mask is not None:
            x = x[mask]
            if weight is not None:
                weight = weight[mask]
        if x.size == 0:'''), ('stats/reduction.py', '''            weight = weight / weight.sum()
            out = self''', '''            out = self''')],
     'a weighted quantile or median with a mask', 'weights are normalised over the masked-out entries too', '''
import numpy as np
from pyhipp.stats.reduction import Quantile
x = np.arange(8.)
w = np.ones(8)
m = np.arange(8) < 4
q = Quantile([.25, .5, .75])
assert np.allclose(q(x, w, m), q(x[m], w[m])), (q(x, w, m), q(x[m], w[m]))
''')

seed('C08-predefined-kw', 'C08', [('stats/reduction.py', '''        if reduce == 'mean+sd':
            mean = Mean(empty_fill)(x, weight, mask)
            sd = StdDev(empty_fill)(x, weight, mask)''', '''        if reduce == 'mean+sd':
            mean = Mean(empty_fill)(x, weight, mask)
            sd = StdDev(empty_fill)(x, mask=mask)''')],
     'the error bar mean+sd with weights', 'the standard deviation of the error bar ignores the weights', '''
import numpy as np
from pyhipp.stats.reduction import Errorbar, StdDev
x, w = np.array([1., 2., 5.]), np.array([3., 1., 1.])
assert np.allclose(Errorbar('mean+sd')(x, w)[1], StdDev()(x, w))
''')

seed('C12-odd-grid', 'C12', [('field/cubic_box/smoothing.py', '''                ki[1] = np.float64(i1 - N if i1 > Nd2 else i1)
                for i2 in range(Nd2p1):
                    ki[2] = np.float64(i2)
                    w = sm''', '''                ki[1] = np.float64(i1 - N if i1 >= Nd2 else i1)
                for i2 in range(Nd2p1):
                    ki[2] = np.float64(i2)
                    w = sm''')],
     'a grid with an odd number of cells per side', 'the highest mode of the second axis gets the window of a higher frequency', '''
import numpy as np
from pyhipp.field.cubic_box.smoothing import FFTSmoothing
from pyhipp.field.cubic_box.field import Field
from pyhipp.field.cubic_box.mesh import Mesh
for n in (4, 5):
    mesh = Mesh.new(n, 10.)
    g = np.random.default_rng(0).normal(size=(n, n, n))
    a = FFTSmoothing(r_sm=1.3).run(Field.new_by_data(g, mesh=mesh)).data
    b = FFTSmoothing(r_sm=1.3).run(Field.new_by_data(g.transpose(1, 0, 2).copy(), mesh=mesh)).data
    assert np.allclose(a, b.transpose(1, 0, 2)), n
''')

seed('C12-tophat-small', 'C12', [('field/cubic_box/smoothing.py', '''        if kr < 1.0e-6:
            return 1.0''', '''        if kr < 1.0:
            return 1.0''')],
     'a top-hat radius small compared with the box', 'modes with k r below one are not damped', '''
import numpy as np
from pyhipp.field.cubic_box.smoothing import _Tophat
from pyhipp.field.cubic_box.mesh import Mesh
t = _Tophat(1., Mesh.new(4, 10.)._impl)
k = 2 * np.pi / 10.
assert np.isclose(t.window_at_ki(np.array([1., 0., 0.])), 3 * (np.sin(k) - k * np.cos(k)) / k**3, rtol=1e-6)
''')

seed('C13-low-modes', 'C13', [('field/cubic_box/gravity.py', 'if ki_sq < 1.0e-6:', 'if ki_sq < 1.5:')],
     'a density with power in the fundamental modes of the box', 'the fundamental modes do not gravitate: the trace of the tensor is not the density', '''
import numpy as np
from pyhipp.field.cubic_box.gravity import TidalField
from pyhipp.field.cubic_box.field import Field
from pyhipp.field.cubic_box.mesh import Mesh
n = 6
rho = 1. + .3 * np.sin(2 * np.pi * np.arange(n) / n)[:, None, None] * np.ones((n, n, n))
r = TidalField(r_sm=1.).run(Field.new_by_data(rho, mesh=Mesh.new(n, 10.)))
assert np.allclose(np.trace(r.T_x, axis1=-2, axis2=-1), r.delta_sm_x)
''')

seed('C14-short-names', 'C14', [('field/cubic_box/cosmic_web.py', """        'f': 2,
        's': 1,""", """        'f': 1,
        's': 2,""")],
     'the one-letter names of filaments and sheets', 'filaments and sheets are exchanged', '''
import numpy as np
from pyhipp.field.cubic_box.cosmic_web import TidalClassifier
from pyhipp.field.cubic_box.mesh import Mesh
lam = np.sort(np.random.default_rng(1).normal(size=(3, 3, 3, 3)), axis=-1)
t = TidalClassifier(lam, Mesh.new(3, 6.))
for a, b in (('knot', 'k'), ('filament', 'f'), ('sheet', 's'), ('void', 'v')):
    x, y = t.grid_points_of_web_type(a), t.grid_points_of_web_type(b)
    assert x.shape == y.shape and (x == y).all(), a
''')

seed('C14-round', 'C14', [('field/cubic_box/cosmic_web.py', 'n_lams = np.count_nonzero(lam > lam_th, axis=-1)', 'n_lams = np.count_nonzero(lam >= lam_th, axis=-1)')],
     'an eigenvalue equal to the threshold', 'it counts as above the threshold', '''
import numpy as np
from pyhipp.field.cubic_box.cosmic_web import TidalClassifier
from pyhipp.field.cubic_box.mesh import Mesh
t = TidalClassifier(np.tile([-1., .5, 2.], (2, 2, 2, 1)), Mesh.new(2, 4.), lam_th=.5)
assert (t.n_lams == 1).all()
''')

seed('C15-ceil', 'C15', [('field/neighbor/kd_mesh.py', 'ub0, ub1, ub2 = mesh.x2xi_3(x_dst + r_dst) + 1', 'ub0, ub1, ub2 = np.ceil((x_dst + r_dst) / mesh.l_grid).astype(np.int64)')],
     'a neighbour at exactly the query radius on the lower face of a cell', 'the cell that begins at the end of the sphere is not searched', '''
import numpy as np
from pyhipp.field.neighbor import kd_mesh as K
from numba.experimental import jitclass
import numba

@jitclass
class Q:
    xs: numba.float64[:, :]
    rs: numba.float64[:]
    n: numba.int64[:]
    def __init__(self, xs, rs):
        self.xs = xs; self.rs = rs; self.n = np.zeros(len(xs), dtype=np.int64)
    def on(self, i, x):
        self.n[i] += len(x)
xs = np.array([[.5, 5., 5.], [6., 5., 5.], [9.5, 5., 5.]])
m = K._PE3_from_meshing_points(K._PE3Mesh(10., 10), xs)
q = Q(np.array([[2.5, 5., 5.]]), np.array([3.5]))
m.query_points(q)
assert q.n[0] >= 3, q.n
''')

seed('C15-last-cell', 'C15', [('field/neighbor/kd_mesh.py', '''            if xi_fs[e] > i_f:
                break''', '''            if xi_fs[e] != i_f:
                break''')],
     'nothing: an equivalent rewrite for sorted cells', '', '')
del SEEDS['C15-last-cell']

seed('C16-lower-image', 'C16', [('field/neighbor/kd_tree.py', 'dx[dx < -l_half] += l_box', 'dx[dx <= -l_box] += l_box')],
     'distances to a neighbour across the upper face of the box', 'the distance is not the periodic one', '''
import numpy as np
from pyhipp.field.neighbor import kd_tree as T
k = [v for n, v in vars(T).items() if isinstance(v, type) and hasattr(v, 'query_r_1') ][0]
t = k(np.array([[.1, 5., 5.], [5., 5., 5.]]), 10.)
i, d = t.query_r_1(np.array([9.9, 5., 5.]), .5, return_d=True)
assert list(i) == [0] and np.allclose(d, .2), (i, d)
''')

seed('C17-kernel-weight', 'C17', [('stats/regression.py', '''                w_k = kernel(d)
                w = w_k if w is None else w * w_k
            y_pred''', '''                w_k = kernel(d)
                w = w_k
            y_pred''')],
     'a local kernel regression with sample weights and a kernel', 'the sample weights are ignored', '''
import numpy as np
from pyhipp.stats.regression import KernelRegression1D as R
x, y, w = np.array([0., .1, .2]), np.array([1., 2., 4.]), np.array([1., 5., 1.])
o = R.by_local_kernel(x, y, np.array([.1]), max_dx=1., kernel=('gaussian', {'sigma': .5}), weight=w)['y_mean']
k = np.exp(-.5 * (x - .1)**2 / .25) * w
assert np.allclose(o, (k * y).sum() / k.sum())
''')

seed('C17-max-dx', 'C17', [('stats/regression.py', 'mask = None if max_dx is None else ds < max_dx', 'mask = None if not max_dx else ds < max_dx')],
     'a maximum distance of zero', 'all neighbours are used', '''
import numpy as np
from pyhipp.stats.regression import KernelRegression1D as R
o = R.by_knn(np.arange(4.), np.arange(4.), np.array([1.]), k=2, max_dx=0., reduce='count')['y_count']
assert o[0] == 0, o
''')

seed('C18-volume-clip', 'C18', [('stats/density_estimation.py', 'r_max.clip(max=max_dx, out=r_max)', 'r_max[(~mask).all(1)] = max_dx')],
     'a maximum distance that excludes some but not all of the nearest neighbours', 'the weight of the selected neighbours is spread over the volume out to the farthest unselected one', '''
import numpy as np
from pyhipp.stats.density_estimation import _KnnDensityEstimation as K
x = np.array([0., .1, .2, 3.])
o = K().fit(x)(np.array([0.]), k=4, max_dx=1.)
assert np.allclose(o['h'], .75 / 2.), o['h']
''')

seed('C18-kernel-norm', 'C18', [('stats/density_estimation.py', 'w_k_sum = (w_k * mask).sum(1)', 'w_k_sum = w_k.sum(1)')],
     'nearest-neighbour density with a kernel and a maximum distance', 'the kernel weights are normalised over the excluded neighbours', '''
import numpy as np
from pyhipp.stats.density_estimation import _KnnDensityEstimation as K
x = np.array([0., .1, .2, 3.])
o = K().fit(x)(np.array([0.]), k=4, max_dx=1., kernel=('gaussian', {'sigma': 2.}))
assert np.allclose(o['h'], .75 / 2.), o['h']
''')

seed('C19-rows', 'C19', [('stats/sampling.py', '''                if ids is None:
                    n = len(v)''', '''                if ids is None or len(v) != n:
                    n = len(v)''')],
     'nothing for columns of equal length', '', '')
del SEEDS['C19-rows']

seed('C19-noise-lg', 'C19', [('stats/sampling.py', '''            re_n = min(n, max_n)
                    ids''' if False else '''                    re_n = min(n, max_n)''', '''                    re_n = min(n, *max_ns)''')],
     'several data sets with different size limits', 'every data set is limited by the smallest of the limits', '''
import numpy as np
from pyhipp.stats.sampling import Bootstrap
seen = []
def f(a, b):
    seen.append((len(a), len(b)))
    return {'m': a.mean()}
Bootstrap.resampled_call(f, [{'a': np.arange(9.)}, {'b': np.arange(9.)}], ['m'], dsets_max_sizes=[6, 3], n_resample=3)
assert seen == [(6, 3)] * 3, seen
''')

seed('C20-alias', 'C20', [('stats/preprocessing.py', 'sd.clip(sd_lb, out=sd)', 'sd = np.where(sd < sd_lb, 1., sd)')],
     'a training column that is (nearly) constant', 'the spread of such a column is replaced by one instead of the lower bound', '''
import numpy as np
from pyhipp.stats.preprocessing import Standardize
s = Standardize(np.array([[1., 2.], [1., 4.]]), sd_lb=.5)
assert np.allclose(s(np.array([[2., 3.]])), [[2., 0.]]), s(np.array([[2., 3.]]))
''')

seed('C21-omega', 'C21', [('astro/cosmology/flat_lambda_cdm_nr.py', "        return self.mean0() * zp1**3", "        return self.mean0() * zp1**3 if z > -0.5 else self.mean0()")],
     'a redshift below -0.5 (the far future)', 'the mean density stops diluting', '''
from pyhipp.astro.cosmology.flat_lambda_cdm_nr import _planck_2015 as c
d = c.densities()
import math
assert math.isclose(d.mean(-.75), d.crit(-.75) * c.omega_m(-.75), rel_tol=1e-9)
''')

seed('C30-falsy', 'C30', [('core/abc.py', '''        c = self.cache
        if key in c:
            out = c[key]
        else:''', '''        c = self.cache
        out = c.get(key)
        if out is None:''')],
     'a computed value that is None', 'the value is computed again on every request', '''
from pyhipp.core.abc import HasCache
n = []
c = HasCache()
for _ in range(3): c.get_cache_or('k', lambda: n.append(1))
assert len(n) == 1
''')

seed('C30-set-values', 'C30', [('astro/cosmology/param.py', '''        for i, p in enumerate(self._params):
            p.set_value(values[i])''', '''        for v, i in zip(values, self._name2idx.values()):
            self._params[i].set_value(v)''')],
     'parameters that share a name', 'only one of the parameters of that name gets a value, and the values shift', '''
import numpy as np
from pyhipp.astro.cosmology.param import Param, ParamList
l = ParamList([Param(0., 'a'), Param(0., 'a'), Param(0., 'b')])
l.set_values([1., 2., 3.])
assert [float(v) for v in l.values] == [1., 2., 3.]
''')

seed('C25-zero-dim', 'C25', [('io/h5/utils.py', '            or np.isscalar(data)', '            or np.ndim(data) == 0')],
     'a value that is no array and no scalar but has no dimensions (None, a set, any object)', 'it passes the check and fails after other entries have been written', '''
import os, tempfile
from pyhipp.io import h5
with tempfile.TemporaryDirectory() as t:
    with h5.File(os.path.join(t, 'f'), 'x') as f:
        try: f.dump({'a': 1, 'b': {'c': None}})
        except TypeError: pass
        assert len(f) == 0, list(f.keys())
''')

seed('C25-parents', 'C25', [('io/h5/named_objs.py', '''                if create_parent:
                    g = g.create_group(k, flag='ac')''', '''                if create_parent:
                    g = g.create_group(k, flag=g_flag)''')],
     'a destination below an existing group', 'an existing parent is refused', '''
import os, tempfile
from pyhipp.io import h5
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, 'f')
    h5.File.dump_to(p, {'x': 1}, key='a/b')
    h5.File.dump_to(p, {'y': 2}, key='a/c')
    assert h5.File.load_from(p, 'a/c')['y'] == 2
''')

seed('C26-link-kind', 'C26', [('io/h5/named_objs.py', '''            val = self._raw[key]
            if not isinstance(val, h5py.Group):
                raise ValueError(f'key {key} does not refer to a group')
            val = Group(val)''', '''            val = self._raw[key]
            if not isinstance(val, h5py.Group):
                del self._raw[key]
                val = self._raw.create_group(key)
            val = Group(val)''')],
     'opening or creating a group whose name is taken by a dataset', 'the dataset is replaced', '''
import os, tempfile
from pyhipp.io import h5
with tempfile.TemporaryDirectory() as t:
    with h5.File(os.path.join(t, 'f'), 'x') as f:
        f.datasets.create('a', 1.5)
        try: f.create_group('a', flag='ac')
        except ValueError: pass
        else: raise SystemExit('replaced')
        assert f.datasets['a'] == 1.5
''')

seed('C26-attr-dtype', 'C26', [('io/h5/named_objs.py', '''                raise ValueError(f'Redundant key {key}')
            self._raw.modify(key, data)''', '''                raise ValueError(f'Redundant key {key}')
            self._raw[key] = data''')],
     'overwriting an attribute with a value of another type', 'the datatype of the attribute changes', '''
import os, tempfile
import numpy as np
from pyhipp.io import h5
with tempfile.TemporaryDirectory() as t:
    with h5.File(os.path.join(t, 'f'), 'x') as f:
        f.attrs.create('a', np.float32(1.))
        f.attrs.create('a', 2, flag='ac')
        assert f.attrs['a'].dtype == np.float32, f.attrs['a'].dtype
''')

seed('C26-file-flag', 'C26', [('io/h5/named_objs.py', "        'ca':   'a',", "        'ca':   'w',")],
     'the flag ca on an existing file', 'the file is truncated', '''
import os, tempfile
from pyhipp.io import h5
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, 'f')
    h5.File.dump_to(p, {'x': 1})
    h5.File.dump_to(p, {'y': 1}, f_flag='ca')
    assert h5.File.load_from(p)['x'] == 1
''')

seed('C27-layer-default', 'C27', [('io/yaml.py', """            if k in data:
                d[k] = data[k]""", """            if data.get(k) is not None:
                d[k] = data[k]""")],
     'a deeper node that defines a requested key as null', 'the value of a shallower node is returned', '''
import os, tempfile
from pyhipp.io.yaml import ConfigFileParser
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, 'c.yaml')
    open(p, 'w').write('a: 1\\nb: 2\\nsub:\\n  a: null\\n')
    d = ConfigFileParser(p, [], ['sub']).get(['a', 'b'])
    assert d['a'] is None and d['b'] == 2, d
''')

seed('C27-skip-check', 'C27', [('io/binary/fortran.py', """        self.skip_rec(dtype, n=n)
        n2 = self.load_rec(np.int32)
        assert n1 == n2""", """        self.seek(int(n1), 1)
        n2 = self.load_rec(np.int32)
        assert n1 == n2""")],
     'a section whose lengths agree but differ from the size of the items asked for', 'skipping consumes the recorded length instead of the payload of the given type and count', '''
import os, tempfile
import numpy as np
from pyhipp.io.binary.fortran import BinaryFile
with tempfile.TemporaryDirectory() as t:
    p = os.path.join(t, 'f')
    np.array([8, 7, 7, 7, 7, 8, 0, 0, 0], dtype=np.int32).tofile(p)
    with BinaryFile(p) as f:
        f.skip_sect(np.int32, 4)
        assert f.load_rec(np.int32) == 0 and f._file.tell() == 28
''')


seed('C31-init-kw', 'C31', [('io/h5/abc.py', """            for k, t in cls.h5_data_typedict.items()    
        } | init_kw
        return cls(**init_kw)""", """            for k, t in cls.h5_data_typedict.items()    
        }
        for k in data:
            init_kw.pop(k, None)
        return cls(**(init_kw | out))"""), ('io/h5/abc.py', """        init_kw = {
            k: from_h5_data(data.pop(k), t)""", """        out = {
            k: from_h5_data(data[k], t)""")],
     'an argument given at loading for a member that is stored in the file', 'the stored value takes the place of the argument given at loading', '''
import tempfile, os, numpy as np
from pyhipp.io import h5
from pyhipp.io.h5.abc import GroupLike


class P(GroupLike):
    h5_data_typedict = {'a': np.ndarray, 'n': int}
    def __init__(self, a, n): self.a, self.n = a, n


with tempfile.TemporaryDirectory() as d:
    f = os.path.join(d, 'p.h5')
    P(np.arange(3.), 4).to_h5_file(f)
    p = P.from_h5_file(f)
    assert p.n == 4 and list(p.a) == [0, 1, 2]
    p = P.from_h5_file(f, n=7)
    assert p.n == 7, p.n
''')

seed('C31-join-flag', 'C31', [('field/cubic_box/mass_assignment.py', 'out_group.dump(out, flag=flag)', "out_group.dump(out, flag='x' if flag == 'x' else 'ac')")],
     'joining dumps over existing members with a flag that is neither refusing nor updating', 'joining accepts any flag and updates existing members', '''
import tempfile, os, numpy as np
from pyhipp.io import h5
from pyhipp.field.cubic_box.mass_assignment import DensityField
with tempfile.TemporaryDirectory() as d:
    with h5.File(os.path.join(d, 'p.h5'), 'w') as f:
        x = DensityField(1., 2); x.add(np.array([[.1, .2, .3]])); x.dump(f.create_group('a'))
        out = f.create_group('out'); x.dump(out)
        try: DensityField.join_dumps([f['a'], f['a']], out, flag='no such flag')
        except Exception: pass
        else: raise SystemExit('unknown flag accepted')
        assert out.load()['data'].sum() == f['a'].load()['data'].sum()
''')

seed('C31-join-order', 'C31', [('field/cubic_box/mass_assignment.py', """        for i, in_group in enumerate(in_groups):
            if i == 0:
                out = in_group.load()
            else:
                data = out['data']
                data += in_group.datasets['data']""", """        out = None
        for in_group in in_groups:
            dump = in_group.load()
            if out is not None:
                dump['data'] += out['data']
            out = dump""")],
     'joining dumps of unequal boxes', 'the grid of the last dump is stored instead of that of the first', '''
import tempfile, os, numpy as np
from pyhipp.io import h5
from pyhipp.field.cubic_box.mass_assignment import DensityField
with tempfile.TemporaryDirectory() as d:
    with h5.File(os.path.join(d, 'p.h5'), 'w') as f:
        for n, b in (('a', 1.), ('b', 2.)):
            x = DensityField(b, 2); x.add(np.array([[.1, .2, .3]])); x.dump(f.create_group(n))
        DensityField.join_dumps([f['a'], f['b']], f.create_group('out'))
        o = f['out'].load()
        assert np.allclose(o['data'], f['a'].load()['data'] + f['b'].load()['data'])
        assert o['l_box'] == 1., o['l_box']
''')

seed('C32-noise-twice', 'C32', [('astro/stats/lss.py', "        if noise is not None:\n            x_to_bin = noise.add_to(x_to_bin)", "        if noise is not None:\n            x_to_bin = noise.add_to(x_to_bin)\n            if weights is not None:\n                x_to_bin = np.sort(x_to_bin)")],
     'noise and weights together', 'the noisy values are reordered without their weights', '''
import numpy as np
from pyhipp.astro.stats.lss import BinnedVolumeDensity
from pyhipp.stats import RandomNoise
x = np.array([3.5, .5, 2.5, 1.5]); w = np.array([1., 10., 100., 1000.])


class Still:
    def add_to(self, x): return x + 0.


tot = set()
a = BinnedVolumeDensity.from_raw(x, bins=4, range=(0., 4.), sub_bins=1, weights=w, noise=Still(), rng=0)
b = BinnedVolumeDensity.from_raw(x, bins=4, range=(0., 4.), sub_bins=1, weights=w, rng=0)


def flat(d):
    out = []
    for k in d.keys():
        v = d[k]
        if hasattr(v, 'keys'): out += flat(v)
        elif isinstance(v, np.ndarray): out.append(v)
    return out


u, v = flat(a), flat(b)
assert len(u) == len(v) > 0
for p, q in zip(u, v): assert np.allclose(p, q, equal_nan=True), (p, q)
''')

seed('C32-pad', 'C32', [('astro/stats/lss.py', 'lg_y = dp.Num.safe_lg(y, lo=lg_y_pad)', 'lg_y = dp.Num.lg(y + lg_y_pad)')],
     'densities comparable to the pad', 'the pad is added to every density instead of raising small ones', '''
import numpy as np
from pyhipp.astro.stats.lss import BinnedVolumeDensity
x = np.array([.5, .5, 1.5, 3.5])
d = BinnedVolumeDensity.from_raw(x, bins=4, range=(0., 4.), sub_bins=1, volume=1., n_bootstrap=3, policy=BinnedVolumeDensity.Policy(lg_y_pad=.5), rng=0)


def find(d, key):
    for k in d.keys():
        v = d[k]
        if k == key and not hasattr(v, 'keys'): yield v
        if hasattr(v, 'keys'):
            for z in v.keys():
                if k == key and isinstance(v[z], np.ndarray): yield z, v[z]
            yield from find(v, key)


from pyhipp.stats import Bootstrap
got = []
orig = Bootstrap.resampled_call


def spy(stat, **kw):
    def f(*a, **k):
        o = stat(*a, **k); got.append((o['y'], o['lg_y'])); return o
    return orig(f, **kw)


Bootstrap.resampled_call = staticmethod(spy)
BinnedVolumeDensity.from_raw(x, bins=4, range=(0., 4.), sub_bins=1, volume=1., n_bootstrap=3, policy=BinnedVolumeDensity.Policy(lg_y_pad=.5), rng=0)
assert got
for y, l in got: assert np.allclose(l, np.log10(np.maximum(y, .5))), (y, l)
''')

seed('C33-alias', 'C33', [('core/dataproc/grid.py', 'locs = np.array(locs, dtype=np.float64)', 'locs = np.asarray(locs, dtype=np.float64)')],
     'a grid given as a float64 array that is changed afterwards', 'the grid shares storage with the array it was made from', '''
import numpy as np
from pyhipp.core.dataproc import GridMd
a = np.array([0., 1., 2.])
g = GridMd(a, np.arange(4))
a[0] = -5
assert list(g.locs_1d[0]) == [0, 1, 2], g.locs_1d[0]
''')

seed('C33-square', 'C33', [('core/dataproc/grid.py', 'out_shape = locs[0].shape + out.shape[1:]', 'out_shape = locs[-1].T.shape[::-1] + out.shape[1:] if len(locs) > 2 else\\\n            (*(len(np.unique(loc)) for loc in locs[::-1]), *out.shape[1:])')],
     'a two-dimensional grid with unequal numbers of points in matrix order, or with repeated locations', 'values are laid out with the axes of the xy order whatever was requested', '''
import numpy as np
from pyhipp.core.dataproc import GridMd
g = GridMd(np.array([0., 1., 2.]), np.array([0., 10.]))
for xy in (True, False):
    r = g.applied(lambda p: p[:, 0] + p[:, 1], xy_indexing=xy)
    assert r.values.shape == r.locs[0].shape
    assert np.array_equal(r.values, r.locs[0] + r.locs[1])
''')

seed('C34-permuted', 'C34', [('stats/random.py', "        self._np_rng.shuffle(a, axis=axis)", "        self._np_rng.permuted(a, axis=axis, out=a)")],
     'shuffling an array of more than one dimension', 'every column is shuffled on its own, so rows are torn apart', '''
import numpy as np
from pyhipp.stats.random import Rng
a = np.arange(40).reshape(20, 2); r = Rng(3); r.shuffle(a)
assert (a[:, 1] == a[:, 0] + 1).all(), a
b = np.arange(40).reshape(20, 2); np.random.default_rng(3).shuffle(b)
assert np.array_equal(a, b)
''')

seed('C34-spawn', 'C34', [('stats/random.py', "            np_rng = seed._np_rng\n        else:\n            assert isinstance(seed, (int, type(None)))", "            np_rng = seed._np_rng.spawn(1)[0]\n        else:\n            assert isinstance(seed, (int, type(None)))")],
     'a random source made from another one', 'the sources no longer share their draws', '''
from pyhipp.stats.random import Rng
a = Rng(5); b = Rng(a); c = Rng(5)
x = [a.random(), b.random(), a.random()]
assert x == [c.random() for _ in range(3)], x
''')

seed('C35-negative-k', 'C35', [('astro/cosmology/power_spectrum.py', "        k = np.abs(k)\n        if k == 0.0:", "        if k <= 0.0:")],
     'a negative wave number with the baryon variant', 'the transfer function is one at every negative wave number', '''
from pyhipp.astro.cosmology import power_spectrum as P
t = P._TransferFunctionEH98(); t.set_cosmology(.3, .15, .7)
assert t.transfer_function(0.) == 1.
assert abs(t.transfer_function(-.2) - t.transfer_function(.2)) < 1e-12
assert 0 < t.transfer_function(.2) < .5
''')

seed('C35-degenerate', 'C35', [('astro/cosmology/power_spectrum.py', "        num_degen_hdm = np.float64(degen_hdm)", "        num_degen_hdm = np.float64(degen_hdm) if degen_hdm < 3 else 3.0")],
     'more than three degenerate neutrino species', 'four or more species are treated as three', '''
from pyhipp.astro.cosmology import power_spectrum as P
t = P._TransferFunctionEH99(); v = []
for n in (3, 4):
    t.set_cosmology(.3, .05, .03, n, .7, .7); v.append(t.transfer_function(.1))
assert abs(v[0] / v[1] - 1) > 1e-6, v
''')

seed('C35-late-cosmology', 'C35', [('astro/cosmology/power_spectrum.py', """        if with_baryon_effect:
            eh98 =""", """        with_baryon_effect = with_baryon_effect \\
            and cosm.baryon_fraction() > 0.02
        if with_baryon_effect:
            eh98 =""")],
     'the baryon variant of a cosmology with few baryons', 'the no-wiggle fit is used although the baryon fit was selected', '''
from pyhipp.astro.cosmology import power_spectrum as P, flat_lambda_cdm_nr as F
m = F._FlatLambdaCDMNR(.7, .3, .005, 1., .8)
t = P._TransferFunctionFlatLambdaCDMNR(m, True)
e = P._TransferFunctionEH98(); e.set_cosmology(.3, .005 / .3, .7)
assert abs(t.transfer_function(.1) / e.transfer_function(.1) - 1) < 1e-9
''')

seed('C03-zero-limit', 'C03', [('core/dataproc/num.py', """        if lo is not None:
            x = max(x, lo)""", """        if lo:
            x = max(x, lo)""")],
     'a scalar and a limit that is zero', 'a lower limit of zero is ignored for scalars', '''
from pyhipp.core.dataproc import Num
assert Num.bound(-1., lo=0.) == 0.
assert Num.bound(-1., lo=-.5) == -.5 and Num.bound(3., hi=2.) == 2.
''')

seed('C03-hi-lo', 'C03', [('core/dataproc/num.py', """        if hi is not None:
            sel = x > hi
            x[sel] = hi
        return x""", """        if hi is not None:
            sel = x > hi if lo is None else (x - lo) > (hi - lo)
            x[sel] = min(hi, np.max(x)) if hi > 0 else hi
        return x""")],
     'an integer array and a fractional positive limit, or limits that differ by less than the rounding of the values', 'no change of behaviour is intended for ordinary arrays', '''
import numpy as np
from pyhipp.core.dataproc import Num
x = np.array([1e16, 1e16 + 4, 0.])
y = Num.bound(x, lo=-1e-3, hi=1e16)
assert list(y) == [1e16, 1e16, 0.], y
e = Num.bound(np.zeros(0), 0., 1.)
assert e.shape == (0,)
''')

seed('C04-falsy-limit', 'C04', [('core/dataproc/filter.py', """        if max is not None:
            mask &= ( x < max )""", """        if max:
            mask &= ( x < max )""")],
     'an upper limit of zero', 'an upper limit of zero is ignored', '''
import numpy as np
from pyhipp.core.dataproc.filter import Range
assert list(Range(max=0)(np.array([-1., 0., 2.]))) == [-1.]
assert list(Range(min=0, max=2)(np.array([-1., 0., 2.]))) == [0.]
''')

seed('C04-generator-sizes', 'C04', [('core/dataproc/iter.py', "        ranges = Chunks.ranges_by_sizes(sizes)\n        assert len(seqs) > 0", "        assert len(seqs) > 0\n        ranges = Chunks.ranges_by_sizes(\n            s for s in sizes if s > 0) if len(seqs) > 1 else Chunks.ranges_by_sizes(sizes)")],
     'several sequences and a size of zero', 'empty pieces are left out for several sequences', '''
from pyhipp.core.dataproc.iter import Chunks
a, b = list(range(5)), list('abcde')
assert list(Chunks.slices_by_sizes([2, 0, 3], a)) == [[0, 1], [], [2, 3, 4]]
assert list(Chunks.slices_by_sizes([2, 0, 3], a, b)) == [([0, 1], ['a', 'b']), ([], []), ([2, 3, 4], ['c', 'd', 'e'])]
''')

seed('C05-where-upper', 'C05', [('core/dataproc/frame.py', "        mask = PeriodicBox.__combine_mask(x >= l_box, where)\n        x[mask] -= l_box\n            \n        return x\n    \n    @staticmethod\n    def shift_to", "        mask |= x >= l_box\n        x[mask & (x >= l_box)] -= l_box\n            \n        return x\n    \n    @staticmethod\n    def shift_to")],
     'a selection mask and an unselected value above the box', 'values above the box are shifted although they are not selected', '''
import numpy as np
from pyhipp.core.dataproc.frame import PeriodicBox
x = np.array([-.1, 1.2, .5, 1.3])
y = PeriodicBox.shift_in(x, 1., where=np.array([True, False, True, True]))
assert np.allclose(y, [.9, 1.2, .5, .3]), y
assert np.allclose(PeriodicBox.shift_in(x, 1.), [.9, .2, .5, .3])
''')

seed('C22-constant-density', 'C22', [('astro/cosmology/halo_theory.py', "        rho_crit = self.model.rho_crit(z) * a**3", "        rho_crit = self.model.rho_crit(0.0 * z) if np.ndim(z) else self.model.rho_crit(z) * a**3")],
     'an array of redshifts with the critical-density definition', 'the critical density of today is used for arrays of redshifts', '''
import numpy as np
from pyhipp.astro.cosmology.model import predefined
m = predefined['tng'] if hasattr(predefined, '__getitem__') else predefined.load('tng')
h = m.halo_theory
z = np.array([0., 1., 3.])
a = h.rho_vir_crit(200., z); b = np.array([h.rho_vir_crit(200., v) for v in z])
assert np.allclose(a, b, rtol=1e-10), (a, b)
''')

seed('C23-hbar', 'C23', [('astro/quantity/unit_system.py', "self.__conv_coef(c.h, self.u_angular_momentum)", "self.__conv_coef(c.hbar, self.u_angular_momentum)")],
     'use of the Planck constant', 'the reduced Planck constant is stored as the Planck constant', '''
from pyhipp.astro.quantity.unit_system import UnitSystem
import astropy.constants as c
u = UnitSystem(1., 1., 1.)
assert abs(u.c_h_planck / c.h.si.value - 1) < 1e-12
''')

seed('C24-tilt', 'C24', [('astro/cosmology/power_spectrum.py', "        f1 = 2.0 * np.pi**2 * k**n_spec", "        f1 = 2.0 * np.pi**2 * k**min(n_spec, 1.0)")],
     'a spectral index above one', 'the power spectrum of a blue-tilted cosmology loses its tilt', '''
import numpy as np
from pyhipp.astro.cosmology import power_spectrum as P, flat_lambda_cdm_nr as F
s = P._PowerSpectrumFlatLambdaCDMNR(F._FlatLambdaCDMNR(.7, .3, .05, 1.2, .8))
for k in (.01, 1., 10.): assert abs(s.big_delta_sqr(k, 0.) / (k**3 * s.power(k, 0.) / (2 * np.pi**2)) - 1) < 1e-9
''')

seed('C24-node', 'C24', [('astro/cosmology/power_spectrum.py', "            sigma_sqr = self.sigma_sqr_at_mass(_m, 0.0)\n            lsigma[i]", "            sigma_sqr = self.sigma_sqr_at_mass(_m if i + 1 < n_nodes else m[-2] * (m[-1] / m[-2])**0.999, 0.0)\n            lsigma[i]")],
     'the last node of the table of log-variances', 'the last tabulated value belongs to a slightly smaller mass', '''
import numpy as np
from pyhipp.astro.cosmology import power_spectrum as P, flat_lambda_cdm_nr as F
s = P._PowerSpectrumFlatLambdaCDMNR(F._FlatLambdaCDMNR(.7, .3, .05, 1., .8))
t = s.interp_lg_sigma_at_lg_mass((-1., 3.), 5)
for x in (-1., 1., 3.):
    want = np.log10(np.sqrt(s.sigma_sqr_at_mass(10.**x, 0.)))
    assert abs(t.value_at(x) - want) < 1e-7, x
''')

seed('C29-pole', 'C29', [('core/dataproc/frame.py', "        vnew_x = np.cross(vold_z, vnew_z)", "        vnew_x = np.cross(vold_z, np.where(np.abs(vnew_z) < 1e-6, 0., vnew_z))")],
     'a position within 1e-6 of a coordinate plane', 'the frame is not orthogonal near the coordinate planes', '''
import numpy as np
from pyhipp.core.dataproc.frame import Polar
x = np.array([[5e-7, 8e-6, 1.]])
e = [Polar.rt_to_cart(x, np.array([v]))[0] for v in ([1., 0, 0], [0, 1., 0], [0, 0, 1.])]
M = np.array(e)
assert np.allclose(M @ M.T, np.eye(3), atol=1e-9), M @ M.T
''')

STUB = '''
import sys, types, numpy as np
calls = []
class MassFunction:
    def __init__(self, **kw): calls.append(kw); self.m = 10.**np.arange(kw['Mmin'], kw['Mmax'], kw['dlog10m']); self.dndlog10m = self.m**-.9
sys.modules['hmf'] = types.ModuleType('hmf'); sys.modules['hmf'].MassFunction = MassFunction
from pyhipp.astro.cosmology.halo_theory import HaloTheory
th = HaloTheory('/nonexistent', None)
'''

seed('C36-mean-priority', 'C36', [('astro/cosmology/halo_theory.py', """            impl_kw = {
                'mdef_model': 'SOMean',
                'mdef_params': {'overdensity': 200.0},
            } | impl_kw""", """            impl_kw = impl_kw | {
                'mdef_model': 'SOMean',
                'mdef_params': {'overdensity': 200.0},
            }""")],
     'mass definition 200mean together with caller parameters for the definition', 'the caller\'s overdensity is replaced', STUB + '''
th.mass_function(1., 2., .1, 0., mass_def='200mean', impl_kw={'mdef_params': {'overdensity': 500.}})
assert calls[-1]['mdef_params'] == {'overdensity': 500.}, calls
''')

seed('C36-upper-mass', 'C36', [('astro/cosmology/halo_theory.py', "lgM_max + 10.0 + dlgM * 0.001", "lgM_max + 10.0")],
     'a range that is a whole number of steps', 'the upper mass of the range is missing from the result', STUB + '''
r = th.mass_function(1., 3., .25, 0.)
assert abs(r.lgM[-1] - 3.) < 1e-9, r.lgM
''')

seed('C36-slope-nodes', 'C36', [('astro/cosmology/halo_theory.py', "        kw = {'kind': 'slinear'}\n        f_lg_sigma_at_lg_m", "        kw = {'kind': 'slinear', 'bounds_error': False}\n        f_lg_sigma_at_lg_m")],
     'an argument outside the stored range', 'arguments outside the table give nan instead of being refused', '''
import numpy as np, h5py, tempfile, os
from pyhipp.astro.cosmology.halo_theory import HaloTheory
d = tempfile.mkdtemp(); fn = os.path.join(d, 'd.hdf5')
with h5py.File(fn, 'w') as f:
    f['LgDeltaC/z'] = [0., 1., 2.]; f['LgDeltaC/lg_delta_c'] = [.2, .3, .5]
    f['LgSigma/lg_m'] = [0., 1.]; f['LgSigma/lg_sigma'] = [1., .5]; f['LgSigma/dlg_sigma_dlg_m'] = [-.1, -.2]
th = HaloTheory(fn, None)
try: v = th.lg_delta_c(2.5)
except ValueError: v = 'refused'
import shutil; shutil.rmtree(d)
assert v == 'refused', v
''')

seed('C37-other-copy', 'C37', [('core/dataproc/mask.py', "Mask.on_array(mask, _a, copy=copy) \n", "Mask.on_array(mask, _a) \n")],
     'several arrays, a slice as the mask and a copy requested', 'the second and later results share storage with the arrays', '''
import numpy as np
from pyhipp.core.dataproc.mask import Mask
a, b = np.arange(4.), np.arange(4.)
x, y = Mask.on_arrays(slice(0, 3), a, b, copy=True)
y[...] = 9
assert b[0] == 0, b
''')

seed('C37-flatten', 'C37', [('core/arrays/array.py', "out = self._impl.flatten() if copy else self._impl.ravel()", "out = self._impl.ravel() if copy or self.n_dims > 1 else self._impl")],
     'a flattened copy that is written to', 'the flattened copy shares storage with the array', '''
import numpy as np
from pyhipp.core.arrays import Array
t = Array([[1., 2.], [3., 4.]])
f = t.flatten(); f._impl[0] = 9
assert t._impl[0, 0] == 1, t._impl
''')

seed('C37-set-value', 'C37', [('core/abc.py', "        self.value[...] = value", "        if np.shape(value) == self.value.shape:\n            self.value = np.asarray(value, dtype=self.value.dtype)\n        else:\n            self.value[...] = value")],
     'a view of the value taken before it is set, or the array set being changed later', 'setting rebinds the value instead of storing into it', '''
import numpy as np
from pyhipp.core.abc import HasValue
v = HasValue(np.zeros(3)); q = v.value; y = np.arange(3.)
v.set_value(y); y[0] = 5
assert v.value is q and v.value[0] == 0, v.value
''')

seed('C37-dict-kind', 'C37', [('core/dataproc/mask.py', "        out_d = type(d)()\n        for k, v in d.items():", "        out_d = type(d)()\n        for k, v in sorted(d.items()):")],
     'a mapping whose keys are not in alphabetical order', 'the entries come back in another order', '''
import numpy as np
from pyhipp.core.dataproc.mask import Mask
d = Mask.on_dict({'b': np.arange(3), 'a': np.arange(3)}, [0, 2])
assert list(d) == ['b', 'a'], list(d)
''')

seed('C38-putmask', 'C38', [('plot/two_dim.py', "            sel = (x_id != _x_id) | (y_id != _y_id)\n", "            sel = (x_id != _x_id) & (x_id < n_x) | (y_id != _y_id)\n")],
     'a point to the right of the range, within it in y', 'points beyond the upper x limit get the density of the last cell instead of zero', '''
import numpy as np
from pyhipp.plot.two_dim import Histogram2D
e = Histogram2D(x_bins=3, y_bins=2).fit(np.r_[.1, .5, .9, .95], np.r_[.2, .7, .3, .8])
v = e.on(np.r_[-.5, 1.5, .5], np.r_[.3, .3, 1.5])
assert (v == 0).all(), v
''')

seed('C38-knn-weight', 'C38', [('plot/two_dim.py', "            z = w[ids,].sum(1) / s", "            z = w[ids,].mean(1) * self.k / s")],
     'weights and fewer data points than the requested number of neighbours', 'the weight of the neighbours is scaled to neighbours that do not exist', '''
import numpy as np
from pyhipp.plot.two_dim import KNearestNeighbor2D
x, y, w = np.r_[0., 1., 0.], np.r_[0., 0., 2.], np.r_[1., 2., 4.]
v = KNearestNeighbor2D(k=5).fit(x, y, w).on(np.r_[0.], np.r_[0.])[0]
assert abs(v - 7 / (4 * np.pi)) < 1e-12, v
''')

seed('C38-mesh-order', 'C38', [('plot/two_dim.py', "        z_m = self.on(x_m.reshape(-1), y_m.reshape(-1)).reshape(x_m.shape)", "        z_m = self.on(x_m.T.reshape(-1), y_m.T.reshape(-1)).reshape(x_m.shape)\n        if len(x) == len(y): z_m = z_m.T")],
     'a mesh with different numbers of points along the two axes', 'the densities land on other positions of the mesh', '''
import numpy as np
from pyhipp.plot.two_dim import DensityEstimator2D
class E(DensityEstimator2D):
    def on(self, x, y): return x + 10 * y
r = E().on_meshgrid(np.arange(3.), np.arange(2.))
assert np.array_equal(r.z_m, r.x_m + 10 * r.y_m), r.z_m
''')

seed('C38-level', 'C38', [('plot/two_dim.py', "        id = np.searchsorted(prob, ps_lo) + id_shift", "        id = np.searchsorted(prob, ps_lo, side='right') + id_shift")],
     'a percentile that coincides with the accumulated fraction of a cell', 'the level is the next denser cell, so the contour holds less than the percentile', '''
import numpy as np
from pyhipp.plot.two_dim import Scatter2D, DensityEstimator2D
class E(DensityEstimator2D):
    def fit(self, x, y, weight=None): return self
    def on(self, x, y): return np.array([1., 1., 2., 4.])
s = Scatter2D(None, np.r_[0., 1.], np.r_[0., 1.], n_bins=2, density_estimator=E())
v = s.z_level_at_percentile([.75])[0]
assert v == 1., v
''')

seed('C39-falsy', 'C39', [('core/abc.py', """            if isinstance(v, HasSimpleRepr):
                v = v.to_simple_repr()
            out[k] = v""", """            if v and isinstance(v, HasSimpleRepr):
                v = v.to_simple_repr()
            out[k] = v""")],
     'a member that describes itself and is empty',
     'an empty container is left as the object instead of its representation, so the JSON text cannot be made',
     '''
from pyhipp.core.abc import HasDictRepr
from pyhipp.core.containers.data_dict import DataDict
class Thing(HasDictRepr):
    repr_attr_keys = ('options',)
t = Thing(); t.options = DataDict()
assert t.to_json() == '{"type": "Thing", "options": {}}'
assert type(t.to_simple_repr()['options']) is dict
t.options['a'] = 1
assert t.to_simple_repr() == {'type': 'Thing', 'options': {'a': 1}}
''')

seed('C39-combine', 'C39', [('core/dataproc/data_structs.py', """        out = {}
        for d in dicts:
            if d is not None:
                out.update(d)
        out.update(items)""", """        out = {}
        for d in dicts:
            if d is not None:
                out = {**out, **d} if out else d
        if items:
            out = {**out, **items}""")],
     'a single mapping (or others empty), and the result modified afterwards',
     'the result is the operand itself, so changing it changes the caller mapping',
     '''
from pyhipp.core.dataproc.data_structs import Dict
a = {'x': 1}
out = Dict.combine_dicts(None, a); out['y'] = 2
assert a == {'x': 1}, a
assert Dict.combine_dicts(a, {'x': 3}, z=1) == {'x': 3, 'z': 1}
''')
