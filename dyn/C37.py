"""Executable contracts: masked selections, conversions, typed arrays."""
import numpy as np
from dyn.fw import *
from pyhipp.core.dataproc.mask import Mask
from pyhipp.core.dataproc.data_structs import Array as AsArray
from pyhipp.core.arrays import Array, IntArray, BoolArray, Shape, FlatIndexArray, IndexArray, DType
from pyhipp.core.abc import HasValue


def same(msg, a, b):
    ensure(isinstance(a, np.ndarray), msg + ': an array', type(a)); ensure(a.shape == np.shape(b), msg + ': shape', a.shape, np.shape(b)); ensure_eq(a, b, msg)


@contract('masks', 2)
def _(r):
    n = r.int(1, 7)
    xs = [r.pick([r.arr((n,)), r.iarr((n,), -9, 9), r.arr((n, r.int(0, 3)))]) for _ in range(r.int(1, 4))]
    m = r.pick([(r.g.random(n) < r.pick([0., .5, 1.])), (r.g.random(n) < .5).tolist(), r.iarr((r.int(0, 6),), -n, n - 1), int(r.int(-n, n - 1)), slice(r.int(0, n), r.int(0, n)), slice(None, None, -2), Ellipsis])
    copy = r.pick([None, False, True]); kw = {} if copy is None else dict(copy=copy)
    r.note(xs=xs, mask=m, copy=copy)
    x0 = [x.copy() for x in xs]
    out = Mask.on_arrays(m, *xs, **kw)
    if len(xs) == 1: out = (out,)
    ensure(isinstance(out, tuple) and len(out) == len(xs), 'one per array')
    one = Mask.on_array(m, xs[0], **kw); same('one array', one, xs[0][m])

    class Other(dict): pass
    cls = r.pick([dict, Other]); D = cls(); D.update({k: x for k, x in zip('dbca', xs)})
    E = Mask.on_dict(D, m, **kw); ensure(type(E) is cls and list(E) == list(D), 'same kind and keys', type(E), list(E))
    for a, x in zip('dbca', xs): same('entry ' + a, E[a], x[m]); ensure(D[a] is x, 'mapping left alone')
    for o, x in zip(out, xs): same('array', o, x[m])
    for x, y in zip(xs, x0): ensure_eq(x, y, 'arrays unchanged')
    if copy:
        for o in list(out) + [one] + list(E.values()): o[...] = 77
        for x, y in zip(xs, x0): ensure_eq(x, y, 'storage of its own')


@contract('put', 1)
def _(r):
    sh = r.pick([(r.int(0, 6),), (r.int(1, 3), r.int(0, 4))])
    x, s, m = r.arr(sh), r.arr(sh), (r.g.random(sh) < r.pick([0., .5, 1.])); r.note(x=x, s=s, m=m)
    want = np.where(m, s, x); s0, m0 = s.copy(), m.copy()
    Mask.put(x, s, m); ensure_eq(x, want, 'written where the mask holds'); ensure_eq(s, s0, 'source'); ensure_eq(m, m0, 'mask')


@contract('conversion', 1)
def _(r):
    copy = r.pick([None, True, False]); kw = {} if copy is None else dict(copy=copy)
    xs = [r.pick([None, 3, 2.5, [1, 2], (), [[1., 2.]], r.arr((r.int(0, 4),)), r.iarr((2, 2), 0, 9), r.mask((3,))]) for _ in range(r.int(1, 5))]
    r.note(xs=xs, copy=copy)
    out = AsArray.as_array(*xs, **kw)
    if len(xs) == 1: out = (out,)
    ensure(isinstance(out, tuple) and len(out) == len(xs), 'a tuple')
    for o, x in zip(out, xs):
        if x is None: ensure(o is None, 'None'); continue
        same('converted', o, x); ensure(o.dtype == np.asarray(x).dtype, 'type')
        if isinstance(x, np.ndarray) and x.size: ensure(np.shares_memory(o, x) == (copy is False), 'storage')
    ensure_raises(AssertionError, lambda: AsArray.as_array(**kw), 'of nothing')
    x = r.pick([r.arr((3,)), [1., 2., 3.]]); v = HasValue(x, **kw); same('value', v.value, x); y = r.arr((3,)); q = v.value; v.set_value(y)
    ensure(v.value is q, 'in place'); same('set', q, y); ensure(not np.shares_memory(q, y), 'not aliased')
    if copy is not False and isinstance(x, np.ndarray): ensure(not np.shares_memory(x, q), 'storage of the value')


@contract('typed arrays', 2)
def _(r):
    sh = r.pick([(r.int(0, 6),), (r.int(1, 3), r.int(1, 4)), (2, 1, 3)])
    x = r.pick([r.arr(sh), r.iarr(sh, -4, 4), r.mask(sh)]); copy = r.pick([None, True, False]); kw = {} if copy is None else dict(copy=copy)
    src = r.pick([x, x, x.tolist()]); r.note(x=src, copy=copy)
    cls = r.pick([Array, IntArray, BoolArray])
    t = cls(src, **kw)
    same('values', t._impl, x); ensure(t.n_dims == x.ndim and t.size == x.size and len(t) == len(x), 'description'); same('shape', t.shape._impl, list(x.shape)); ensure(type(t.shape) is Shape, 'shape is a shape')
    if src is x and x.size: ensure(np.shares_memory(t._impl, x) == (copy is False), 'storage')
    dt = r.pick(['f8', 'f4', 'i4']); d = r.pick([dt, DType(dt), np.dtype(dt)])
    u = cls(src, dtype=d, **kw); same('converted', u._impl, x.astype(dt)); ensure(u._impl.dtype == np.dtype(dt) and u.dtype._impl == np.dtype(dt) and u.dtype.size == np.dtype(dt).itemsize, 'type')
    w = Array(t, **kw); same('of a typed array', w._impl, x)
    if x.size: ensure(np.shares_memory(w._impl, t._impl) == (copy is False), 'storage of a typed array')
    c, f, v = t.copied(), t.flatten(), t.flatten(copy=False)
    same('copied', c._impl, x); same('flattened', f._impl, x.ravel()); same('flattened in place', v._impl, x.ravel())
    if x.size: ensure(not np.shares_memory(c._impl, t._impl) and not np.shares_memory(f._impl, t._impl) and np.shares_memory(v._impl, t._impl), 'storage of copies')
    ax = r.pick([None, None, -1, 0]); r.note(axis=ax); kw = {} if ax is None and r.bool() else dict(axis=ax)
    if r.bool(): kw['kind'] = 'stable'
    before = t._impl.copy()
    s, o = t.sorted(**kw), t.argsort(**kw)
    same('sorted', s._impl, np.sort(x, axis=ax)); flat = x.ravel() if ax is None else x
    same('values at the positions', np.take_along_axis(flat, o._impl, 0 if ax is None else ax), s._impl); ensure(type(o) is (FlatIndexArray if ax is None else IntArray), 'kind of index')
    if ax is None: ensure(o.n_indexed == x.size, 'number indexed', o.n_indexed); ensure_eq(np.sort(o._impl), np.arange(x.size), 'each position once')
    ensure_eq(t._impl, before, 'unchanged')
    for fn, val in (('zeros', 0), ('ones', 1)):
        q = r.pick([3, (2,), (2, 3), [1, 4], Shape((2, 2))]); want = (q,) if isinstance(q, int) else tuple(q._impl) if isinstance(q, Shape) else tuple(q)
        z = getattr(cls, fn)(q, d); ensure(type(z) is cls and z._impl.shape == want and z._impl.dtype == np.dtype(dt) and bool((z._impl == val).all()), fn); ensure(getattr(cls, fn)(q)._impl.dtype == np.float64, fn + ': default type')


@contract('index arrays', 1)
def _(r):
    q, d = r.int(0, 4), r.int(1, 4); i1, i2 = r.iarr((q,), 0, 9), r.iarr((q, d), 0, 9); r.note(i1=i1, i2=i2)
    f = FlatIndexArray(10, i1); same('flat', f._impl, i1); ensure(f.n_indexed == 10, 'indexed')
    shp = tuple(int(v) for v in r.g.integers(1, 9, d))
    g = IndexArray(r.pick([shp, list(shp), Shape(shp)]), i2); same('indices', g._impl, i2); same('shape indexed', g.shape_indexed._impl, list(shp))
    for bad in (lambda: FlatIndexArray(10, i2), lambda: IndexArray(shp + (2,), i2), lambda: IndexArray(shp, i1), lambda: Shape(i2)): ensure_raises(AssertionError, bad, 'refused')
    if d > 1: ensure_raises(AssertionError, lambda: IndexArray(shp[1:], i2), 'refused')
