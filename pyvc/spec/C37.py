"""Masked selections (core/dataproc/mask.py, data_structs.py) and typed arrays (core/arrays)."""
import numpy as np
from ..harness import *
from .. import arr as A
from ..ghost import GhostMap, Name, NameS
suite = Suite()
MK, DS, AR, DT_, ABC = 'core.dataproc.mask', 'core.dataproc.data_structs', 'core.arrays.array', 'core.arrays.dtype', 'core.abc'


def selection(h, kind, n):
    """(what is passed as the mask, source row of each selected element or None for one element, how many)"""
    if kind == 'mask':
        m = h.array('mask', (n,), 'b1')
        ref = A.asarr(h.ld.models['numpy'].arange(n))[m]
        return m, (lambda j: at(ref, j)), ref._shape[0]
    if kind == 'indices':
        q = h.size('q'); i = h.array('i', q, 'i8'); h.assume_all(i, lambda v, k: conj(v >= -n, v < n))
        return i, (lambda j: ite(at(i, j) < 0, at(i, j) + n, at(i, j))), q
    if kind == 'index':
        i = h.int('i'); h.assume(conj(i >= -n, i < n))
        return i, ite(i < 0, i + n, i), None
    if kind == 'slice':
        a, b_ = h.int('a', lo=0), h.int('b'); h.assume(conj(a <= b_, b_ <= n))
        return slice(a, b_), (lambda j: a + j), b_ - a
    return Ellipsis, (lambda j: j), n


def selected(h, name, out, x, src, cnt, d):
    if cnt is None:
        if d is None: h.shape(name + ': one element', out, ()); h.eq(name + ': the element', at(out), at(x, src)); return
        h.shape(name + ': one row', out, (d,)); k = h.idx(d); h.eq(name + ': the row', at(out, k), at(x, src, k)); return
    h.shape(name + ': as many as selected', out, (cnt,) + (() if d is None else (d,)))
    j = h.idx(cnt)
    h.prove(name + ': from within the array', conj(src(j) >= 0))
    if d is None: h.eq(name + ': elements', at(out, j), at(x, src(j)))
    else:
        k = h.idx(d); h.eq(name + ': rows', at(out, j, k), at(x, src(j), k))


KINDS = ('mask', 'indices', 'index', 'slice', 'everything')
for kind in KINDS:
    for copy in (None, False, True):
        kw = {} if copy is None else dict(copy=copy)
        for dim in (1, 2):
            @suite.case(f'one array, {kind}, copy={copy}, {dim}-d')
            def _(h, kind=kind, kw=kw, dim=dim):
                M = h.mod(MK).Mask
                n = h.size('n', lo=1); d = h.size('d') if dim == 2 else None
                x = h.array('x', (n,) if d is None else (n, d)); x0 = x.snap()
                m, src, cnt = selection(h, kind, n)
                out = M.on_array(m, x, **kw)
                selected(h, 'selection', out, x, src, cnt, d); h.unchanged('array unchanged', x, x0)
                if kw.get('copy'): h.independent('storage of its own', out, x)
                one = M.on_arrays(m, x, **kw)
                selected(h, 'of one array alone', one, x, src, cnt, d)

        @suite.case(f'several arrays, {kind}, copy={copy}')
        def _(h, kind=kind, kw=kw):
            M = h.mod(MK).Mask
            n, d = h.size('n', lo=1), h.size('d')
            xs = [h.array('x', n), h.array('y', n, 'i8'), h.array('z', (n, d)), h.array('w', n)]
            m, src, cnt = selection(h, kind, n)
            for q in (2, 3, 4):
                out = M.on_arrays(m, *xs[:q], **kw)
                h.prove(f'{q} arrays: one result each', isinstance(out, tuple) and len(out) == q)
                for k in range(q):
                    selected(h, f'{q} arrays: number {k}', out[k], xs[k], src, cnt, d if k == 2 else None)
                    if kw.get('copy'): h.independent(f'{q} arrays: storage of its own {k}', out[k], xs[k])

        @suite.case(f'mapping, {kind}, copy={copy}')
        def _(h, kind=kind, kw=kw):
            M = h.mod(MK).Mask
            n, d = h.size('n', lo=1), h.size('d')
            m, src, cnt = selection(h, kind, n)

            class Other(dict): pass
            for cls in (dict, Other):
                xs = dict(b=h.array('x', n), a=h.array('y', n, 'i8'), c=h.array('z', (n, d)))
                D = cls(); D.update(xs)
                out = M.on_dict(D, m, **kw)
                h.prove(f'{cls.__name__}: same kind of mapping', type(out) is cls and out is not D)
                h.prove(f'{cls.__name__}: same keys', list(out) == list(xs))
                h.prove(f'{cls.__name__}: the mapping is left alone', list(D) == list(xs) and all(D[k] is xs[k] for k in xs))
                for k in xs:
                    selected(h, f'{cls.__name__}: entry {k}', out[k], xs[k], src, cnt, d if k == 'c' else None)
                    if kw.get('copy'): h.independent(f'{cls.__name__}: storage of its own {k}', out[k], xs[k])
            h.prove('nothing', M.on_dict({}, m, **kw) == {})


for dim in (1, 2):
    @suite.case(f'writing through a mask, {dim}-d')
    def _(h, dim=dim):
        M = h.mod(MK).Mask
        sh = tuple(h.size(q) for q in 'nd'[:dim])
        x, s, m = h.array('x', sh), h.array('s', sh), h.array('m', sh, 'b1')
        x0, s0, m0 = x.snap(), s.snap(), m.snap()
        M.put(x, s, m)
        ix = [h.idx(q) for q in sh]
        h.eq('source where the mask holds, else unchanged', at(x, *ix), ite(at(m, *ix), S(s0(tuple(C.lift(i) for i in ix))), S(x0(tuple(C.lift(i) for i in ix)))))
        h.unchanged('source unchanged', s, s0); h.unchanged('mask unchanged', m, m0)


# ------------------------------------------------------------------ conversions
for copy in (None, True, False):
    kw = {} if copy is None else dict(copy=copy)

    @suite.case(f'conversion to arrays, copy={copy}')
    def _(h, kw=kw, copy=copy):
        Ar = h.mod(DS).Array
        n, d = h.size('n'), h.size('d')
        x, y = h.array('x', n), h.array('y', (n, d), 'i8')
        a, b_ = h.real('a'), h.real('b')

        def same(nm, o, w):
            if w is None: return h.prove(nm + ': None', o is None)
            if isinstance(w, list):
                h.shape(nm, o, (len(w),))
                for k, v in enumerate(w): h.eq(f'{nm} {k}', at(o, k), v)
                return
            if not isinstance(w, A.SArr): h.shape(nm, o, ()); h.eq(nm, at(o), w); return
            h.eqarr(nm, o, w)
            h.prove(nm + ': type of the elements', o.dt == w.dt)
            if copy is not False: h.independent(nm + ': storage of its own', o, w)
            else: h.prove(nm + ': shared storage', o.buf is w.buf)
        items = [('array', x), ('matrix', y), ('list', [a, b_]), ('number', a), ('nothing', None)]
        for nm, w in items: same(nm, Ar.as_array(w, **kw), w)
        for q in (2, 3, 5):
            out = Ar.as_array(*[w for _, w in items[:q]], **kw)
            h.prove(f'{q} at once: a tuple', isinstance(out, tuple) and len(out) == q)
            for (nm, w), o in zip(items, out): same(f'{q} at once: {nm}', o, w)
        h.raises('of nothing', AssertionError, lambda: Ar.as_array(**kw))

    @suite.case(f'value of an object, copy={copy}')
    def _(h, kw=kw, copy=copy):
        V = h.mod(ABC).HasValue
        n = h.size('n'); x = h.array('x', n)
        v = V(x, **kw)
        h.eqarr('value', v.value, x)
        if copy is not False: h.independent('storage of its own', v.value, x)
        y = h.array('y', n); old = v.value
        v.set_value(y)
        h.same_object('set in place', v.value, old); h.eqarr('set', v.value, y); h.independent('not aliased', v.value, y)
        l = V([h.real('a'), h.real('b')], **kw); h.shape('of a list', l.value, (2,))


# ------------------------------------------------------------------ typed arrays
def agree(h, nm, t, x):
    h.prove(nm + ': number of dimensions', t.n_dims == len(x._shape))
    h.eq(nm + ': size', t.size, S(A.dz(x.size) if not isinstance(x.size, S) else x.size.e))
    s = t.shape
    h.prove(nm + ': shape is a shape', type(s).__name__ == 'Shape')
    h.shape(nm + ': shape has one entry per dimension', s._impl, (len(x._shape),))
    for k, q in enumerate(x._shape): h.eq(f'{nm}: shape {k}', at(s._impl, k), S(A.dz(q)))
    h.eq(nm + ': length', t.__pv_len__() if hasattr(t, '__pv_len__') else S(A.dz(t._impl._shape[0])), S(A.dz(x._shape[0])))


for copy in (None, True, False):
    for dim in (1, 2):
        @suite.case(f'typed array of an array, copy={copy}, {dim}-d')
        def _(h, copy=copy, dim=dim):
            M = h.mod(AR); kw = {} if copy is None else dict(copy=copy)
            x = h.array('x', tuple(h.size(q) for q in 'nd'[:dim])); x0 = x.snap()
            for cls in (M.Array, M.IntArray, M.BoolArray):
                t = cls(x, **kw)
                h.eqarr('values', t._impl, x); agree(h, 'description', t, x)
                if copy is not False: h.independent('storage of its own', t._impl, x)
                else: h.prove('shared storage', t._impl.buf is x.buf)
                u = M.Array(t, **kw)
                h.eqarr('of a typed array', u._impl, x)
                if copy is not False: h.independent('of a typed array: storage of its own', u._impl, t._impl)
                c = t.copied(); h.eqarr('copied', c._impl, x); h.independent('copied: storage of its own', c._impl, t._impl)
                f = t.flatten(); h.independent('flattened: storage of its own', f._impl, t._impl); h.eqarr('flattened', f._impl, x.ravel())
                v = t.flatten(copy=False); h.eqarr('flattened without copy', v._impl, x.ravel()); h.prove('flattened without copy: shared storage', (v._impl.buf.alias or v._impl.buf) is t._impl.buf)
            h.unchanged('unchanged', x, x0)


@suite.case('typed array of a list, of a number, element types')
def _(h):
    M, D = h.mod(AR), h.mod(DT_).DType
    a, b_ = h.real('a'), h.real('b'); i, j = h.int('i'), h.int('j')
    for copy in (True, False, None):
        t = M.Array([a, b_], copy=copy) if copy is not None else M.Array([a, b_])
        h.shape(f'list ({copy})', t._impl, (2,)); h.eq('first', at(t._impl, 0), a); h.eq('second', at(t._impl, 1), b_)
        for dt in ('f8', D('f8'), D.float64()):
            t = M.Array([i, j], dtype=dt, copy=copy) if copy is not None else M.Array([i, j], dtype=dt)
            h.prove('element type', t._impl.dt.name == 'f8'); h.eq('converted', at(t._impl, 1), j)


for cls in ('Array', 'IntArray', 'BoolArray'):
    for fn, val in (('zeros', 0), ('ones', 1)):
        @suite.case(f'{cls}.{fn}')
        def _(h, cls=cls, fn=fn, val=val):
            M = h.mod(AR); K = getattr(M, cls); D = h.mod(DT_).DType
            n, d = h.size('n'), h.size('d')
            for nm, sh in (('number', 3), ('one', (4,)), ('two', (2, 5)), ('shape', M.Shape((2, 3))), ('list', [3, 2])):
                want = {'number': (3,), 'one': (4,), 'two': (2, 5), 'shape': (2, 3), 'list': (3, 2)}[nm]
                for dt in (None, 'i8', D('f4')):
                    t = getattr(K, fn)(sh) if dt is None else getattr(K, fn)(sh, dt)
                    h.prove('class', type(t) is K); h.shape(f'shape of {nm}', t._impl, want); j = [h.idx(q) for q in want]; h.eq(f'values of {nm}', at(t._impl, *j), val)
                    h.prove('type of the elements', t._impl.dt.name == {None: 'f8', 'i8': 'i8'}.get(dt if not isinstance(dt, D) else 'x', 'f4'))


for axis in ('none', 'last', 'given'):
    @suite.case(f'sorting, axis {axis}')
    def _(h, axis=axis):
        M = h.mod(AR)
        n = h.size('n'); x = h.array('x', n); x0 = x.snap(); t = M.Array(x)
        kw = {'none': {}, 'last': dict(axis=-1), 'given': dict(axis=0)}[axis]
        s, o = t.sorted(**kw), t.argsort(**kw)
        i, j = h.idx(n), h.idx(n)
        h.shape('as many', s._impl, (n,)); h.shape('as many indices', o._impl, (n,))
        h.prove('ascending', imp(i < j, at(s._impl, i) <= at(s._impl, j)))
        h.prove('positions', conj(at(o._impl, i) >= 0, at(o._impl, i) < n)); h.prove('each position once', imp(i != j, at(o._impl, i) != at(o._impl, j)))
        h.eq('sorted values are the values at the positions', at(s._impl, i), at(x, at(o._impl, i)))
        h.unchanged('unchanged', t._impl, x0); h.independent('storage of its own', s._impl, t._impl)
        h.prove('kind of index', type(o).__name__ == ('FlatIndexArray' if axis == 'none' else 'IntArray'))
        if axis == 'none': h.eq('number of elements indexed', o.n_indexed, n)


@suite.case('sorting a matrix as a whole')
def _(h):
    M = h.mod(AR)
    n, d = h.size('n'), h.size('d'); x = h.array('x', (n, d)); t = M.Array(x)
    s, o = t.sorted(), t.argsort()
    f = x.ravel(); i, j = h.idx(f._shape[0]), h.idx(f._shape[0])
    h.shape('flat', s._impl, f._shape); h.shape('flat indices', o._impl, f._shape)
    h.prove('ascending', imp(i < j, at(s._impl, i) <= at(s._impl, j))); h.eq('values at the positions', at(s._impl, i), at(f, at(o._impl, i)))
    h.eq('number of elements indexed', o.n_indexed, S(A.dz(f._shape[0])))


@suite.case('index arrays')
def _(h):
    M = h.mod(AR)
    q, n = h.size('q'), h.int('n', lo=0)
    i1, i2 = h.array('i', q, 'i8'), h.array('k', (q, 2), 'i8')
    f = M.FlatIndexArray(n, i1)
    h.eqarr('flat indices', f._impl, i1); h.eq('number of elements indexed', f.n_indexed, n)
    h.raises('flat indices of a matrix', AssertionError, lambda: M.FlatIndexArray(n, i2))
    a, c = h.int('a', lo=0), h.int('c', lo=0)
    g = M.IndexArray((a, c), i2)
    h.eqarr('indices', g._impl, i2); h.eq('shape indexed 0', at(g.shape_indexed._impl, 0), a); h.eq('shape indexed 1', at(g.shape_indexed._impl, 1), c)
    h.raises('one dimension missing', AssertionError, lambda: M.IndexArray((a,), i2))
    h.raises('one dimension too many', AssertionError, lambda: M.IndexArray((a, c, a), i2))
    h.raises('indices of another rank', AssertionError, lambda: M.IndexArray((a, c), i1))
    h.raises('a shape is a list of sizes', AssertionError, lambda: M.Shape(i2))
