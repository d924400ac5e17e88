"""Model of the numpy subset used by the verified functions (trusted contracts on the dependency)."""
from __future__ import annotations
import types, itertools, math, z3
from .core import *
from . import core as C, arr as A, loops as L
from .core import CTX, S, I, R, B, Unsupported, ival, lift, toreal, toint, tobool, num
from .arr import (SArr, Buf, DT, as_dt, dim, dimS, dz, new_arr, from_list, asarr, elementwise, binop, unop, conv, mk_sum,
                  same_dim, broadcast_shapes, bcast_reader, norm_sum)

TRUSTED = set()


def trust(txt):
    TRUSTED.add(txt)


# ------------------------------------------------------------------ construction
def infer_list(x):
    """list/tuple/MList -> SArr by stacking"""
    if isinstance(x, L.MList) and x.has_seg():
        items = list(list.__iter__(x))
        segs = []
        for it in items:
            segs.append(it)
        if len(items) == 1:
            sg = items[0]
            v = sg.item
            return stack_generic(sg.n, lambda i: sg.at(i), v)
        parts = []
        for it in items:
            if isinstance(it, L.Seg):
                parts.append(stack_generic(it.n, (lambda it: lambda i: it.at(i))(it), it.item))
            else:
                parts.append(expand0(asarr(it)))
        return concatenate(parts, 0)
    xs = list(x)
    if not xs:
        return from_list([], None)
    if any(isinstance(e, (SArr, list, tuple, range)) or hasattr(e, '__pv_seq__') for e in xs):
        if all(isinstance(e, (int, float, bool, S)) or isinstance(e, SArr) and e.ndim == 0 for e in xs):
            return from_list([e.__pv_scalar__() if isinstance(e, SArr) else e for e in xs])
        return stack([asarr(e) for e in xs], 0)
    if all(isinstance(e, (int, float, bool, S)) for e in xs):
        if any(isinstance(e, float) and (e != e or abs(e) == math.inf) for e in xs):
            raise Unsupported('non-finite array literal')
        return from_list(xs)
    raise Unsupported('array of objects')


def expand0(a):
    return a[None] if isinstance(a, SArr) else from_list([a])


def stack_generic(n, at, proto):
    if isinstance(proto, (S, int, float, bool)):
        e = C.lift(proto)
        k = {I: 'i8', R: 'f8', B: 'b1'}[e.sort()] if not isinstance(proto, S) else {'i': 'i8', 'r': 'f8', 'b': 'b1'}[proto.k]
        return new_arr((n,), k, lambda idx: conv(C.lift(at(idx[0])), DT(k).k))
    if isinstance(proto, (tuple, list)) and not (isinstance(proto, L.MList) and proto.has_seg()):
        proto = infer_list(proto)
        f0 = at
        at = lambda i: infer_list(f0(i))
    elif isinstance(proto, L.MList):
        proto = infer_list(proto)
        f0 = at
        at = lambda i: infer_list(f0(i))
    if isinstance(proto, SArr):
        q = z3.Int('%stk')
        if any(not z3.simplify(dz(d1) == dz(d2)).eq(z3.BoolVal(True)) for d1, d2 in zip(at(q)._shape, proto._shape)):
            raise Unsupported('stacking arrays of different shapes')

        def rd(idx):
            v = at(idx[0])
            return v.at(*idx[1:]) if v.ndim else v.at()
        return new_arr((n,) + proto._shape, proto.dt, rd)
    raise Unsupported('stacking of objects')


def array(x, dtype=None, copy=True, **kw):
    ndmin = kw.get('ndmin', 0)
    dtype = None if dtype is None else as_dt(dtype)
    if isinstance(x, SArr):
        if dtype is not None and dtype != x.dt:
            r = x.astype(dtype)
            if copy is False: raise ValueError('Unable to avoid copy')
        else:
            r = x.copy() if copy else x
    elif isinstance(x, (S, int, float, bool)):
        e = lift(x)
        dt = dtype or DT({I: 'i8', R: 'f8', B: 'b1'}[e.sort()])
        e = conv(e, dt.k)
        if copy is False: raise ValueError('Unable to avoid copy')
        r = new_arr((), dt, lambda idx: e)
    elif hasattr(x, '__pv_array__'):
        r = array(x.__pv_array__(), dtype=dtype)
    elif isinstance(x, (list, tuple, range)):
        if copy is False: raise ValueError('Unable to avoid copy')
        r = infer_list(x)
        if dtype is not None and dtype != r.dt: r = r.astype(dtype)
    elif hasattr(x, '__iter__') and not isinstance(x, (dict, str, bytes)):
        raise Unsupported(f'np.array of {type(x).__name__}')
    else:
        raise Unsupported(f'np.array of {type(x).__name__}')
    while r.ndim < ndmin: r = r[None]
    return r


def asarray(x, dtype=None, **kw):
    if isinstance(x, SArr) and (dtype is None or as_dt(dtype) == x.dt):
        return x
    return array(x, dtype=dtype)


def shape_arg(s):
    if isinstance(s, (int, S)): return (dim(s),)
    if isinstance(s, SArr): s = list(s)
    return tuple(dim(d) for d in s)


_fresh = itertools.count()


def fresh_array(shape, dt, base='und'):
    dt = as_dt(dt)
    vs = [l.i for l in CTX.loop_stack]
    f = z3.Function(CTX.fresh_name(base), *([v.sort() for v in vs] + [I] * len(shape)), A.SORT[dt.k])
    if not shape and not vs:
        c = z3.Const(CTX.fresh_name(base), A.SORT[dt.k])
        return new_arr((), dt, lambda idx: c)
    r = new_arr(shape, dt, lambda idx: f(*vs, *idx))
    r.buf.uf = f
    return r


def check_dims(shape):
    for d in shape:
        if isinstance(d, int):
            if d < 0: raise ValueError('negative dimensions')


def empty(shape, dtype=float, **kw):
    sh = shape_arg(shape); check_dims(sh)
    return fresh_array(sh, float if dtype is None else dtype)


def full(shape, v, dtype=None, **kw):
    sh = shape_arg(shape); check_dims(sh)
    if isinstance(v, SArr):
        r = empty(shape, dtype or v.dt); r[...] = v
        return r
    e = lift(v)
    dt = as_dt(dtype) if dtype is not None else DT({I: 'i8', R: 'f8', B: 'b1'}[e.sort()])
    e = conv(e, dt.k)
    return new_arr(sh, dt, lambda idx: e)


def zeros(shape, dtype=float, **kw): return full(shape, 0, float if dtype is None else dtype)
def ones(shape, dtype=float, **kw): return full(shape, 1, float if dtype is None else dtype)
def like(x): return x if isinstance(x, SArr) else asarr(x)
def empty_like(x, dtype=None, shape=None, **kw): return empty(like(x).shape if shape is None else shape, dtype or like(x).dt)
def zeros_like(x, dtype=None, **kw): return zeros(like(x).shape, dtype or like(x).dt)
def ones_like(x, dtype=None, **kw): return ones(like(x).shape, dtype or like(x).dt)
def full_like(x, v, dtype=None, **kw): return full(like(x).shape, v, dtype or like(x).dt)


def arange(*a, dtype=None, **kw):
    if 'start' in kw or 'stop' in kw: raise Unsupported('arange keywords')
    a = [x.__pv_scalar__() if isinstance(x, SArr) else x for x in a]
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if any(isinstance(x, float) or isinstance(x, S) and x.k == 'r' for x in (lo, hi, st)):
        raise Unsupported('arange of floats')
    it = L.SRange(lo, hi, st).symiter()
    dt = as_dt(dtype) if dtype is not None else DT('i8')
    return new_arr((it.n,), dt, lambda idx: conv(lift(it.item(idx[0])), dt.k))


def linspace(a, b, n=50, endpoint=True, retstep=False, axis=0, dtype=None, **kw):
    trust('numpy.linspace(a,b,n)[i] = a + i*(b-a)/(n-1) (or /n without endpoint)')
    if retstep or axis not in (0, -1) and axis != 0: raise Unsupported('linspace option')
    n = kw.get('num', n)
    nd = dim(n)
    div = z3.simplify(dz(nd) - 1 if endpoint else dz(nd))
    a, b = A.coerce(a), A.coerce(b)
    arrs = [x for x in (a, b) if isinstance(x, SArr) and x.ndim > 0]
    sh = broadcast_shapes([x._shape for x in arrs]) if arrs else ()
    ra, rb = bcast_reader(a, sh), bcast_reader(b, sh)
    dv = ival(div)

    def base(idx):
        lo, hi = toreal(S(ra(idx[1:]))), toreal(S(rb(idx[1:])))
        if dv == 0: return lo
        d = toreal(S(div))
        k = toreal(S(idx[0]))
        frac_ = k / d if dv is None else k * C.real_val(C.Fraction(1, dv))
        v = lo + (hi - lo) * frac_
        # the library returns the end point exactly; equal in exact arithmetic
        return v if dv is not None or not endpoint else z3.If(div == 0, lo, v)
    return new_arr((nd,) + tuple(sh), 'f8', base)


def eye(n, dtype=float, **kw):
    n = dim(n)
    dt = as_dt(dtype)
    return new_arr((n, n), dt, lambda idx: conv(z3.If(idx[0] == idx[1], z3.IntVal(1), z3.IntVal(0)), dt.k))


def diag(v, **kw):
    v = asarr(v)
    if v.ndim == 1:
        n, f = v._shape[0], v.snap()
        return new_arr((n, n), v.dt, lambda idx: z3.If(idx[0] == idx[1], f((idx[0],)), A.zero_of(f((idx[0],)).sort())))
    n, f = v._shape[0], v.snap()
    return new_arr((n,), v.dt, lambda idx: f((idx[0], idx[0])))


def meshgrid(*xs, indexing='xy', **kw):
    xs = [asarr(x).ravel() for x in xs]
    order = list(range(len(xs)))
    if indexing == 'xy' and len(xs) >= 2: order[0], order[1] = 1, 0
    elif indexing not in ('xy', 'ij'): raise ValueError('indexing')
    shape = tuple(xs[order[k]]._shape[0] for k in range(len(xs)))
    out = []
    for k, x in enumerate(xs):
        pos = order.index(k)
        f = x.snap()
        out.append(new_arr(shape, x.dt, (lambda f, pos: lambda idx: f((idx[pos],)))(f, pos)))
    return tuple(out)


def common_dt(arrs):
    return max((a.dt for a in arrs), key=lambda d: A.DTRANK.index(d.name))


def stack(arrs, axis=0, **kw):
    arrs = [asarr(a) for a in (list(arrs) if not isinstance(arrs, SArr) else list(arrs))]
    if not arrs: raise ValueError('need at least one array to stack')
    for a in arrs[1:]:
        if a.ndim != arrs[0].ndim: raise ValueError('all input arrays must have the same shape')
        for d, e in zip(a._shape, arrs[0]._shape):
            sd = same_dim(d, e)
            if sd is False or sd is None and not CTX.branch(dz(d) == dz(e)):
                raise ValueError('all input arrays must have the same shape')
    nd = arrs[0].ndim + 1
    axis = axis % nd
    dt = common_dt(arrs)
    fs = [a.snap() for a in arrs]
    shape = arrs[0]._shape[:axis] + (len(arrs),) + arrs[0]._shape[axis:]

    def base(idx):
        rest = idx[:axis] + idx[axis + 1:]
        k = ival(idx[axis])
        if k is not None:
            if not 0 <= k < len(fs): raise Unsupported('internal: stack index')
            return conv(fs[k](rest), dt.k)
        out = conv(fs[-1](rest), dt.k)
        for j in range(len(fs) - 2, -1, -1):
            out = z3.If(idx[axis] == j, conv(fs[j](rest), dt.k), out)
        return out
    return new_arr(shape, dt, base)


def concatenate(arrs, axis=0, **kw):
    if isinstance(arrs, L.MList) and arrs.has_seg():
        return concat_seg(arrs, axis)
    arrs = [asarr(a) for a in arrs]
    if not arrs: raise ValueError('need at least one array to concatenate')
    if any(a.ndim == 0 for a in arrs): raise ValueError('zero-dimensional arrays cannot be concatenated')
    if len(arrs) == 1: return arrs[0].copy()
    nd = arrs[0].ndim
    if any(a.ndim != nd for a in arrs): raise ValueError('all the input array dimensions must match')
    axis = axis % nd
    for a in arrs[1:]:
        for k, (d, e) in enumerate(zip(a._shape, arrs[0]._shape)):
            if k == axis: continue
            sd = same_dim(d, e)
            if sd is False or sd is None and not CTX.branch(dz(d) == dz(e)):
                raise ValueError('all the input array dimensions must match')
    dt = common_dt(arrs)
    fs = [a.snap() for a in arrs]
    offs, tot = [], z3.IntVal(0)
    for a in arrs:
        offs.append(tot)
        tot = z3.simplify(tot + dz(a._shape[axis]))
    shape = arrs[0]._shape[:axis] + (dim(tot),) + arrs[0]._shape[axis + 1:]

    def base(idx):
        k = len(fs) - 1
        out = conv(fs[k](idx[:axis] + (z3.simplify(idx[axis] - offs[k]),) + idx[axis + 1:]), dt.k)
        while k > 0:
            k -= 1
            c = z3.simplify(idx[axis] < offs[k + 1])
            if z3.is_false(c): continue
            v = conv(fs[k](idx[:axis] + (z3.simplify(idx[axis] - offs[k]),) + idx[axis + 1:]), dt.k)
            out = v if z3.is_true(c) else z3.If(c, v, out)
        return out
    return new_arr(shape, dt, base)


def concat_seg(l, axis):
    """concatenation of any number of arrays along the first axis"""
    items = list(list.__iter__(l))
    n = L.seg_n(l)
    N = dz(n)
    if not CTX.known(N >= 1) and not CTX.branch(N >= 1): raise ValueError('need at least one array to concatenate')
    i = CTX.index_var('cc')
    if len(items) == 1: a = items[0].at(i)
    else:
        cvs, o = [], i
        for x in items:
            m = dz(x.n) if isinstance(x, L.Seg) else z3.IntVal(1)
            cvs.append((o < m, x.at(z3.simplify(o)) if isinstance(x, L.Seg) else x))
            o = o - m
        a = L.merge(cvs)
    a = asarr(a)
    if axis != 0 or a.ndim == 0 or any(contains(dz(d), [i]) for d in a._shape[1:]):
        raise Unsupported('concatenation of a symbolic number of arrays')
    ln = dz(a._shape[0])
    trust('numpy concatenate along the first axis: row r is row r - (rows before) of the piece that holds it')
    pre = lambda t: mk_sum(lambda j: z3.substitute(ln, (i, j)), t, I)
    vs = [q.i for q in CTX.loop_stack]
    loc = z3.Function(CTX.fresh_name('piece_of'), *[I] * len(vs), I, I)
    tot = z3.simplify(pre(N))

    def ax(t):
        ch = t.children()
        sub = list(zip(vs, ch[:-1]))
        r = ch[-1]
        at_ = lambda e: z3.substitute(e, *sub) if sub else e
        lo = lambda k: at_(pre(k))
        size = lambda k: at_(z3.substitute(ln, (i, k)))
        out = [z3.Implies(z3.And(r >= 0, r < at_(tot)), z3.And(t >= 0, t < at_(N), lo(t) <= r, r < lo(t) + size(t)))]
        for k in [h for h in CTX.elem_hints if z3.is_expr(h) and h.sort() == I] + [z3.IntVal(0), z3.simplify(N - 1)]:
            out.append(z3.Implies(z3.And(k >= 0, k < at_(N), lo(k) <= r, r < lo(k) + size(k)), t == k))
        return out
    C.add_templ(loc, ax)
    if not CTX.known(ln >= 0): CTX.assume(tot >= 0, True)
    f = a.snap()
    return new_arr((dim(tot),) + a._shape[1:], a.dt, lambda ix: z3.substitute(f((ix[0] - pre(loc(*vs, ix[0])),) + ix[1:]), (i, loc(*vs, ix[0]))))


def vstack(arrs, **kw):
    if isinstance(arrs, SArr): arrs = list(L.as_iter(arrs)) if not isinstance(L.as_iter(arrs), L.SymIter) else L.listcomp(lambda v: v, arrs)
    if isinstance(arrs, L.MList) and arrs.has_seg():
        r = infer_list(arrs)
        if r.ndim > 2: raise Unsupported('stacking a symbolic number of two-dimensional arrays')
        return r
    arrs = [asarr(a) for a in arrs]
    arrs = [a[None] if a.ndim == 1 else a.reshape(1, 1) if a.ndim == 0 else a for a in arrs]
    return concatenate(arrs, 0)


def hstack(arrs, **kw):
    arrs = [asarr(a) for a in arrs]
    arrs = [a[None] if a.ndim == 0 else a for a in arrs]
    return concatenate(arrs, 0 if arrs[0].ndim == 1 else 1)


def column_stack(arrs, **kw):
    if isinstance(arrs, L.MList) and arrs.has_seg():
        r = infer_list(arrs)
        if r.ndim != 2: raise Unsupported('stacking a symbolic number of two-dimensional arrays')
        return r.T
    arrs = [asarr(a) for a in arrs]
    if all(a.ndim == 1 for a in arrs): return stack(arrs, 1)
    return concatenate([a[:, None] if a.ndim == 1 else a for a in arrs], 1)


def atleast_1d(x):
    x = asarr(x)
    return x[None] if x.ndim == 0 else x


def atleast_2d(x):
    x = asarr(x)
    while x.ndim < 2: x = x[None]
    return x


def broadcast_to(x, shape, **kw):
    x = asarr(x)
    sh = shape_arg(shape)
    rd = bcast_reader(x, sh)
    A.check_assignable(sh, x._shape)
    return new_arr(sh, x.dt, rd)


def tile(x, reps):
    x = asarr(x)
    if x.ndim == 1 and isinstance(reps, (int, S)):
        n, f, r = x._shape[0], x.snap(), dim(reps)
        return new_arr((dim(S(dz(n) * dz(r))),), x.dt, lambda idx: f((C.imod(idx[0], dz(n)),)))
    raise Unsupported('tile')


def repeat(x, reps, axis=None, **kw):
    x = asarr(x)
    if isinstance(reps, (int, S)):
        r = dim(reps)
        if axis is None: x = x.ravel(); axis = 0
        f = x.snap()
        sh = x._shape[:axis] + (dim(S(dz(x._shape[axis]) * dz(r))),) + x._shape[axis + 1:]
        return new_arr(sh, x.dt, lambda idx: f(idx[:axis] + (C.idiv(idx[axis], dz(r)),) + idx[axis + 1:]))
    raise Unsupported('repeat by array')


def take(a, ids, axis=None, **kw):
    a = asarr(a)
    if axis is None: a = a.ravel(); axis = 0
    key = (slice(None),) * (axis % a.ndim) + (ids if isinstance(ids, (S, int)) else asarr(ids),)
    return a[key]


def delete(*a, **k): raise Unsupported('np.delete')


# ------------------------------------------------------------------ elementwise functions
def ew(f, dt='f8'):
    def g(x, out=None, where=None, dtype=None, **kw):
        if where is not None: raise Unsupported('where=')
        x = A.coerce(x)
        if hasattr(x, '__pv_array__'): x = x.__pv_array__()
        if isinstance(x, SArr):
            d = x.dt if dt is None or x.dt.name == 'f4' and dt == 'f8' else DT(dt)
            r = elementwise(f, [x], d)
            if out is not None:
                out[...] = r
                return out
            return r
        if isinstance(x, (S, int, float, bool)):
            if isinstance(x, float) and x in (math.inf, -math.inf): raise Unsupported('infinite argument')
            return f(S(lift(x)))
        raise Unsupported(f'ufunc of {type(x).__name__}')
    return g


def f_floor(x):
    e = lift(x)
    if e.sort() == I: return S(toreal(x))
    return S(z3.ToReal(z3.ToInt(e)))


def f_ceil(x):
    e = toreal(x)
    return S(-z3.ToReal(z3.ToInt(-e)))


def f_abs(x): return abs(x)
def f_sign(x):
    e = num(x)
    return S(z3.If(e > 0, C.lift(1), z3.If(e < 0, C.lift(-1), C.lift(0)))) if e.sort() == I else \
        S(z3.If(e > 0, z3.RealVal(1), z3.If(e < 0, z3.RealVal(-1), z3.RealVal(0))))


def f_rint(x): raise Unsupported('rint')
def f_square(x): return x * x


floor, ceil = ew(f_floor), ew(f_ceil)
sqrt, exp, log, log10 = ew(C.m_sqrt), ew(C.m_exp), ew(C.m_log), ew(C.m_log10)
sin, cos, arccos = ew(C.m_sin), ew(C.m_cos), ew(C.m_arccos)
absolute = ew(f_abs, None)
sign = ew(f_sign, None)
square = ew(f_square, None)
deg2rad = ew(lambda x: x * S(C.PI) / 180)
rad2deg = ew(lambda x: x * 180 / S(C.PI))
isfinite = ew(lambda x: S(z3.BoolVal(True)), 'b1')
isnan = ew(lambda x: S(z3.BoolVal(False)), 'b1')
isinf = isnan
logical_not = ew(lambda x: S(z3.Not(tobool(x))), 'b1')


def uf1(name):
    f = z3.Function(name, R, R)
    return ew(lambda x: S(f(z3.simplify(toreal(x)))))


def ew2(op=None, fn=None, dt=None):
    def g(x, y, out=None, **kw):
        if kw.get('where') is not None: raise Unsupported('where=')
        x, y = A.coerce(x), A.coerce(y)
        if op is not None:
            r = binop(op, x, y) if isinstance(x, SArr) or isinstance(y, SArr) else C.arith(op, x, y)
        else:
            r = elementwise(fn, [x if isinstance(x, SArr) else S(lift(x)), y if isinstance(y, SArr) else S(lift(y))],
                            dt or A.result_dt('+', x, y))
        if out is not None:
            out[...] = r
            return out
        return r
    return g


def same_sort(x, y):
    a, b = num(x), num(y)
    if a.sort() != b.sort(): a, b = toreal(S(a)), toreal(S(b))
    return a, b


def f_max(x, y):
    a, b = same_sort(x, y)
    return S(z3.If(a >= b, a, b))


def f_min(x, y):
    a, b = same_sort(x, y)
    return S(z3.If(a <= b, a, b))


maximum, minimum = ew2(fn=f_max), ew2(fn=f_min)


def clip(x, a_min=None, a_max=None, out=None, **kw):
    a_min = kw.get('min', a_min); a_max = kw.get('max', a_max)
    x = A.coerce(x)
    r = x
    inf = float('inf')
    if a_min is not None and not (isinstance(a_min, float) and a_min == -inf): r = maximum(r, a_min)
    if a_max is not None and not (isinstance(a_max, float) and a_max == inf): r = minimum(r, a_max)
    if r is x and isinstance(x, SArr): r = x.copy()
    if out is not None:
        if isinstance(r, SArr) and out.k == 'i' and r.k == 'r': raise TypeError('cannot cast clip result')
        out[...] = r
        return out
    return r


def where(c, *ab):
    if not ab:
        return nonzero(asarr(c))
    a, b = ab
    c, a, b = A.coerce(c), A.coerce(a), A.coerce(b)
    dt = A.result_dt('+', a, b)

    def f(cc, x, y):
        u, v = lift(x), lift(y)
        if u.sort() != v.sort(): u, v = toreal(S(num(x))), toreal(S(num(y)))
        return S(z3.If(tobool(cc), u, v))
    return elementwise(f, [c if isinstance(c, SArr) else S(lift(c)), a, b], dt)


# ------------------------------------------------------------------ reductions
def select(condlist, choicelist, default=0, **kw):
    trust('numpy.select: per element the choice of the first condition that holds, else the default')
    cs, xs = list(condlist), list(choicelist)
    if any(isinstance(c, L.Seg) for c in cs): raise Unsupported('select over a symbolic list')
    if len(cs) != len(xs): raise ValueError('list of cases must be same length as list of conditions')
    if not cs: raise ValueError('select with an empty condition list is not possible')
    out = default
    for c, x in reversed(list(zip(cs, xs))): out = where(c, x, out)
    return out


def ax_tuple(axis, nd):
    if axis is None: return tuple(range(nd))
    if isinstance(axis, (tuple, list)): return tuple(sorted(a % nd if -nd <= a < nd else bad_axis() for a in axis))
    axis = ival(axis) if isinstance(axis, S) else axis
    if not -nd <= axis < nd: bad_axis()
    return (axis % nd,)


def bad_axis():
    raise ValueError('axis out of bounds')


def reduce_axes(x, axis, red, dt, keepdims=False):
    """red(fn over flat generic indices (list of dims)) -> z3 expr"""
    axes = ax_tuple(axis, x.ndim)
    f = x.snap()
    keep = [k for k in range(x.ndim) if k not in axes]
    dims = [x._shape[k] for k in axes]

    def value(outer):
        def fn(inner):
            idx = [None] * x.ndim
            for k, e in zip(axes, inner): idx[k] = e
            for k, e in zip(keep, outer): idx[k] = e
            return f(tuple(idx))
        return red(fn, dims)
    shape = [x._shape[k] for k in keep]
    if not shape and not keepdims:
        return S(value(()))
    if keepdims:
        full_ = [1 if k in axes else x._shape[k] for k in range(x.ndim)]
        return new_arr(full_, dt, lambda idx: conv(value(tuple(idx[k] for k in keep)), as_dt(dt).k))
    return new_arr(shape, dt, lambda idx: conv(value(idx), as_dt(dt).k))


def nested_sum(fn, dims, sort):
    def rec(k, inner):
        if k == len(dims):
            e = fn(inner)
            return num(S(e)) if z3.is_bool(e) else e
        return mk_sum(lambda j: rec(k + 1, inner + [j]), dims[k], sort)
    return rec(0, [])


def sum(x, axis=None, keepdims=False, dtype=None, **kw):
    if not isinstance(x, SArr):
        x = asarr(x)
    if isinstance(x, SArr) and x.ndim == 0: return x.__pv_scalar__()
    sort = R if x.k == 'r' else I
    dt = x.dt if x.k == 'r' else DT('i8')
    return reduce_axes(x, axis, lambda fn, dims: nested_sum(fn, dims, sort), dt, keepdims)


def n_of(x, axis):
    n = 1
    for k in ax_tuple(axis, x.ndim):
        d = x._shape[k]
        n = n * d if isinstance(n, int) and isinstance(d, int) else z3.simplify(dz(n) * dz(d))
    return dimS(n)


def mean(x, axis=None, keepdims=False, **kw):
    x = asarr(x)
    s = sum(x.astype('f8') if x.k != 'r' else x, axis, keepdims=keepdims)
    return s / n_of(x, axis)


def var(x, axis=None, ddof=0, keepdims=False, **kw):
    x = asarr(x)
    m = mean(x, axis, keepdims=True)
    d = x - m
    return sum(d * d, axis, keepdims=keepdims) / (n_of(x, axis) - ddof)


def std(x, axis=None, ddof=0, keepdims=False, **kw):
    return sqrt(var(x, axis, ddof, keepdims))


def count_nonzero(x, axis=None, **kw):
    x = asarr(x)
    b = x if x.k == 'b' else x != 0
    return sum(b, axis)


def prod(x, axis=None, **kw):
    x = asarr(x)

    def red(fn, dims):
        if not all(isinstance(d, int) and d <= 64 for d in dims): raise Unsupported('product of symbolic length')
        out = None
        for t in itertools.product(*[range(d) for d in dims]):
            v = num(S(fn([z3.IntVal(k) for k in t])))
            out = v if out is None else out * v
        return z3.IntVal(1) if out is None else out
    return reduce_axes(x, axis, red, x.dt if x.k == 'r' else DT('i8'))


class QTemplate:
    """All!k / Any!k / Min!k / Max!k over index tuples"""

    def __init__(self, decl, wits, pvars, jvars, body, mode):
        self.decl, self.wits, self.pvars, self.jvars, self.body, self.mode = decl, wits, pvars, jvars, body, mode

    def inst(self, args, js):
        return z3.substitute(self.body, *[(p, a) for p, a in zip(self.pvars, args)],
                             *[(j, e) for j, e in zip(self.jvars, js)])

    def axioms(self, t):
        npar = len(self.pvars)
        args = [t.arg(i) for i in range(npar)]
        his = [t.arg(npar + i) for i in range(len(self.jvars))]
        ch = t.children()
        ws = [w(*ch) if ch else w for w in self.wits]
        inr = lambda js: z3.And(*[z3.And(j >= 0, j < h) for j, h in zip(js, his)])
        wb = self.inst(args, ws)
        out = []
        nonempty = z3.And(*[h > 0 for h in his])
        hints = C.hint_tuples(len(self.jvars))
        if len(self.jvars) == 1:
            cr = CTX.compress_reg.get(z3.simplify(his[0]).get_id())
            if cr is not None:
                hints = hints + [(cr[1].rho(*cr[2], h[0]),) for h in hints]
        if self.mode == 'all':
            out.append(z3.Implies(z3.Not(t), z3.And(inr(ws), z3.Not(wb))))
            for h in hints: out.append(z3.Implies(z3.And(t, inr(h)), self.inst(args, h)))
        elif self.mode == 'any':
            out.append(z3.Implies(t, z3.And(inr(ws), wb)))
            for h in hints: out.append(z3.Implies(z3.And(inr(h), self.inst(args, h)), t))
        else:
            out.append(z3.Implies(nonempty, z3.And(inr(ws), t == wb)))
            for h in hints:
                v = self.inst(args, h)
                out.append(z3.Implies(inr(h), t <= v if self.mode == 'min' else t >= v))
        return out


def q_app(fn, dims, mode):
    """quantified application over generic indices"""
    js = [A.jvar() for _ in dims]
    body = z3.simplify(fn(js))
    if not A.contains(body, js) and mode in ('all', 'any') and (z3.is_true(body) or z3.is_false(body)):
        if mode == 'all' and z3.is_true(body) or mode == 'any' and z3.is_false(body): return body
    pv = A.abstract_params(body, js)
    pairs = [(p, z3.Const(f'%P{n}', p.sort())) for n, p in enumerate(pv)] + [(j, z3.Int(f'%J{n}')) for n, j in enumerate(js)]
    cb = z3.substitute(body, *pairs)
    key = ('q', mode, cb.sexpr(), len(js))
    tm = CTX.sum_templates.get(key)
    if tm is None:
        name = f'{mode}!{len(CTX.sum_templates)}'
        sorts = [p.sort() for p in pv] + [I] * len(js)
        rs = B if mode in ('all', 'any') else body.sort()
        decl = z3.Function(name, *sorts, rs)
        wits = [z3.Function(f'{name}_w{n}', *sorts, I) for n in range(len(js))]
        tm = QTemplate(decl, wits, [z3.Const(f'%P{n}', p.sort()) for n, p in enumerate(pv)],
                       [z3.Int(f'%J{n}') for n in range(len(js))], cb, mode)
        CTX.sum_templates[key] = tm
        C.TEMPL[name] = tm
    return tm.decl(*pv, *[dz(d) for d in dims])


def q_reduce(mode):
    def red(fn, dims):
        if all(isinstance(d, int) for d in dims) and math.prod(dims) <= 64:
            vs = [fn([z3.IntVal(k) for k in t]) for t in itertools.product(*[range(d) for d in dims])]
            if mode == 'all': return z3.And(*[tobool(S(v)) for v in vs]) if vs else z3.BoolVal(True)
            if mode == 'any': return z3.Or(*[tobool(S(v)) for v in vs]) if vs else z3.BoolVal(False)
            if not vs: raise ValueError('zero-size array to reduction operation')
            r = vs[0]
            for v in vs[1:]: r = lift((f_min if mode == 'min' else f_max)(S(r), S(v)))
            return r
        if mode in ('all', 'any'):
            return q_app(lambda js: tobool(S(fn(js))), dims, mode)
        return q_app(fn, dims, mode)
    return red


def chk_nonempty(x, axis):
    for k in ax_tuple(axis, x.ndim):
        d = x._shape[k]
        if isinstance(d, int):
            if d == 0: raise ValueError('zero-size array to reduction operation')
        elif CTX.branch(d <= 0):
            raise ValueError('zero-size array to reduction operation')


def all_(x, axis=None, **kw):
    if isinstance(x, (bool, S)): return S(tobool(x)) if isinstance(x, S) else x
    x = asarr(x)
    return reduce_axes(x, axis, q_reduce('all'), DT('b1'))


def any_(x, axis=None, **kw):
    if isinstance(x, (bool, S)): return S(tobool(x)) if isinstance(x, S) else x
    x = asarr(x)
    return reduce_axes(x, axis, q_reduce('any'), DT('b1'))


def min_(x, axis=None, keepdims=False, **kw):
    x = asarr(x); chk_nonempty(x, axis)
    return reduce_axes(x, axis, q_reduce('min'), x.dt, keepdims)


def max_(x, axis=None, keepdims=False, **kw):
    x = asarr(x); chk_nonempty(x, axis)
    return reduce_axes(x, axis, q_reduce('max'), x.dt, keepdims)


def cumsum(x, axis=None, **kw):
    x = asarr(x)
    if x.ndim != 1:
        if axis is None: x = x.ravel()
        else:
            axis = axis % x.ndim
            f = x.snap()
            sort = R if x.k == 'r' else I
            return new_arr(x._shape, x.dt, lambda idx: mk_sum(lambda j: f(idx[:axis] + (j,) + idx[axis + 1:]),
                                                              z3.simplify(idx[axis] + 1), sort))
    f = x.snap()
    sort = R if x.k == 'r' else I
    r = new_arr(x._shape, x.dt if x.k != 'b' else 'i8', lambda idx: mk_sum(lambda j: num(S(f((j,)))), z3.simplify(idx[0] + 1), sort))
    out = kw.get('out')
    if out is not None:
        out[...] = r
        return out
    return r


def diff(x, **kw):
    x = asarr(x)
    return x[..., 1:] - x[..., :-1]


# ------------------------------------------------------------------ order
class ArrTemplate:
    """family of UFs attached to an array expression (sort, compress): canonicalised by the element body"""


def arr_family(kind, x, extra=()):
    """UF family keyed by the canonical element body of the 1-d array x; returns (params, n, key record)"""
    f = x.snap()
    j = A.jvar()
    body = A.canon(z3.simplify(f((j,))))
    pv = A.abstract_params(body, [j])
    n = dz(x._shape[0])
    for e in (n,) + tuple(extra):
        for p in A.abstract_params(e):
            if not any(p.eq(q) for q in pv): pv.append(p)
    pairs = [(p, z3.Const(f'%P{k}', p.sort())) for k, p in enumerate(pv)] + [(j, z3.Int('%J'))]
    cb = z3.substitute(body, *pairs)
    cn = z3.substitute(n, *pairs)
    key = (kind, cb.sexpr(), cn.sexpr())
    rec = CTX.sum_templates.get(key)
    if rec is None:
        name = f'{kind}!{len(CTX.sum_templates)}'
        sorts = [p.sort() for p in pv] + [I]
        rec = types.SimpleNamespace(name=name, sorts=sorts, body=cb, n=cn,
                                    pv=[z3.Const(f'%P{k}', p.sort()) for k, p in enumerate(pv)], j=z3.Int('%J'))
        rec.sigma = z3.Function(name + '_at', *sorts, I)
        rec.rho = z3.Function(name + '_inv', *sorts, I)
        rec.new = True
        CTX.sum_templates[key] = rec
    else:
        rec.new = False
    rec.inst = lambda args, e: z3.substitute(rec.body, *[(p, a) for p, a in zip(rec.pv, args)], (rec.j, e))
    rec.ninst = lambda args: z3.substitute(rec.n, *[(p, a) for p, a in zip(rec.pv, args)]) if rec.pv else rec.n
    return rec, pv, n


def sort_family(x):
    trust('numpy.argsort/sort: a permutation that orders the values ascending')
    rec, pv, n = arr_family('sort', x)
    if rec.new:
        def ax_sigma(t):
            ch = t.children(); a, k = ch[:-1], ch[-1]
            nn = rec.ninst(a)
            return [z3.Implies(z3.And(k >= 0, k < nn), z3.And(t >= 0, t < nn, rec.rho(*a, t) == k))]

        def ax_rho(t):
            ch = t.children(); a, k = ch[:-1], ch[-1]
            nn = rec.ninst(a)
            return [z3.Implies(z3.And(k >= 0, k < nn), z3.And(t >= 0, t < nn, rec.sigma(*a, t) == k))]

        def pair(t1, t2):
            c1, c2 = t1.children(), t2.children()
            if any(not u.eq(v) for u, v in zip(c1[:-1], c2[:-1])): return []
            nn = rec.ninst(c1[:-1])
            return [z3.Implies(z3.And(c1[-1] >= 0, c1[-1] <= c2[-1], c2[-1] < nn),
                               rec.inst(c1[:-1], t1) <= rec.inst(c2[:-1], t2))]
        A.PERMS[rec.sigma.name()] = rec
        C.add_templ(rec.sigma, ax_sigma)
        C.add_templ(rec.rho, ax_rho)
        C.add_pair(rec.sigma, pair)
    return rec, pv, n


def argsort(x, axis=-1, **kw):
    x = asarr(x)
    if axis is None: x = x.ravel()
    if x.ndim != 1: raise Unsupported('argsort of a matrix')
    rec, pv, n = sort_family(x)
    r = new_arr(x._shape, 'i8', lambda idx: rec.sigma(*pv, idx[0]))
    r.inverse = lambda e: rec.rho(*pv, e)
    r.perm_of = (rec, pv)
    return r


def sort(x, axis=-1, **kw):
    x = asarr(x)
    if axis is None: x = x.ravel()
    if x.ndim != 1: raise Unsupported('sort of a matrix')
    rec, pv, n = sort_family(x)
    f = x.snap()
    r = new_arr(x._shape, x.dt, lambda idx: f((rec.sigma(*pv, idx[0]),)))
    r.sorted_flag = True
    return r


def is_sorted_obl(a, what):
    f = a.snap()
    n = dz(a._shape[0])
    i, j = CTX.index_var('a'), CTX.index_var('b')
    m = CTX.push()
    CTX.assume(z3.And(i >= 0, i < j, j < n), True)
    CTX.side(what, f((i,)) <= f((j,)))
    CTX.pop(m)


_ss = itertools.count()


def searchsorted(a, v, side='left', sorter=None, **kw):
    trust('numpy.searchsorted on an ascending array: left/right insertion point')
    if sorter is not None: raise Unsupported('sorter')
    a = asarr(a)
    is_sorted_obl(a, 'searchsorted needs an ascending array')
    n = dz(a._shape[0])
    rec, pv, _ = arr_family('ss' + side, a)
    if rec.new:
        rec.ss = z3.Function(rec.name + '_pos', *rec.sorts[:-1], R, I)

        def ax(t):
            ch = t.children(); args, val = ch[:-1], ch[-1]
            nn = rec.ninst(args)
            el = lambda e: toreal(S(rec.inst(args, e)))
            out = [z3.Implies(nn >= 0, z3.And(t >= 0, t <= nn))]
            if side == 'right':
                out += [z3.Implies(z3.And(nn >= 0, t > 0), el(z3.simplify(t - 1)) <= val), z3.Implies(t < nn, el(t) > val)]
            else:
                out += [z3.Implies(z3.And(nn >= 0, t > 0), el(z3.simplify(t - 1)) < val), z3.Implies(t < nn, el(t) >= val)]
            return out
        C.add_templ(rec.ss, ax)
    return unop_any(lambda x: S(rec.ss(*pv, toreal(x))), v, 'i8')


def unop_any(f, v, dt):
    v = A.coerce(v)
    return elementwise(f, [v], dt) if isinstance(v, SArr) else f(S(lift(v)))


def lib_array_fn(name, txt, postfn=None, pairfn=None):
    """opaque library statistic of a 1-d sample: a function of its elements"""
    def g(x, *extra):
        trust(txt)
        rec, pv, n = arr_family(name, x)
        if not hasattr(rec, 'fn'):
            rec.fn = z3.Function(rec.name + '_v', *rec.sorts[:-1], *[R] * len(extra), R)
            if postfn:
                C.add_templ(rec.fn, lambda t: postfn(rec, t))
            if pairfn:
                C.add_pair(rec.fn, pairfn)
        return S(rec.fn(*pv, *[toreal(S(lift(e))) for e in extra]))
    return g


def _q_pair(t1, t2):
    c1, c2 = t1.children(), t2.children()
    if any(not a.eq(b) for a, b in zip(c1[:-1], c2[:-1])): return []
    return [z3.Implies(c1[-1] <= c2[-1], t1 <= t2)]


_quant = lib_array_fn('quantile', 'numpy.quantile(x, p): linear-interpolated order statistic (opaque function of the sample and p, non-decreasing in p)',
                      pairfn=_q_pair)
_median = lib_array_fn('median', 'numpy.median(x): middle order statistic (opaque function of the sample)')


def quantile(x, p, axis=None, **kw):
    x = asarr(x)
    if x.ndim != 1 or kw: 
        if x.ndim == 2 and axis in (-1, 1) and not kw:
            it = L.as_iter(x)
            return infer_list(L.listcomp(lambda r: quantile(r, p), x))
        raise Unsupported('quantile options')
    p = A.coerce(p)
    if isinstance(p, SArr):
        return elementwise(lambda q: _quant(x, q), [p], 'f8')
    return _quant(x, p)


def median(x, axis=None, **kw):
    x = asarr(x)
    if x.ndim != 1: raise Unsupported('median of a matrix')
    return _median(x)


def histogram(x, bins=10, range=None, density=None, weights=None):
    trust('numpy.histogram: equally spaced edges over the range; [edge, next edge), the last bin closed; weights summed per bin')
    if density: raise Unsupported('numpy.histogram(density=True)')
    x = asarr(x).ravel()
    b = A.coerce(bins)
    if isinstance(b, SArr):
        e = asarr(b)
        if e.ndim != 1: raise ValueError('bins must be 1d')
        is_sorted_obl(e, 'numpy.histogram edges ascend')
        e = e.copy()
    else:
        if CTX.branch(dz(dim(bins)) < 1) if not isinstance(bins, int) else bins < 1: raise ValueError('bins must be positive')
        if range is None: raise Unsupported('numpy.histogram without range')
        lo, hi = S(toreal(range[0])), S(toreal(range[1]))
        if lo > hi: raise ValueError('max must be larger than min in range parameter.')
        if lo == hi: lo, hi = lo - .5, hi + .5
        e = linspace(lo, hi, bins + 1)
    nb = dim(S(dz(e._shape[0]) - 1))
    n = x._shape[0]
    if weights is not None:
        w = asarr(weights).ravel()
        if CTX.branch(dz(w._shape[0]) != dz(n)): raise ValueError('weights should have the same shape as a.')
    dt = 'i8' if weights is None else w.dt
    if as_dt(dt).k == 'b': dt = 'i8'
    def base(idx):
        k = idx[0]
        lo, hi = toreal(S(e.at(k))), toreal(S(e.at(z3.simplify(k + 1))))
        def one(i):
            v = toreal(S(x.at(i)))
            c = z3.And(lo <= v, z3.Or(v < hi, z3.And(k == dz(nb) - 1, v == hi)))
            u = z3.IntVal(1) if weights is None else w.at(i)
            return z3.If(c, u, z3.IntVal(0) if u.sort() == I else z3.RealVal(0))
        return A.mk_sum(one, dz(n), R if as_dt(dt).k == "r" else I)
    return new_arr((nb,), dt, base), e


# ------------------------------------------------------------------ boolean selection
def same_mask(m1, m2f, m2):
    return A.same_mask(m1, m2f, m2.ndim)


def compress_family(m):
    rec, pv, n = arr_family('sel', m)
    if rec.new:
        rec.cnt = lambda args: mk_sum(lambda j: num(S(rec.inst(args, j))), rec.ninst(args), I)

        def ax_sigma(t):
            ch = t.children(); a, k = ch[:-1], ch[-1]
            nn = rec.ninst(a)
            return [z3.Implies(z3.And(k >= 0, k < rec.cnt(a)),
                               z3.And(t >= 0, t < nn, tobool(S(rec.inst(a, t))), rec.rho(*a, t) == k))]

        def ax_rho(t):
            ch = t.children(); a, k = ch[:-1], ch[-1]
            nn = rec.ninst(a)
            return [z3.Implies(z3.And(k >= 0, k < nn, tobool(S(rec.inst(a, k)))),
                               z3.And(t >= 0, t < rec.cnt(a), rec.sigma(*a, t) == k))]

        def pair(t1, t2):
            c1, c2 = t1.children(), t2.children()
            if any(not u.eq(v) for u, v in zip(c1[:-1], c2[:-1])): return []
            return [z3.Implies(z3.And(c1[-1] >= 0, c1[-1] < c2[-1], c2[-1] < rec.cnt(c1[:-1])), t1 < t2)]
        C.add_templ(rec.sigma, ax_sigma)
        C.add_templ(rec.rho, ax_rho)
        C.add_pair(rec.sigma, pair)
    return rec, pv, n


def compress(a, m, ax=0):
    """a[..., mask, ...] with the mask over axes ax..ax+m.ndim"""
    trust('numpy boolean indexing: the elements at the true positions in increasing index order')
    for i in range(m.ndim):
        sd = same_dim(m._shape[i], a._shape[ax + i])
        if sd is False or sd is None and not CTX.branch(dz(m._shape[i]) == dz(a._shape[ax + i])):
            raise IndexError('boolean index did not match indexed array')
    if m.ndim != 1:
        if ax == 0 and m.ndim == a.ndim:
            return compress_nd(a, m)
        raise Unsupported('multi-dimensional boolean selection')
    if isinstance(m._shape[0], int) and m._shape[0] <= 8 and all(
            z3.is_true(e) or z3.is_false(e) for e in (z3.simplify(m.at(k)) for k in range(m._shape[0]))):
        ids = [k for k in range(m._shape[0]) if z3.is_true(z3.simplify(m.at(k)))]
        return stack([a[(slice(None),) * ax + (k,)] for k in ids], ax) if ids else a[(slice(None),) * ax + (slice(0, 0),)]
    rec, pv, n = compress_family(m)
    cnt = z3.simplify(rec.cnt(pv))
    f, mf = a.snap(), m.snap()
    shape = a._shape[:ax] + (dim(cnt),) + a._shape[ax + 1:]
    r = new_arr(shape, a.dt, lambda idx: f(idx[:ax] + (rec.sigma(*pv, idx[ax]),) + idx[ax + 1:]))
    CTX.assume(cnt >= 0, True)
    CTX.assume(cnt <= n, True)
    CTX.compress_reg[cnt.get_id()] = (cnt, rec, pv, n)
    if ax == 0 and a.ndim >= 1:
        A.mark_selection(r, f, mf, m.ndim)
    return r


def compress_nd(a, m):
    """full selection a[mask] of an n-d array: C order; only sums and generic elements are supported"""
    rec_name = 'selnd'
    f, mf = a.snap(), m.snap()
    js = [A.jvar() for _ in m._shape]
    body = z3.simplify(mf(tuple(js)))
    pv = A.abstract_params(body, js)
    pairs = [(p, z3.Const(f'%P{k}', p.sort())) for k, p in enumerate(pv)] + [(j, z3.Int(f'%J{k}')) for k, j in enumerate(js)]
    cb = z3.substitute(body, *pairs)
    key = (rec_name, cb.sexpr(), str(m._shape))
    rec = CTX.sum_templates.get(key)
    dims = [dz(d) for d in m._shape]
    if rec is None:
        name = f'{rec_name}!{len(CTX.sum_templates)}'
        sorts = [p.sort() for p in pv]
        rec = types.SimpleNamespace(name=name)
        rec.sig = [z3.Function(f'{name}_at{k}', *sorts, I, I) for k in range(len(js))]
        rec.rho = z3.Function(f'{name}_inv', *sorts, *[I] * len(js), I)
        rec.pvc = [z3.Const(f'%P{k}', p.sort()) for k, p in enumerate(pv)]
        rec.inst = lambda args, e: z3.substitute(cb, *zip(rec.pvc, args), *[(z3.Int(f'%J{k}'), x) for k, x in enumerate(e)]) 
        rec.cnt = lambda args: nested_sum(lambda q: num(S(rec.inst(args, q))), list(m._shape), I)
        CTX.sum_templates[key] = rec

        def ax_sig(t):
            ch = t.children(); a_, k = ch[:-1], ch[-1]
            ps = [s(*a_, k) for s in rec.sig]
            return [z3.Implies(z3.And(k >= 0, k < rec.cnt(a_)),
                               z3.And(*[z3.And(p >= 0, p < d) for p, d in zip(ps, dims)], rec.inst(a_, ps),
                                      rec.rho(*a_, *ps) == k))]

        def ax_rho(t):
            ch = t.children(); npv = len(rec.pvc); a_, ps = ch[:npv], ch[npv:]
            return [z3.Implies(z3.And(*[z3.And(p >= 0, p < d) for p, d in zip(ps, dims)], rec.inst(a_, ps)),
                               z3.And(t >= 0, t < rec.cnt(a_), *[s(*a_, t) == p for s, p in zip(rec.sig, ps)]))]
        for s in rec.sig: C.add_templ(s, ax_sig)
        C.add_templ(rec.rho, ax_rho)
    cnt = z3.simplify(rec.cnt(pv))
    CTX.assume(cnt >= 0, True)
    r = new_arr((dim(cnt),), a.dt, lambda idx: f(tuple(s(*pv, idx[0]) for s in rec.sig)))
    A.mark_selection(r, f, mf, m.ndim)
    r.sel_nd = (rec, pv)
    return r


def nonzero(x):
    x = asarr(x)
    if x.ndim == 0: raise Unsupported('nonzero of a scalar')
    b = x if x.k == 'b' else x != 0
    if x.ndim != 1:
        trust('numpy nonzero: the index tuples of the true entries in C order')
        return tuple(compress_nd(new_arr(x._shape, 'i8', lambda idx, ax=ax: idx[ax]), b) for ax in range(x.ndim))
    ids = arange(dimS(x._shape[0]))
    return (compress(ids, b, 0),)


def argwhere(x):
    x = asarr(x)
    if x.ndim == 0: raise Unsupported('argwhere of a scalar')
    return stack(nonzero(x), 1)


def cbrt1(x):
    x = S(toreal(x))
    if CTX.known(x.e >= 0): return C.m_pow(x, 1. / 3.)
    return S(z3.If(x.e >= 0, C.toreal(C.m_pow(x, 1. / 3.)), -C.toreal(C.m_pow(-x, 1. / 3.))))


def flatnonzero(x): return nonzero(asarr(x).ravel())[0]


# ------------------------------------------------------------------ linear algebra
def norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2): raise Unsupported('norm order')
    trust('numpy.linalg.norm: square root of the sum of squares')
    x = asarr(x)
    x = x.astype('f8') if x.k != 'r' else x
    return sqrt(sum(x * x, axis, keepdims=keepdims))


def dot(a, b):
    a, b = asarr(a), asarr(b)
    return matmul(a, b)


def matmul(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim == 1 and b.ndim == 1: return sum(a * b)
    if b.ndim == 1:
        return sum(a * b, -1)
    if a.ndim == 1:
        return sum(a[:, None] * b, 0)
    if b.ndim == 2 and a.ndim >= 2:
        # (..., n, k) @ (k, m)
        if same_dim(a._shape[-1], b._shape[0]) is False: raise ValueError('matmul: mismatch')
        return sum(a[..., None] * b, -2)
    raise Unsupported('matmul')


def cross(a, b, **kw):
    if kw: raise Unsupported('cross options')
    trust('numpy.cross: component formula of the vector product')
    a, b = asarr(a), asarr(b)
    if a._shape[-1] != 3 or b._shape[-1] != 3: raise Unsupported('cross of non-3-vectors')
    g = lambda x, k: x[..., k] if x.ndim > 1 else x[k]
    a0, a1, a2, b0, b1, b2 = g(a, 0), g(a, 1), g(a, 2), g(b, 0), g(b, 1), g(b, 2)
    return stack([a1 * b2 - a2 * b1, a2 * b0 - a0 * b2, a0 * b1 - a1 * b0], -1)


def outer(a, b):
    a, b = asarr(a).ravel(), asarr(b).ravel()
    return a[:, None] * b[None, :]


def eigvalsh(T, **kw):
    """ascending eigenvalues: per matrix, sum = trace (and ascending); other symmetric functions opaque"""
    trust('numpy.linalg.eigvalsh: ascending eigenvalues of the symmetric matrix; their sum is the trace')
    T = asarr(T)
    n = T._shape[-1]
    if n != 3: raise Unsupported('eigvalsh size')
    f = T.snap()
    ev = [z3.Function(f'eig{k}', *([R] * 6), R) for k in range(3)]

    def ax(t):
        a = t.children()
        e0, e1, e2 = [g(*a) for g in ev]
        return [e0 <= e1, e1 <= e2, e0 + e1 + e2 == a[0] + a[2] + a[5]]
    for g in ev:
        if g.name() not in C.TEMPL: C.add_templ(g, ax)

    def base(idx):
        pre = idx[:-1]
        ent = [f(pre + (z3.IntVal(i), z3.IntVal(j))) for i in range(3) for j in range(i + 1)]
        k = ival(idx[-1])
        if k is not None: return ev[k](*ent)
        return z3.If(idx[-1] == 0, ev[0](*ent), z3.If(idx[-1] == 1, ev[1](*ent), ev[2](*ent)))
    return new_arr(T._shape[:-1], 'f8', base)


# ------------------------------------------------------------------ misc
def isscalar(x):
    return isinstance(x, (int, float, bool, complex, str, bytes, S))


def shape_(x): return asarr(x).shape
def ndim_(x): return asarr(x).ndim if not isscalar(x) else 0
def size_(x): return asarr(x).size


def ravel(x): return asarr(x).ravel()
def reshape(x, s): return asarr(x).reshape(s)
def transpose(x, a=None): return asarr(x).transpose(*([a] if a is not None else []))
def expand_dims(x, axis):
    x = asarr(x)
    axis = axis % (x.ndim + 1)
    return x[(slice(None),) * axis + (None,)]
def squeeze(x, axis=None): return asarr(x).squeeze(axis)
def copy_(x, **k): return asarr(x).copy()
def array_equal(a, b):
    a, b = asarr(a), asarr(b)
    if a.ndim != b.ndim: return False
    for d, e in zip(a._shape, b._shape):
        if same_dim(d, e) is False: return False
        if same_dim(d, e) is None and not CTX.branch(dz(d) == dz(e)): return False
    return (a == b).all()


def same_shape_arg(a, v, what):
    if isinstance(v, (list, tuple)): v = asarr(v)
    if isinstance(v, SArr) and v.ndim:
        if v.ndim != a.ndim: raise Unsupported(what + ' of a differently shaped operand')
        for d, e in zip(a._shape, v._shape):
            if same_dim(d, e) is not True: raise Unsupported(what + ' of a differently shaped operand')
    return v


def putmask(a, mask, values):
    trust('numpy.putmask/copyto with operands of the same shape: the value where the mask holds, else unchanged')
    mask, values = same_shape_arg(a, mask, 'putmask'), same_shape_arg(a, values, 'putmask')
    if not (isinstance(a, SArr) and isinstance(mask, SArr) and mask.k == 'b'): raise Unsupported('numpy.putmask')
    a[...] = where(mask, values, a)


def copyto(dst, src, casting='same_kind', where=True):
    if where is True:
        dst[...] = src
        return
    putmask(dst, where, src)


def append(a, v, axis=None):
    if axis is not None: return concatenate((a, v), axis=axis)
    return concatenate((asarr(a).ravel(), expand0(asarr(v)) if isscalar(v) else asarr(v).ravel()))


def digitize(x, bins, right=False):
    return searchsorted(bins, x, side='left' if right else 'right')


def flip(x, axis=None):
    x = asarr(x)
    if axis is None:
        return x[tuple(slice(None, None, -1) for _ in range(x.ndim))]
    return x[(slice(None),) * (axis % x.ndim) + (slice(None, None, -1),)]


def interp(x, xp, fp, left=None, right=None, **kw):
    """piecewise linear through (xp, fp)"""
    trust('numpy.interp on ascending nodes: linear between bracketing nodes, end values outside')
    xp, fp = asarr(xp), asarr(fp)
    is_sorted_obl(xp, 'np.interp needs ascending nodes')
    pos = searchsorted(xp, x, side='right')
    n = dz(xp._shape[0])
    X, F = xp.snap(), fp.snap()

    def f(v, p):
        e = toreal(v); q = lift(p)
        el = lambda g, i: toreal(S(g((i,))))
        lo, hi = z3.simplify(q - 1), q
        lin = el(F, lo) + (el(F, hi) - el(F, lo)) * (e - el(X, lo)) / (el(X, hi) - el(X, lo))
        l = el(F, z3.IntVal(0)) if left is None else toreal(S(lift(left)))
        r = el(F, z3.simplify(n - 1)) if right is None else toreal(S(lift(right)))
        return S(z3.If(q == 0, l, z3.If(q == n, z3.If(e == el(X, z3.simplify(n - 1)), el(F, z3.simplify(n - 1)), r), lin)))
    x = A.coerce(x)
    if isinstance(x, SArr): return elementwise(f, [x, pos], 'f8')
    return f(S(lift(x)), pos)


class NdMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, SArr)
    def __or__(cls, o):
        from . import loader
        return loader.ty_or(cls, o)
    def __ror__(cls, o):
        from . import loader
        return loader.ty_or(o, cls)
    def __getitem__(cls, k): return cls


class ndarray(metaclass=NdMeta):
    def __new__(cls, *a, **k): raise Unsupported('ndarray()')


def scalar_type(name, kinds):
    from . import loader as LD

    class T(metaclass=LD.NumMeta):
        _py = None
        __pv_dt__ = name
        _inst = staticmethod(lambda x: isinstance(x, S) and x.k in kinds)

        def __new__(cls, x=0):
            if isinstance(x, (SArr, list, tuple)):
                if isinstance(x, SArr) and x.ndim == 0: x = x.__pv_scalar__()
                else: return array(x, dtype=name)
            return C.cast(x if isinstance(x, S) else S(lift(x)), DT(name).k)
    T.__name__ = name
    return T


class NS(types.SimpleNamespace):
    _n = 'numpy'
    __path__ = []

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)

        return NoModel(f'{self._n}.{k}')


class NoModel:
    """a library name without a contract: any use of it is outside the subset"""

    def __init__(self, name):
        self.__dict__['_pv_name'] = name
        self.__dict__['__name__'] = name.rsplit('.', 1)[-1]

    def _bad(self, *a, **k): raise Unsupported(self._pv_name)
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        raise Unsupported(f'{self._pv_name}.{k}')
    def __or__(self, o): return self
    __ror__ = __or__
    __call__ = __getitem__ = __setitem__ = __iter__ = __len__ = __bool__ = __add__ = __radd__ = __mul__ = __rmul__ = __sub__ = __rsub__ = __truediv__ = __rtruediv__ = __lt__ = __gt__ = __le__ = __ge__ = __eq__ = __ne__ = __neg__ = __float__ = __int__ = __index__ = __contains__ = _bad
    __hash__ = object.__hash__


class MGrid:
    """numpy.mgrid for one slice"""

    def __getitem__(self, sl):
        trust('numpy.mgrid[a:b:n*1j] is linspace(a, b, n); numpy.mgrid[a:b:s] counts from a in steps of s below b')
        if not isinstance(sl, slice): raise Unsupported('numpy.mgrid of several slices')
        a, st = 0 if sl.start is None else sl.start, 1 if sl.step is None else sl.step
        if isinstance(st, complex): return linspace(a, sl.stop, int(abs(st)))
        if any(isinstance(v, float) or isinstance(v, S) and v.k == 'r' for v in (a, sl.stop, st)): raise Unsupported('numpy.mgrid with steps of reals')
        return arange(a, sl.stop, st)


class Errstate:
    def __init__(self, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


signbitF = z3.Function('signbit', R, B)
C.AX['signbit'] = lambda t: [z3.Implies(t.arg(0) < 0, t), z3.Implies(t.arg(0) > 0, z3.Not(t))]


def signbit1(x):
    """sign bit of a float; a zero may carry either"""
    e = z3.simplify(toreal(x))
    v = C.rconst(e)
    if v is not None: return z3.BoolVal(v < 0)
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL: return e < 0      # a converted integer: no negative zero
    return signbitF(e)


def copysign1(a, b):
    m = toreal(a)
    m = z3.If(m >= 0, m, -m)
    return S(z3.simplify(z3.If(signbit1(b), -m, m)))


class MathNS(NS):
    """the math module: symbolic arguments are computed in exact arithmetic, others by the module itself"""

    def __getattr__(self, k):
        if not hasattr(math, k): raise AttributeError(k)
        real = getattr(math, k)
        if not callable(real): return real

        def f(*a, **kw):
            if any(isinstance(x, (S, SArr)) for x in a):
                a = [x.__pv_scalar__() if isinstance(x, SArr) else x for x in a]
                g = MATH.get(k)
                if g is None: raise Unsupported(f'math.{k}')
                return g(*[x if isinstance(x, S) else S(lift(x)) for x in a])
            return real(*a, **kw)
        return f


MATH = dict(copysign=copysign1, sqrt=lambda x: C.m_sqrt(x), exp=lambda x: C.m_exp(x), log10=lambda x: C.m_log10(x), fabs=lambda x: abs(S(toreal(x))),
            log=lambda x, *b: C.m_log(x) if not b else C.m_log(x) / C.m_log(b[0]), sin=lambda x: C.m_sin(x), cos=lambda x: C.m_cos(x), pow=lambda a, b: S(toreal(a)) ** b,
            floor=lambda x: S(z3.ToInt(toreal(x))), ceil=lambda x: S(-z3.ToInt(-toreal(x))), radians=lambda x: S(toreal(x)) * S(C.PI) / 180,
            degrees=lambda x: S(toreal(x)) * 180 / S(C.PI))


def identity_decorator(*a, **k):
    if len(a) == 1 and not k and (callable(a[0]) or isinstance(a[0], (staticmethod, type))):
        return a[0]
    return lambda f: f


class NumbaType:
    def __getitem__(self, k): return self
    def __call__(self, *a): return a[0] if a else self


def models():
    from . import loader as LD
    np = NS()
    np._n = 'numpy'
    g = globals()
    for n in ('array asarray empty full zeros ones empty_like zeros_like ones_like full_like arange linspace eye diag meshgrid '
              'stack concatenate vstack hstack column_stack atleast_1d atleast_2d broadcast_to tile repeat take floor ceil sqrt exp '
              'log log10 sin cos arccos sign square absolute deg2rad rad2deg isfinite isnan isinf logical_not maximum minimum clip '
              'where select histogram sum mean var std count_nonzero prod cumsum diff argsort sort searchsorted quantile median nonzero flatnonzero '
              'dot matmul cross outer isscalar ravel reshape transpose expand_dims squeeze array_equal flip interp ndarray').split():
        setattr(np, n, g[n])
    np.abs = absolute
    np.fabs = absolute
    np.identity = eye
    np.all, np.any, np.min, np.max, np.amin, np.amax = all_, any_, min_, max_, min_, max_
    np.mgrid = MGrid()
    np.copy, np.shape, np.ndim, np.size = copy_, shape_, ndim_, size_
    np.asanyarray = np.ascontiguousarray = asarray
    np.radians, np.degrees = deg2rad, rad2deg
    np.fmax, np.fmin = maximum, minimum
    np.add, np.subtract, np.multiply, np.divide = ew2('+'), ew2('-'), ew2('*'), ew2('/')
    np.true_divide, np.power, np.mod, np.remainder, np.floor_divide = ew2('/'), ew2('**'), ew2('%'), ew2('%'), ew2('//')
    np.less, np.greater, np.less_equal, np.greater_equal = ew2('<'), ew2('>'), ew2('<='), ew2('>=')
    np.equal, np.not_equal = ew2('=='), ew2('!=')
    np.logical_and = ew2(fn=lambda x, y: S(z3.And(tobool(x), tobool(y))), dt='b1')
    np.logical_or = ew2(fn=lambda x, y: S(z3.Or(tobool(x), tobool(y))), dt='b1')
    np.bitwise_and, np.bitwise_or = ew2('&'), ew2('|')
    np.negative = lambda x, **k: -A.coerce(x)
    np.invert = lambda x, **k: ~A.coerce(x)
    np.tan, np.arctan, np.arcsin, np.sinh, np.cosh, np.tanh, np.arcsinh, np.arctanh = [
        uf1(n) for n in ('tan', 'arctan', 'arcsin', 'sinh', 'cosh', 'tanh', 'arcsinh', 'arctanh')]
    np.log2 = ew(lambda x: C.m_log(x) / C.m_log(2.))
    np.log1p, np.expm1 = ew(lambda x: C.m_log(1 + S(toreal(x)))), ew(lambda x: C.m_exp(x) - 1)
    np.cbrt, np.argwhere = ew(cbrt1), argwhere
    np.putmask, np.copyto, np.append, np.digitize = putmask, copyto, append, digitize
    np.trunc = np.fix = ew(lambda x: S(z3.If(tobool(S(toreal(x)) >= 0), toreal(f_floor(x)), toreal(f_ceil(x)))))
    np.hypot = ew2(fn=lambda x, y: C.m_sqrt(x * x + y * y))
    np.pi, np.inf, np.nan, np.newaxis = S(C.PI), float('inf'), float('nan'), None
    np.e = float(math.e)
    np.float64, np.float32, np.int64, np.int32 = scalar_type('f8', 'r'), scalar_type('f4', 'r'), scalar_type('i8', 'i'), scalar_type('i4', 'i')
    np.intp = np.int_ = np.longlong = np.int64
    np.float_ = np.double = np.float64
    np.bool_ = np.bool = scalar_type('b1', 'b')
    np.complex128 = scalar_type('c16', 'r')
    np.uint8 = np.int64
    np.integer = scalar_type('i8', 'i')
    np.floating = scalar_type('f8', 'r')
    np.number = scalar_type('f8', 'ri')
    np.object_ = object
    np.generic = scalar_type('f8', 'rib')
    np.bytes_ = bytes
    np.str_ = str
    np.dtype = as_dt
    np.errstate = Errstate
    np.linalg = NS()
    np.linalg._n = 'numpy.linalg'
    np.linalg.norm, np.linalg.eigvalsh = norm, eigvalsh
    np.random = NS(); np.random._n = 'numpy.random'
    np.random.Generator = type('Generator', (), {})
    np.random.default_rng = lambda *a, **k: np.random.Generator()
    np.random.RandomState = type('RandomState', (), {})
    np.ma = NS(); np.ma._n = 'numpy.ma'
    np.ma.MaskedArray = type('MaskedArray', (), {})
    np.typing = LD.Stub('numpy.typing')
    np.issubdtype = lambda a, b: as_dt(a).k in getattr(b, '_kinds', DT.K.get(getattr(b, '__pv_dt__', 'O'), '?'))
    np.set_printoptions = lambda *a, **k: None
    nb = NS(); nb._n = 'numba'
    nb.njit = nb.jit = nb.vectorize = identity_decorator
    nb.prange = LD.range_
    import contextlib
    nb.objmode = lambda *a, **k: contextlib.nullcontext()
    for t in 'float64 float32 int64 int32 boolean complex128 optional types typeof'.split():
        setattr(nb, t, NumbaType())
    nb.experimental = types.SimpleNamespace(jitclass=identity_decorator, __path__=[])
    nb.types = NumbaType()
    nb.typed = LD.Stub('numba.typed')
    np.copysign = ew2(fn=copysign1)
    np.signbit = ew(lambda x: S(signbit1(x)), 'b1')
    mth = MathNS()
    mth._n, mth.pi = 'math', S(C.PI)
    out = {'numpy': np, 'numba': nb, 'math': mth}
    for r in ('scipy', 'h5py', 'astropy', 'sklearn', 'pandas', 'matplotlib', 'yaml', 'seaborn', 'cycler', 'hmf', 'colossus', 'importlib_resources', 'psutil', 'joblib', 'tqdm'):
        out[r] = LD.Stub(r)
    from . import units as un
    un._u = None
    out['astropy.units'] = un.units()
    out['astropy.constants'] = un.constants()
    out['astropy'].units, out['astropy'].constants = out['astropy.units'], out['astropy.constants']
    out['astropy.cosmology'] = out['astropy'].cosmology = un.cosmology()
    ir = out['importlib_resources'] = LD.Stub('importlib_resources')
    import pathlib, contextlib
    ir.files = lambda pkg: pathlib.Path(LD.SRC).joinpath(*pkg.split('.'))
    ir.as_file = contextlib.nullcontext
    out['scipy.fft'] = LD.Stub('scipy.fft')
    from . import scimodels
    out['scipy.interpolate'] = out['scipy'].interpolate = scimodels.interpolate()
    out['scipy.integrate'] = out['scipy'].integrate = scimodels.integrate()
    return out
