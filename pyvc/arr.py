"""Symbolic arrays: index -> z3 expression closures with write layers, views, broadcasting,
sums as canonical uninterpreted templates."""
from __future__ import annotations
import itertools, z3
from .core import *
from . import core as C
from .core import CTX, S, I, R, B, lift, num, toreal, toint, tobool, ival, Unsupported, subterms, contains

MAXEXPAND = 64


# ------------------------------------------------------------------ dtypes
class DT:
    """a dtype: name is 'f8','f4','i8','i4','b1','c16','O'"""
    K = {'f8': 'r', 'f4': 'r', 'i8': 'i', 'i4': 'i', 'b1': 'b', 'c16': 'r', 'O': 'o', 'u8': 'i', 'S': 'o', 'U': 'o'}
    LONG = {'f8': 'float64', 'f4': 'float32', 'i8': 'int64', 'i4': 'int32', 'b1': 'bool', 'c16': 'complex128',
            'O': 'object'}

    def __init__(self, name):
        self.name = name
        self.k = DT.K[name]

    def __eq__(self, o):
        try:
            return as_dt(o).name == self.name
        except Unsupported:
            return False

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f'dtype({self.name})'

    @property
    def kind(self):
        return {'r': 'f', 'i': 'i', 'b': 'b', 'o': 'O'}[self.k] if self.name != 'c16' else 'c'

    @property
    def itemsize(self):
        return {'f8': 8, 'f4': 4, 'i8': 8, 'i4': 4, 'b1': 1, 'c16': 16}.get(self.name, 8)

    def __call__(self, x=0):
        from . import npm
        return npm.array(x, dtype=self) if not isinstance(x, (S, int, float, bool)) else C.cast(
            x if isinstance(x, S) else S(lift(x)), self.k)


def as_dt(d):
    if isinstance(d, DT):
        return d
    if isinstance(d, str):
        m = {'b1': 'b1', '?': 'b1', 'c16': 'c16', 'O': 'O', 'float64': 'f8', 'float': 'f8', 'f8': 'f8', '<f8': 'f8', 'int64': 'i8', 'int': 'i8', 'i8': 'i8', 'bool': 'b1',
             'float32': 'f4', 'f4': 'f4', 'f': 'f4', 'd': 'f8', 'complex128': 'c16', 'int32': 'i4', 'i4': 'i4',
             'object': 'O'}
        if d in m:
            return DT(m[d])
        raise Unsupported('dtype ' + d)
    n = getattr(d, '__pv_dt__', None)
    if n is not None:
        return DT(n)
    if d is float: return DT('f8')
    if d is int: return DT('i8')
    if d is bool: return DT('b1')
    if d is object: return DT('O')
    if d is None: return DT('f8')
    raise Unsupported(f'dtype {d!r}')


def kind_of_dtype(d):
    return as_dt(d).k


SORT = {'i': I, 'r': R, 'b': B}


# ------------------------------------------------------------------ dims
def dim(x):
    """normalise a dimension to int or z3 int expr"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    e = toint(x) if not isinstance(x, z3.ExprRef) else x
    v = ival(e)
    return v if v is not None else z3.simplify(e)


def dimS(d):
    return d if isinstance(d, int) else S(d)


def dz(d):
    return z3.IntVal(d) if isinstance(d, int) else d


def same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    e = z3.simplify(dz(a) == dz(b))
    if z3.is_true(e): return True
    if z3.is_false(e): return False
    return None


# ------------------------------------------------------------------ buffers
class Layer:
    __slots__ = ('hit', 'val', 'acc', 'sels', 'guard')

    def __init__(self, hit, val, acc=None, sels=None, guard=None):
        self.hit, self.val, self.acc, self.sels, self.guard = hit, val, acc, sels, guard


class Buf:
    n = 0

    def __init__(self, shape, dt, base):
        self.shape, self.dt, self.base = tuple(shape), dt, base
        self.layers = ()
        self.readonly = self.item = self.reshaped = False
        self.alias = None          # the storage this is a reshaped view of (values taken when it was made)
        Buf.n += 1
        self.id = Buf.n
        self.loop_born = CTX.loop_depth
        self.name = None
        self.tag = None            # whose storage this is, kept when the array travels through symbolic loops

    def read(self, idx, layers=None, base=None):
        layers = self.layers if layers is None else layers
        # find last definite hit first
        todo = []
        v = None
        for L in reversed(layers):
            h = z3.simplify(L.hit(idx))
            if z3.is_false(h):
                continue
            if z3.is_true(h) and not L.acc:
                v = L.val(idx)
                break
            todo.append((L, h))
        if v is None:
            v = (self.base if base is None else base)(idx)
        for L, h in reversed(todo):
            x = L.val(idx)
            if L.acc in ('+', '-'):
                x = x if z3.is_true(h) else z3.If(h, x, zero_of(x.sort()))
                v = v + x if L.acc == '+' else v - x
            elif L.acc:
                nv = v * x
                v = nv if z3.is_true(h) else z3.If(h, nv, v)
            else:
                v = z3.If(h, x, v)
        return v

    def push(self, layer):
        if self.item: raise Unsupported('change of an item of a symbolic sequence')
        if self.alias is not None or self.reshaped: raise Unsupported('write to storage that is also seen in another shape')
        CTX.journal.append(('buf', self, self.layers))
        for w in CTX.watch:
            w.on_write(self, layer)
        self.layers = self.layers + (layer,)


def conv(e, k):
    """z3 expr converted to kind k"""
    s = e.sort()
    if k == 'r':
        return toreal(S(e)) if s != R else e
    if k == 'i':
        return toint(S(e)) if s != I else e
    if k == 'b':
        return tobool(S(e)) if s != B else e
    return e


def const_read(vals, idx):
    """vals: nested concrete tuple of z3 exprs, idx tuple of z3 ints"""
    if not idx:
        return vals
    i = ival(idx[0])
    if i is not None:
        if 0 <= i < len(vals):
            return const_read(vals[i], idx[1:])
        raise Unsupported('internal: constant index out of range')
    out = const_read(vals[-1], idx[1:])
    for j in range(len(vals) - 2, -1, -1):
        v = const_read(vals[j], idx[1:])
        out = z3.If(idx[0] == j, v, out)
    return out


class SArr:
    """view: vaxes: per buffer axis ('fix', e) | ('ax', k, start, step)"""
    __array_priority__ = 2000

    def __init__(self, buf, shape=None, vmap=None):
        self.buf = buf
        self._shape = tuple(buf.shape if shape is None else shape)
        self.vmap = tuple(('ax', k, z3.IntVal(0), 1) for k in range(len(buf.shape))) if vmap is None else tuple(vmap)
        self.__dict__.setdefault('_tag', None)

    # ---- basics
    @property
    def dt(self): return self.buf.dt
    @property
    def dtype(self): return self.buf.dt
    @property
    def k(self): return self.buf.dt.k
    @property
    def ndim(self): return len(self._shape)
    @property
    def shape(self): return tuple(dimS(d) for d in self._shape)
    @property
    def size(self):
        r = 1
        for d in self._shape:
            r = r * d if isinstance(r, int) and isinstance(d, int) else z3.simplify(dz(r) * dz(d))
        return dimS(r)
    @property
    def flags(self):
        class F: writeable = not self.buf.readonly; owndata = True
        return F
    nbytes = property(lambda s: s.size * s.dt.itemsize)
    itemsize = property(lambda s: s.dt.itemsize)
    def __pv_arr__(self): return True

    def bidx(self, idx):
        return tuple(z3.simplify(m[1]) if m[0] == 'fix' else z3.simplify(m[2] + idx[m[1]] * m[3]) for m in self.vmap)

    def at(self, *idx):
        """z3 expr at z3/int indices (no checks)"""
        idx = tuple(z3.IntVal(i) if isinstance(i, int) else (i.e if isinstance(i, S) else i) for i in idx)
        assert len(idx) == self.ndim, (len(idx), self.ndim)
        CTX.on_read(self.buf)
        return self.buf.read(self.bidx(idx))

    def snap(self):
        """closure with the present contents"""
        layers, buf = self.buf.layers, self.buf
        CTX.on_read(buf)
        base = buf.base
        vm = self.vmap

        def f(idx):
            b = tuple(m[1] if m[0] == 'fix' else z3.simplify(m[2] + idx[m[1]] * m[3]) for m in vm)
            return buf.read(b, layers, base)
        return f

    def concrete_shape(self):
        return all(isinstance(d, int) for d in self._shape)

    def __len__(self):
        if not self._shape:
            raise TypeError('len() of unsized object')
        d = self._shape[0]
        if isinstance(d, int):
            return d
        raise Unsupported('len() of a symbolic array outside the transformed code')

    def __iter__(self):
        if not self._shape:
            raise TypeError('iteration over a 0-d array')
        d = self._shape[0]
        if not isinstance(d, int):
            raise Unsupported('native iteration over a symbolic-length array')
        return iter([self[i] for i in range(d)])

    def __bool__(self):
        if self.ndim == 0 or all(d == 1 for d in self._shape if isinstance(d, int)) and self.concrete_shape():
            return bool(S(self.at(*([0] * self.ndim))))
        raise ValueError('The truth value of an array with more than one element is ambiguous')

    def __repr__(self):
        return f'SArr{self._shape}:{self.dt.name}'
    __hash__ = object.__hash__

    def item(self, *a):
        if self.ndim == 0 or self.concrete_shape() and all(d == 1 for d in self._shape):
            return S(self.at(*([0] * self.ndim)))
        raise Unsupported('item()')

    def __float__(self): return float(self.item())
    def __int__(self): return int(self.item())
    def __index__(self): return self.item().__index__()

    def __pv_scalar__(self):
        if self.ndim == 0:
            return S(self.at())
        raise Unsupported('array where a scalar is needed')

    # ---- copies / casts / shape
    def copy(self, *a, **k):
        return new_arr(self._shape, self.dt, self.snap())

    def __copy__(self): return self.copy()
    def __deepcopy__(self, memo): return self.copy()

    def astype(self, dt, copy=True, **kw):
        dt = as_dt(dt)
        f, k0, k = self.snap(), self.k, dt.k
        if k == 'i' and k0 == 'r' and getattr(C.CTX, 'int_range', False):
            ix = tuple(C.CTX.index_var('c') for _ in self._shape)
            C.int_range_side(f(ix), z3.And(*[z3.And(i >= 0, i < dz(d)) for i, d in zip(ix, self._shape)]))
        return new_arr(self._shape, dt, lambda idx: conv(f(idx), k))

    def view_all(self):
        return SArr(self.buf, self._shape, self.vmap)

    @property
    def T(self):
        n = self.ndim
        vm = tuple(m if m[0] == 'fix' else ('ax', n - 1 - m[1], m[2], m[3]) for m in self.vmap)
        return SArr(self.buf, self._shape[::-1], vm)

    def transpose(self, *axes):
        if not axes or axes == (None,):
            return self.T
        if len(axes) == 1: axes = tuple(axes[0])
        inv = {a: i for i, a in enumerate(axes)}
        vm = tuple(m if m[0] == 'fix' else ('ax', inv[m[1]], m[2], m[3]) for m in self.vmap)
        return SArr(self.buf, tuple(self._shape[a] for a in axes), vm)

    def swapaxes(self, a, b):
        ax = list(range(self.ndim)); ax[a], ax[b] = ax[b], ax[a]
        return self.transpose(*ax)

    def ravel(self, *a, **k):
        if self.ndim == 1:
            return self.view_all()
        return reshape(self, (-1,))
    flatten = lambda s: s.ravel().copy()

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def squeeze(self, axis=None):
        keep = [i for i, d in enumerate(self._shape) if not (isinstance(d, int) and d == 1)]
        idx = tuple(slice(None) if i in keep else 0 for i in range(self.ndim))
        return self[idx]

    def tolist(self):
        if self.ndim == 0: return S(self.at())
        if self.concrete_shape():
            return [x.tolist() if isinstance(x, SArr) else x for x in self]
        from . import loops as L
        f = self.snap()

        def lst(pre, d):
            if d == self.ndim: return S(f(pre))
            n = self._shape[d]
            if isinstance(n, int): return L.MList(lst(pre + (z3.IntVal(j),), d + 1) for j in range(n))
            i = CTX.index_var('tl')
            return L.MList([L.Seg(n, i, lst(pre + (i,), d + 1))])
        return lst((), 0)

    def fill(self, v):
        self[...] = v

    # ---- indexing
    def __getitem__(self, key):
        return getitem(self, key)

    def __setitem__(self, key, val):
        setitem(self, key, val)

    # ---- arithmetic
    def __add__(s, o): return binop('+', s, o)
    def __radd__(s, o): return binop('+', o, s)
    def __sub__(s, o): return binop('-', s, o)
    def __rsub__(s, o): return binop('-', o, s)
    def __mul__(s, o): return binop('*', s, o)
    def __rmul__(s, o): return binop('*', o, s)
    def __truediv__(s, o): return binop('/', s, o)
    def __rtruediv__(s, o): return binop('/', o, s)
    def __floordiv__(s, o): return binop('//', s, o)
    def __rfloordiv__(s, o): return binop('//', o, s)
    def __mod__(s, o): return binop('%', s, o)
    def __rmod__(s, o): return binop('%', o, s)
    def __pow__(s, o): return binop('**', s, o)
    def __rpow__(s, o): return binop('**', o, s)
    def __and__(s, o): return binop('&', s, o)
    def __rand__(s, o): return binop('&', o, s)
    def __or__(s, o): return binop('|', s, o)
    def __ror__(s, o): return binop('|', o, s)
    def __xor__(s, o): return binop('^', s, o)
    def __lt__(s, o): return binop('<', s, o)
    def __le__(s, o): return binop('<=', s, o)
    def __gt__(s, o): return binop('>', s, o)
    def __ge__(s, o): return binop('>=', s, o)
    def __eq__(s, o): return binop('==', s, o)
    def __ne__(s, o): return binop('!=', s, o)
    def __neg__(s): return unop(lambda x: -x, s)
    def __pos__(s): return s.copy()
    def __abs__(s): return unop(abs, s)
    def __invert__(s): return unop(lambda x: ~x, s)
    def __matmul__(s, o):
        from . import npm
        return npm.matmul(s, o)
    def __rmatmul__(s, o):
        from . import npm
        return npm.matmul(o, s)

    def _inplace(self, op, o):
        if self.k == 'i' and op == '/':
            raise TypeError('in-place true division of an integer array')
        r = binop(op, self, o)
        if self.k == 'i' and isinstance(r, SArr) and r.k == 'r':
            raise TypeError('cannot cast in-place result from float to int')
        self[...] = r
        return self
    def __iadd__(s, o): return s._inplace('+', o)
    def __isub__(s, o): return s._inplace('-', o)
    def __imul__(s, o): return s._inplace('*', o)
    def __itruediv__(s, o): return s._inplace('/', o)
    def __ifloordiv__(s, o): return s._inplace('//', o)
    def __imod__(s, o): return s._inplace('%', o)
    def __ipow__(s, o): return s._inplace('**', o)
    def __iand__(s, o): return s._inplace('&', o)
    def __ior__(s, o): return s._inplace('|', o)

    # ---- reductions
    def sum(self, axis=None, keepdims=False, dtype=None, **kw):
        from . import npm
        return npm.sum(self, axis, keepdims=keepdims)
    def mean(self, axis=None, keepdims=False, **kw):
        from . import npm
        return npm.mean(self, axis, keepdims=keepdims)
    def std(self, axis=None, keepdims=False, ddof=0, **kw):
        from . import npm
        return npm.std(self, axis, keepdims=keepdims, ddof=ddof)
    def var(self, axis=None, **kw):
        from . import npm
        return npm.var(self, axis, **kw)
    def all(self, axis=None, **kw):
        from . import npm
        return npm.all_(self, axis)
    def any(self, axis=None, **kw):
        from . import npm
        return npm.any_(self, axis)
    def min(self, axis=None, **kw):
        from . import npm
        return npm.min_(self, axis, **kw)
    def max(self, axis=None, **kw):
        from . import npm
        return npm.max_(self, axis, **kw)
    def prod(self, axis=None, **kw):
        from . import npm
        return npm.prod(self, axis)
    def cumsum(self, axis=None, **kw):
        from . import npm
        return npm.cumsum(self, axis)
    def argsort(self, axis=-1, **kw):
        from . import npm
        return npm.argsort(self, axis)
    def sort(self, axis=-1, **kw):
        from . import npm
        self[...] = npm.sort(self, axis)
    def nonzero(self):
        from . import npm
        return npm.nonzero(self)
    def clip(self, *a, **k):
        from . import npm
        if 'min' in k or 'max' in k:
            return npm.clip(self, k.get('min'), k.get('max'), out=k.get('out'))
        lo = a[0] if a else None
        hi = a[1] if len(a) > 1 else None
        return npm.clip(self, lo, hi, **k)
    def searchsorted(self, v, side='left', sorter=None):
        from . import npm
        if sorter is not None: raise Unsupported('searchsorted with a sorter')
        return npm.searchsorted(self, v, side)
    def dot(self, o):
        from . import npm
        return npm.dot(self, o)
    def repeat(self, *a, **k):
        from . import npm
        return npm.repeat(self, *a, **k)
    def take(self, ids, axis=None):
        from . import npm
        return npm.take(self, ids, axis)
    @property
    def real(self): return self


def new_arr(shape, dt, base):
    dt = as_dt(dt)
    return SArr(Buf(tuple(dim(d) for d in shape), dt, base))


def from_list(vals, dt=None):
    """nested concrete python lists of scalars -> SArr"""
    shape = []
    v = vals
    while isinstance(v, (list, tuple)):
        shape.append(len(v))
        if not v: break
        v = v[0]

    def conv1(v):
        if isinstance(v, (list, tuple)):
            return tuple(conv1(x) for x in v)
        return lift(v)
    flat = conv1(vals)

    def kinds(v):
        if isinstance(v, tuple):
            s = set()
            for x in v: s |= kinds(x)
            return s
        return {'i' if v.sort() == I else 'r' if v.sort() == R else 'b'}
    ks = kinds(flat) if shape and 0 not in shape or not shape else set()
    if dt is None:
        dt = DT('f8' if 'r' in ks or not ks else 'i8' if 'i' in ks else 'b1')
    dt = as_dt(dt)

    def cv(v):
        if isinstance(v, tuple): return tuple(cv(x) for x in v)
        return conv(v, dt.k)
    flat = cv(flat)
    return new_arr(shape, dt, lambda idx: const_read(flat, idx))


def asarr(x, dt=None):
    if isinstance(x, SArr):
        return x if dt is None or as_dt(dt) == x.dt else x.astype(dt)
    from . import npm
    return npm.array(x, dtype=dt)


def sym_array(name, shape, dt='f8', params=()):
    """symbolic input array: an uninterpreted function of its indices"""
    dt = as_dt(dt)
    name = CTX.fresh_name(name)
    nd = len(shape)
    if nd == 0:
        c = z3.Const(name, SORT[dt.k])
        a = new_arr((), dt, lambda idx: c)
        a.buf.name = name
        return a
    f = z3.Function(name, *([p.sort() for p in params] + [I] * nd), SORT[dt.k])
    a = new_arr(shape, dt, lambda idx: f(*params, *idx))
    a.buf.name = name
    a.buf.uf = f
    return a


# ------------------------------------------------------------------ elementwise
DTRANK = ['b1', 'i4', 'i8', 'f4', 'f8', 'c16']


def result_dt(op, a, b):
    if op in CMP:
        return DT('b1')
    def nm(x):
        if isinstance(x, SArr): return x.dt.name
        if isinstance(x, S): return {'i': 'i8', 'r': 'f8', 'b': 'b1'}[x.k]
        if isinstance(x, bool): return 'b1'
        if isinstance(x, int): return 'i8'
        return 'f8'
    na, nb = nm(a), nm(b)
    for arr_, sc in ((na, b), (nb, a)):
        if arr_ in ('f4', 'c16') and isinstance(sc, (int, float, bool)) :
            return DT(arr_)
    r = na if DTRANK.index(na) >= DTRANK.index(nb) else nb
    if op == '/' and r in ('b1', 'i4', 'i8'):
        r = 'f8'
    if op in '+-*' and r == 'b1' and op != '*':
        r = 'b1'
    return DT(r)


def broadcast_shapes(shapes):
    nd = max((len(s) for s in shapes), default=0)
    out = []
    for ax in range(nd):
        cur = 1
        for s in shapes:
            k = ax - (nd - len(s))
            if k < 0: continue
            d = s[k]
            if isinstance(d, int) and d == 1: continue
            if isinstance(cur, int) and cur == 1:
                cur = d; continue
            sd = same_dim(cur, d)
            if sd is True: continue
            if sd is False:
                raise ValueError('operands could not be broadcast together')
            if not CTX.branch(dz(cur) == dz(d)):
                if isinstance(cur, int) or isinstance(d, int) or True:
                    # symbolic sizes that differ: an error unless one is 1
                    if CTX.branch(z3.And(dz(cur) != 1, dz(d) != 1)):
                        raise ValueError('operands could not be broadcast together')
                    raise Unsupported('broadcast of a symbolic dimension that may be one')
        out.append(cur)
    return tuple(out)


def bcast_reader(x, shape):
    """closure reading x broadcast to shape"""
    if not isinstance(x, SArr):
        e = lift(x)
        return lambda idx: e
    f = x.snap()
    off = len(shape) - x.ndim
    ones = [isinstance(d, int) and d == 1 and not (isinstance(shape[off + i], int) and shape[off + i] == 1)
            for i, d in enumerate(x._shape)]
    Z = z3.IntVal(0)

    def g(idx):
        return f(tuple(Z if ones[i] else idx[off + i] for i in range(x.ndim)))
    return g


def elementwise(fn, args, dt):
    """fn: S... -> S"""
    arrs = [a for a in args if isinstance(a, SArr)]
    shape = broadcast_shapes([a._shape for a in arrs])
    rd = [bcast_reader(a, shape) for a in args]
    dt = as_dt(dt)
    memo = {}

    def base(idx):
        key = tuple(i.get_id() for i in idx)
        r = memo.get(key)
        if r is None:
            r = conv(lift(fn(*[S(r(idx)) for r in rd])), dt.k)
            memo[key] = r
            memo.setdefault('keep', []).append(idx)
        return r
    if not shape:
        return S(base(()))
    r = new_arr(shape, dt, base)
    big = [a for a in arrs if a.ndim]
    sel = [selection_of(a) for a in big]
    if sel and all(c is not None for c in sel) and all(c[3] == sel[0][3] and same_mask(c[1], sel[0][1], sel[0][3]) for c in sel[1:]) \
            and all(a.ndim == big[0].ndim and all(same_dim(p, q) is True for p, q in zip(a._shape[1:], big[0]._shape[1:])) for a in big):
        src = {id(a): c[0] for a, c in zip(big, sel)}
        rest = {id(a): (lambda idx, a=a: lift(a)) for a in args if not isinstance(a, SArr)}
        rest.update({id(a): (lambda idx, v=a.at(): v) for a in arrs if not a.ndim})
        fs = [src.get(id(a)) or rest[id(a)] for a in args]
        k = dt.k
        mark_selection(r, lambda idx: conv(lift(fn(*[S(g(idx)) for g in fs])), k), sel[0][1], sel[0][3])
    return r


def same_mask(m1, m2f, nd):
    j = [z3.Int(f'%m{k}') for k in range(nd)]
    return z3.simplify(m1(tuple(j))).eq(z3.simplify(m2f(tuple(j))))


def mark_selection(r, src, mf, nd):
    """r is the selection by the mask mf of the array read by src -- as long as nobody writes to r"""
    r.compress_of = (src, mf, (r.buf, r.buf.layers, r.buf.base), nd)


def selection_of(a):
    c = getattr(a, 'compress_of', None)
    if c is None: return None
    buf, layers, base = c[2]
    return c if a.buf is buf and buf.layers is layers and buf.base is base else None


def coerce(x):
    if isinstance(x, (list, tuple)):
        return asarr(x)
    return x


def binop(op, a, b):
    a, b = coerce(a), coerce(b)
    for x in (a, b):
        if x is None or not (isinstance(x, (SArr, S, bool, int, float)) or hasattr(x, '__pv_scalar__')):
            if op == '==': return False
            if op == '!=': return True
            return NotImplemented
    if any(isinstance(x, float) and (x != x) for x in (a, b)):
        raise Unsupported('nan arithmetic')
    inf = [x for x in (a, b) if isinstance(x, float) and x in (float('inf'), float('-inf'))]
    if inf:
        arrx = a if isinstance(a, SArr) else b
        t = C.arith(op, a if not isinstance(a, SArr) else S(z3.RealVal(0)), b if not isinstance(b, SArr) else S(z3.RealVal(0)))
        return elementwise(lambda x: t, [arrx], DT('b1'))
    dt = result_dt(op, a, b)
    r = elementwise(lambda x, y: C.arith(op, x, y), [a, b], dt)
    return r


def unop(f, a, dt=None):
    if isinstance(a, SArr):
        return elementwise(f, [a], a.dt if dt is None else dt)
    return f(a)


# ------------------------------------------------------------------ reshape
def fresh_like(v):
    """array of arbitrary contents, shape and type of v"""
    if v.k == 'b': raise Unsupported('loop-carried boolean array')
    srt = R if v.k == 'r' else I
    fn = z3.Function(CTX.fresh_name('$h'), *[I] * v.ndim, srt)
    a = new_arr(v._shape, v.dt, lambda idx: fn(*idx))
    a.fresh_fn, a.sort, a.fresh_ix = fn, srt, [CTX.index_var('e') for _ in v._shape]
    return a


def reshape(a, shape):
    shape = [dim(d) if not (isinstance(d, int)) else d for d in shape]
    if -1 in [d for d in shape if isinstance(d, int)]:
        k = [i for i, d in enumerate(shape) if isinstance(d, int) and d == -1][0]
        if len(shape) == 1:
            shape[0] = dim(a.size)
        else:
            rest = 1
            for i, d in enumerate(shape):
                if i != k: rest = rest * d if isinstance(rest, int) and isinstance(d, int) else z3.simplify(dz(rest) * dz(d))
            tot = dim(a.size)
            if isinstance(tot, int) and isinstance(rest, int):
                shape[k] = tot // rest
            else:
                cand = [d for d in a._shape]
                for d in cand:
                    if same_dim(dim(S(dz(d)) * S(dz(rest))), tot):
                        shape[k] = d; break
                else:
                    raise Unsupported('reshape -1 with symbolic sizes')
    tot, nt = dim(a.size), 1
    for d in shape:
        nt = nt * d if isinstance(nt, int) and isinstance(d, int) else z3.simplify(dz(nt) * dz(d))
    sd = same_dim(tot, nt)
    if sd is False or sd is None and not CTX.branch(dz(tot) == dz(nt)):
        raise ValueError('cannot reshape array')
    # insertion/removal of unit axes: keep views
    na = [(i, d) for i, d in enumerate(a._shape) if not (isinstance(d, int) and d == 1)]
    nb = [(i, d) for i, d in enumerate(shape) if not (isinstance(d, int) and d == 1)]
    if len(na) == len(nb) and all(same_dim(x[1], y[1]) for x, y in zip(na, nb)):
        m = {x[0]: y[0] for x, y in zip(na, nb)}
        vm = []
        for v in a.vmap:
            if v[0] == 'fix': vm.append(v)
            elif v[1] in m: vm.append(('ax', m[v[1]], v[2], v[3]))
            else: vm.append(('fix', v[2]))
        return SArr(a.buf, tuple(shape), vm)
    f = a.snap()
    sa = a._shape

    def strides(sh):
        out, acc = [], z3.IntVal(1)
        for d in reversed(sh):
            out.append(acc); acc = z3.simplify(acc * dz(d))
        return out[::-1]
    sb, ss = strides(shape), strides(sa)

    def base(idx):
        flat = z3.IntVal(0)
        for i, s in zip(idx, sb): flat = flat + i * s
        flat = z3.simplify(flat)
        if len(shape) == 1 and len(sa) > 1:
            r = unflatten_hint(flat, sa)
            if r is not None: return f(r)
        out = []
        rem = flat
        for k, d in enumerate(sa):
            if k == len(sa) - 1:
                out.append(rem)
            else:
                q, rem = C.idiv(rem, ss[k]), C.imod(rem, ss[k])
                out.append(q); rem = z3.simplify(rem)
        return f(tuple(z3.simplify(o) for o in out))
    r = new_arr(shape, a.dt, base)
    r.buf.alias = a.buf.alias or a.buf
    r.buf.alias.reshaped = True
    r.buf.maybe = not (a.vmap == tuple(('ax', k, v[2], 1) for k, v in enumerate(a.vmap)) and len(a.vmap) == len(sa) and a.buf.shape == a._shape)
    return r


def unflatten_hint(flat, sa):
    """flat index of a generic element registered with CTX.flat_hints"""
    for e, idx in CTX.flat_hints:
        if e.get_id() == flat.get_id():
            return idx
    return None


# ------------------------------------------------------------------ indexing
def norm_index(e, d, what='index'):
    """normalise a scalar index e (int|S|z3) for dimension d with bounds obligation"""
    if isinstance(e, SArr):
        e = e.__pv_scalar__()
    if isinstance(e, S):
        if e.k == 'b':
            raise Unsupported('boolean scalar index')
        if e.k == 'r':
            raise IndexError('float index')
    if isinstance(e, float):
        raise IndexError('float index')
    v = ival(e) if not isinstance(e, int) else e
    if v is not None and isinstance(d, int):
        if not -d <= v < d:
            raise IndexError(f'index {v} is out of bounds for size {d}')
        return z3.IntVal(v + d if v < 0 else v)
    if v is not None:
        if v >= 0:
            CTX.side('index-in-bounds', z3.IntVal(v) < dz(d))
            return z3.IntVal(v)
        CTX.side('index-in-bounds', dz(d) >= -v)
        return z3.simplify(dz(d) + v)
    z = lift(e)
    if CTX.known(z >= 0):
        CTX.side('index-in-bounds', z < dz(d))
        return z3.simplify(z)
    CTX.side('index-in-bounds', z3.And(z >= -dz(d), z < dz(d)))
    if CTX.known(z < 0):
        return z3.simplify(z + dz(d))
    return z3.simplify(z3.If(z < 0, z + dz(d), z))


def clamp_slice(sl, d):
    """-> (start expr, step int, count dim)"""
    st, sp, step = sl.start, sl.stop, sl.step
    step = 1 if step is None else ival(step)
    if step is None or step == 0:
        raise Unsupported('symbolic slice step')

    def cl(x, lo, hi):
        v = ival(x) if x is not None else None
        if v is not None and isinstance(d, int):
            if v < 0: v += d
            return min(max(v, lo), hi)
        e = lift(x) if not isinstance(x, int) else z3.IntVal(x)
        D = dz(d)
        if v is not None:
            if v == 0: return 0
            e = z3.IntVal(v) if v >= 0 else D + v
        else:
            if not CTX.known(e >= 0):
                if CTX.known(e < 0):
                    e = e + D
                else:
                    e = z3.If(e < 0, e + D, e)
        if not CTX.known(e >= lo): e = z3.If(e < lo, z3.IntVal(lo), e)
        hiz = dz(hi)
        if not CTX.known(e <= hiz): e = z3.If(e > hiz, hiz, e)
        return z3.simplify(e)
    if step > 0:
        a = 0 if st is None else cl(st, 0, d)
        b = d if sp is None else cl(sp, 0, d)
        if isinstance(a, int) and isinstance(b, int):
            n = max(0, (b - a + step - 1) // step)
        else:
            diff = z3.simplify(dz(b) - dz(a))
            v = ival(diff)
            if v is not None:
                n = max(0, (v + step - 1) // step)
            else:
                if not CTX.known(diff >= 0):
                    diff = z3.If(diff >= 0, diff, z3.IntVal(0))
                n = z3.simplify(diff if step == 1 else (diff + step - 1) / step)
        return dz(a), step, dim(n) if not isinstance(n, int) else n
    if step == -1 and st is None and sp is None:
        return z3.simplify(dz(d) - 1), -1, d
    if isinstance(d, int):
        s, e, t = slice(None if st is None else ival(st), None if sp is None else ival(sp), step).indices(d)
        n = len(range(s, e, t))
        return z3.IntVal(s), t, n
    raise Unsupported('negative-step slice with symbolic bounds')


def expand_key(a, key):
    if not isinstance(key, tuple):
        key = (key,)
    key = list(key)
    n_used = 0
    for k in key:
        if k is None or k is Ellipsis: continue
        if isinstance(k, SArr) and k.k == 'b':
            n_used += k.ndim
        else:
            n_used += 1
    if not any(k is Ellipsis for k in key):
        key.append(Ellipsis)
    if n_used > a.ndim:
        raise IndexError('too many indices for array')
    out = []
    for k in key:
        if k is Ellipsis:
            out += [slice(None)] * (a.ndim - n_used)
        else:
            out.append(k)
    return out


def is_fancy(k):
    return isinstance(k, (SArr, list)) or hasattr(k, '__pv_seq__')


class Sel:
    """resolved selection on an array: a view (basic) or gather"""


def resolve(a, key):
    """-> ('view', SArr) | ('mask', maskSArr, axis0, rest) | ('fancy', ...)"""
    def scalar_mask(k):
        if isinstance(k, bool): k = S(z3.BoolVal(k))
        return new_arr((), 'b1', lambda idx, e=k.e: e) if isinstance(k, S) and z3.is_bool(k.e) else k
    key = tuple(scalar_mask(k) for k in key) if isinstance(key, tuple) else scalar_mask(key)
    key = expand_key(a, key)
    key = [asarr(list(k)) if isinstance(k, (list, range)) else (k.asarray() if hasattr(k, '__pv_seq__') else k) for k in key]
    key = [k.__pv_scalar__() if isinstance(k, SArr) and k.ndim == 0 and k.k == 'i' else k for k in key]
    if not any(isinstance(k, SArr) for k in key):
        return ('view', basic_view(a, key))
    masks = [k for k in key if isinstance(k, SArr) and k.k == 'b']
    if masks:
        if len(masks) == 1 and all(isinstance(k, SArr) or k == slice(None) for k in key) and \
                not any(isinstance(k, SArr) and k.k != 'b' for k in key):
            ax = 0
            for k in key:
                if isinstance(k, SArr): break
                ax += 1
            return ('mask', masks[0], ax)
        if len(masks) == 1 and not any(isinstance(k, SArr) and k.k != 'b' for k in key):
            # mask together with basic indices: apply the basic part first where possible
            mk = masks[0]
            pos = [i for i, k in enumerate(key) if isinstance(k, SArr)][0]
            basic, newax, ax = [], None, 0
            for i, k in enumerate(key):
                if i == pos:
                    newax = ax
                    basic += [slice(None)] * mk.ndim
                    ax += mk.ndim
                else:
                    basic.append(k)
                    if isinstance(k, slice) or k is None: ax += 1
            v = basic_view(a, basic)
            return ('mask_view', v, mk, newax)
        raise Unsupported('mixed boolean and integer array indexing')
    return ('fancy', key)


def basic_view(a, key):
    shape, axmap = [], {}     # axmap: old view axis -> ('fix', e) | (new axis, start, step)
    ax = 0
    for k in key:
        if k is None:
            shape.append(1)
            continue
        if isinstance(k, slice):
            st, step, n = clamp_slice(k, a._shape[ax])
            axmap[ax] = (len(shape), st, step)
            shape.append(n)
        else:
            axmap[ax] = ('fix', norm_index(k, a._shape[ax]))
        ax += 1
    vm = []
    for m in a.vmap:
        if m[0] == 'fix':
            vm.append(m); continue
        t = axmap[m[1]]
        if t[0] == 'fix':
            vm.append(('fix', z3.simplify(m[2] + t[1] * m[3])))
        else:
            vm.append(('ax', t[0], z3.simplify(m[2] + t[1] * m[3]), m[3] * t[2]))
    return SArr(a.buf, tuple(shape), vm)


def getitem(a, key):
    r = resolve(a, key)
    if r[0] == 'view':
        v = r[1]
        if v.ndim == 0 and not (isinstance(key, tuple) and any(k is Ellipsis for k in key)) and key is not Ellipsis:
            return elem(v)
        return v
    if r[0] == 'mask':
        from . import npm
        return npm.compress(a, r[1], r[2])
    if r[0] == 'mask_view':
        from . import npm
        return npm.compress(r[1], r[2], r[3])
    return fancy_get(a, r[1])


def elem(v):
    if v.k == 'o':
        raise Unsupported('object element')
    return S(v.at(), v.k)


def idx_value(e, d):
    """index expr read from an index array"""
    if CTX.known(e >= 0):
        return e
    return z3.If(e < 0, e + dz(d), e)


def fancy_get(a, key):
    """integer-array indexing (gather)"""
    arrs = [k for k in key if isinstance(k, SArr)]
    ints = [k for k in key if not isinstance(k, (SArr, slice)) and k is not None]
    if any(k is None for k in key):
        raise Unsupported('newaxis with array indexing')
    pos = [i for i, k in enumerate(key) if not isinstance(k, slice)]
    contiguous = pos == list(range(pos[0], pos[0] + len(pos)))
    bs = broadcast_shapes([k._shape for k in arrs])
    rds = {i: (bcast_reader(k, bs) if isinstance(k, SArr) else None) for i, k in enumerate(key) if not isinstance(k, slice)}
    shape, src = [], {}
    first = pos[0] if contiguous else 0
    cur = []
    sl = {}
    for i, k in enumerate(key):
        if contiguous and i == first or (not contiguous and i == 0):
            pass
    out_shape = []
    place = None
    if not contiguous:
        out_shape += list(bs); place = 0
    for i, k in enumerate(key):
        if isinstance(k, slice):
            st, step, n = clamp_slice(k, a._shape[i])
            sl[i] = (len(out_shape), st, step)
            out_shape.append(n)
        elif place is None:
            place = len(out_shape)
            out_shape += list(bs)
    # bounds obligations for a generic element
    js = [CTX.index_var('g') for _ in bs]
    n = CTX.push()
    for j, d in zip(js, bs):
        CTX.assume(z3.And(j >= 0, j < dz(d)))
    for i in pos:
        k = key[i]
        if isinstance(k, SArr):
            e = rds[i](tuple(js))
            CTX.side('index-in-bounds', z3.And(e >= -dz(a._shape[i]), e < dz(a._shape[i])))
        else:
            norm_index(k, a._shape[i])
    nonneg = {i: CTX.known(rds[i](tuple(js)) >= 0) for i in pos if isinstance(key[i], SArr)}
    CTX.pop(n)
    f = a.snap()
    fixed = {i: norm_index(key[i], a._shape[i]) for i in pos if not isinstance(key[i], SArr)}
    shp = a._shape

    def base(idx):
        b = tuple(idx[place:place + len(bs)])
        out = []
        for i in range(len(key)):
            if i in sl:
                k, st, step = sl[i]
                out.append(z3.simplify(st + idx[k] * step))
            elif i in fixed:
                out.append(fixed[i])
            else:
                e = rds[i](b)
                out.append(z3.simplify(e if nonneg[i] else z3.If(e < 0, e + dz(shp[i]), e)))
        return f(tuple(out))
    if not out_shape:
        return S(base(()))
    return new_arr(out_shape, a.dt, base)


def check_assignable(shape, vshape):
    """value shape broadcasts to the target shape"""
    vs = list(vshape)
    while len(vs) > len(shape) and isinstance(vs[0], int) and vs[0] == 1:
        vs.pop(0)
    if len(vs) > len(shape):
        raise ValueError('could not broadcast input array')
    off = len(shape) - len(vs)
    for i, d in enumerate(vs):
        if isinstance(d, int) and d == 1: continue
        sd = same_dim(shape[off + i], d)
        if sd is True: continue
        if sd is False:
            raise ValueError('could not broadcast input array')
        if not CTX.branch(dz(shape[off + i]) == dz(d)):
            if CTX.branch(dz(d) != 1):
                raise ValueError('could not broadcast input array')
            raise Unsupported('assignment broadcast of symbolic dimension')


def value_reader(val, shape, k):
    val = coerce(val)
    if isinstance(val, SArr):
        check_assignable(shape, val._shape)
        vs = val
        while vs.ndim > len(shape):
            vs = vs[0]
        g = bcast_reader(vs, shape)
        return lambda idx: conv(g(idx), k)
    e = conv(lift(val), k)
    return lambda idx: e


def setitem(a, key, val, acc=None):
    if a.buf.readonly:
        raise ValueError('assignment destination is read-only')
    r = resolve(a, key)
    k = a.k
    if isinstance(val, SArr) and val.dt.name == 'O':
        raise Unsupported('object values')
    if r[0] == 'view':
        write_view(r[1], val, acc)
        return
    if r[0] in ('mask', 'mask_view'):
        if r[0] == 'mask':
            v, m, ax = a, r[1], r[2]
        else:
            v, m, ax = r[1], r[2], r[3]
        write_mask(v, m, ax, val, acc)
        return
    # fancy store: unique point indices only when every index array is effectively scalar
    fancy_set(a, r[1], val, acc)


def write_view(v, val, acc):
    rd = value_reader(val, v._shape, v.k)
    sels = []
    for m in v.vmap:
        if m[0] == 'fix':
            sels.append(('pt', m[1]))
        else:
            sels.append(('rng', m[1], m[2], m[3], v._shape[m[1]]))
    missing = {}
    used = {m[1] for m in v.vmap if m[0] == 'ax'}
    nd = v.ndim
    bshape = v.buf.shape

    def split(idx):
        """buffer idx -> (hit, value idx)"""
        cond = []
        vi = [z3.IntVal(0)] * nd
        for ax, (s, i) in enumerate(zip(sels, idx)):
            if s[0] == 'pt':
                cond.append(i == s[1])
            else:
                _, kx, st, step, n = s
                if step == 1:
                    t = z3.simplify(i - st)
                    whole = ival(st) == 0 and same_dim(n, bshape[ax])
                    if not whole:
                        cond.append(z3.And(t >= 0, t < dz(n)))
                elif step == -1:
                    t = z3.simplify(st - i)
                    cond.append(z3.And(t >= 0, t < dz(n)))
                else:
                    t = z3.simplify((i - st) / z3.IntVal(step))
                    cond.append(z3.And((i - st) % z3.IntVal(abs(step)) == 0, t >= 0, t < dz(n)))
                vi[kx] = t
        return z3.And(*cond) if cond else z3.BoolVal(True), tuple(vi)
    v.buf.push(Layer(lambda idx: split(idx)[0], lambda idx: rd(split(idx)[1]), acc, sels))


def write_mask(v, m, ax, val, acc):
    """v[mask] = val (mask over axes ax..ax+m.ndim of v)"""
    for i in range(m.ndim):
        sd = same_dim(m._shape[i], v._shape[ax + i])
        if sd is True: continue
        if sd is False or not CTX.branch(dz(m._shape[i]) == dz(v._shape[ax + i])):
            raise IndexError('boolean index did not match indexed array')
    mf = m.snap()
    from . import npm
    val = coerce(val)
    if isinstance(val, SArr) and val.ndim > 0:
        # value given per selected element: only when it is a compress by the same mask
        cr = selection_of(val)
        if cr is not None and cr[3] == m.ndim and same_mask(cr[1], mf, m.ndim):
            src = cr[0]      # closure over full index
            rd_full = lambda idx: conv(src(idx), v.k)
        elif isinstance(val._shape[0], int) and val._shape[0] == 1 and val.ndim == 1:
            e = val.at(0)
            rd_full = lambda idx: conv(e, v.k)
        elif val.ndim < 1 + (v.ndim - m.ndim) and ax == 0 and m.ndim < v.ndim:
            g = value_reader(val, v._shape[m.ndim:], v.k)
            rd_full = lambda idx: g(idx[m.ndim:])
        elif m.ndim == 1 and val.ndim == v.ndim and ax == 0:
            # the k-th value goes to the k-th selected position
            rec, pv, _ = npm.compress_family(m)
            cnt = z3.simplify(rec.cnt(pv))
            if not all(same_dim(p, q) is True for p, q in zip(val._shape[1:], v._shape[1:])):
                raise Unsupported('broadcasting in a boolean-mask assignment')
            if not CTX.branch(dz(val._shape[0]) == cnt):
                if not CTX.branch(dz(val._shape[0]) == 1):
                    raise ValueError('cannot assign the input values to the output values where the mask is true')
                raise Unsupported('broadcasting in a boolean-mask assignment')
            g = val.snap()
            rd_full = lambda idx: conv(g((rec.rho(*pv, idx[0]),) + tuple(idx[1:])), v.k)
        else:
            raise Unsupported('boolean-mask assignment of an array value')
    else:
        e = conv(lift(val), v.k)
        rd_full = lambda idx: e
    inv = view_inverse(v)

    def hit(idx):
        h, vi = inv(idx)
        return z3.And(h, mf(tuple(vi[ax:ax + m.ndim])))
    v.buf.push(Layer(hit, lambda idx: rd_full(inv(idx)[1]), acc, None))


def view_inverse(v):
    nd = v.ndim

    def split(idx):
        cond = []
        vi = [z3.IntVal(0)] * nd
        for bax, (mm, i) in enumerate(zip(v.vmap, idx)):
            if mm[0] == 'fix':
                cond.append(i == mm[1])
            else:
                _, kx, st, step = mm
                n = v._shape[kx]
                if step == 1:
                    t = z3.simplify(i - st)
                    if not (ival(st) == 0 and same_dim(n, v.buf.shape[bax])):
                        cond.append(z3.And(t >= 0, t < dz(n)))
                elif step == -1:
                    t = z3.simplify(st - i)
                else:
                    t = z3.simplify((i - st) / z3.IntVal(step))
                    cond.append(z3.And((i - st) % z3.IntVal(abs(step)) == 0, t >= 0, t < dz(n)))
                vi[kx] = t
        return z3.And(*cond) if cond else z3.BoolVal(True), tuple(vi)
    return split


def fancy_set(a, key, val, acc):
    arrs = [k for k in key if isinstance(k, SArr)]
    bs = broadcast_shapes([k._shape for k in arrs])
    if all(isinstance(d, int) for d in bs) and len(bs) == 1 and bs[0] <= MAXEXPAND and acc is None:
        for t in range(bs[0]):
            kk = tuple((k[t] if k._shape[0] != 1 else k[0]) if isinstance(k, SArr) else k for k in key)
            v = val
            if isinstance(val, SArr) and val.ndim >= 1 and same_dim(val._shape[0], bs[0]):
                v = val[t]
            setitem(a, kk, v)
        return
    # a[perm] = val where perm is a known bijection
    if len(arrs) == 1 and len(bs) == 1 and isinstance(key[0], SArr) and acc is None:
        inv = getattr(arrs[0], 'inverse', None)
        if inv is not None and all(k == slice(None) for k in key[1:]):
            rd = value_reader(val, tuple(bs) + a._shape[1:], a.k)
            vin = view_inverse(a)

            def hit(idx):
                return vin(idx)[0]

            def vv(idx):
                vi = vin(idx)[1]
                return rd((inv(vi[0]),) + tuple(vi[1:]))
            a.buf.push(Layer(hit, vv, None, None))
            return
    # a[ix] = one value, ix any 1-d index array: hit where some entry of ix names the position
    if len(arrs) == 1 and len(bs) == 1 and isinstance(key[0], SArr) and acc is None and all(
            isinstance(k, slice) and k == slice(None) for k in key[1:]) and not (isinstance(val, SArr) and val.ndim > 0):
        ix = key[0]
        f, n, D = ix.snap(), ix._shape[0], a._shape[0]
        q = CTX.index_var('i')
        m = CTX.push()
        CTX.assume(z3.And(q >= 0, q < dz(n)), True)
        CTX.side('index-in-bounds', z3.And(f((q,)) >= -dz(D), f((q,)) < dz(D)))
        neg = not CTX.known(f((q,)) >= 0)
        CTX.pop(m)
        e = conv(lift(val.__pv_scalar__() if isinstance(val, SArr) else val), a.k)
        vin = view_inverse(a)
        at_ = lambda k: z3.If(f((k,)) < 0, f((k,)) + dz(D), f((k,))) if neg else f((k,))

        def hit(idx):
            h, vi = vin(idx)
            return z3.And(h, mk_sum(lambda k: z3.If(at_(k) == vi[0], z3.IntVal(1), z3.IntVal(0)), n, I) > 0)
        a.buf.push(Layer(hit, lambda idx: e, None, None))
        return
    raise Unsupported('assignment through an integer index array')


# ------------------------------------------------------------------ sums
class SumTemplate:
    """Sum!k(params..., hi) = sum_{j<hi} body(params, j)"""

    def __init__(self, decl, pvars, jvar, body):
        self.decl, self.pvars, self.j, self.body, self.fns = decl, pvars, jvar, body, []

    def inst(self, args, j):
        return z3.substitute(self.body, *[(p, a) for p, a in zip(self.pvars, args)], (self.j, j))

    def axioms(self, t):
        hi = t.arg(t.num_args() - 1)
        out = [z3.Implies(hi <= 0, t == 0)]
        for f in self.fns: out += f(t)
        return out


def abstract_params(body, exclude=()):
    """generic index variables of body, in order of occurrence"""
    ex = {e.get_id() for e in exclude}
    out, seen = [], set()
    st = [body]
    while st:
        t = st.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if t.get_id() in CTX.idx_vars and t.get_id() not in ex:
            out.append(t)
        elif z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith('%') \
                and t.get_id() not in ex:
            out.append(t)
        st.extend(reversed(t.children()))
    return out


_jcount = itertools.count()


def jvar(depth_hint=None):
    c = z3.Int(f'%j{next(_jcount)}')
    return c


def canon_key(body, pv, j):
    pairs = [(p, z3.Const(f'%P{n}', p.sort())) for n, p in enumerate(pv)] + [(j, z3.Int('%J'))]
    b = canon(z3.substitute(body, *pairs))
    return b.sexpr(), b


def sum_app(body, j, hi):
    """irreducible sum of body over j in [0,hi)"""
    body = canon(z3.simplify(body))
    pv = abstract_params(body, [j])
    key, cbody = canon_key(body, pv, j)
    key = (key, str(body.sort()))
    tm = CTX.sum_templates.get(key)
    if tm is None:
        name = f'Sum!{len(CTX.sum_templates)}'
        decl = z3.Function(name, *[p.sort() for p in pv], I, body.sort())
        cp = [z3.Const(f'%P{n}', p.sort()) for n, p in enumerate(pv)]
        tm = SumTemplate(decl, cp, z3.Int('%J'), cbody)
        CTX.sum_templates[key] = tm
        C.TEMPL[name] = tm
    return tm.decl(*pv, hi)


def terms_of(e):
    """additive terms with sign/coeff: list of (coeff expr list, ...)"""
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_ADD:
            for c in e.children(): yield from terms_of(c)
            return
        if k == z3.Z3_OP_SUB:
            ch = e.children()
            yield from terms_of(ch[0])
            for c in ch[1:]:
                for t in terms_of(c): yield (-1, t) if not isinstance(t, tuple) else (-t[0], t[1])
            return
        if k == z3.Z3_OP_UMINUS:
            for t in terms_of(e.arg(0)): yield (-1, t) if not isinstance(t, tuple) else (-t[0], t[1])
            return
    yield e


def factors_of(e):
    if z3.is_app(e):
        k = e.decl().kind()
        if k == z3.Z3_OP_MUL:
            for c in e.children(): yield from factors_of(c)
            return
        if k == z3.Z3_OP_DIV:
            yield from factors_of(e.arg(0))
            yield z3.RealVal(1) / e.arg(1)
            return
        if k == z3.Z3_OP_UMINUS:
            yield (z3.RealVal(-1) if e.sort() == R else z3.IntVal(-1))
            yield from factors_of(e.arg(0))
            return
        if k == z3.Z3_OP_TO_REAL:
            fs = list(factors_of(e.arg(0)))
            if len(fs) > 1:
                for f in fs: yield toreal(S(f))
                return
    yield e


def is_zero(e):
    return z3.is_rational_value(e) and e.numerator_as_long() == 0 or z3.is_int_value(e) and e.as_long() == 0


def guard_of(f):
    """If(c, v, 0) -> ([c], v or None for 1)"""
    e, rl = f, False
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL: e, rl = e.arg(0), True
    if not (z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE): return [], f
    c, v, w = e.children()
    if is_zero(v): c, v, w = z3.simplify(z3.Not(c)), w, v
    if not is_zero(w) or is_zero(v): return [], f
    g, v2 = guard_of(v)
    g = list(C.split_and(c)) + g
    if v2 is None or (z3.is_rational_value(v2) or z3.is_int_value(v2)) and z3.simplify(v2 == 1).eq(z3.BoolVal(True)): return g, None
    return g, z3.ToReal(v2) if rl else v2


def guarded_terms(e):
    """(guards, sign, product) of a sum of products, If(c, u + v, 0) split into its terms"""
    for t in terms_of(e):
        sg, t = t if isinstance(t, tuple) else (1, t)
        g, v = guard_of(t)
        if g and v is not None:
            v2 = z3.simplify(v, som=True)
            parts = list(terms_of(v2))
            if len(parts) > 1 or guard_of(v2)[0]:
                for gg, s2, u in guarded_terms(v2): yield g + gg, sg * s2, u
                continue
        yield [], sg, t


def distribute(e, depth=0):
    """multiply out sums inside products (bounded)"""
    e = z3.simplify(e, som=True) if depth == 0 else e
    return e


def canon(e):
    """comparisons and connectives in one orientation, so that `a <= x` and `x >= a` give the same family"""
    memo = {}

    def go(t):
        k = t.get_id()
        if k in memo: return memo[k][1]
        if z3.is_quantifier(t) or not z3.is_app(t) or t.num_args() == 0:
            r = t
        else:
            ch = t.children()
            cs = [go(c) for c in ch]
            dk = t.decl().kind()
            if dk in (z3.Z3_OP_LE, z3.Z3_OP_GE) and not any(z3.is_int_value(c) or z3.is_rational_value(c) for c in cs) and cs[0].sexpr() > cs[1].sexpr():
                r = cs[1] >= cs[0] if dk == z3.Z3_OP_LE else cs[1] <= cs[0]
            elif dk == z3.Z3_OP_NOT and (z3.is_not(cs[0]) or z3.is_or(cs[0]) or z3.is_and(cs[0])):
                x = cs[0]
                r = x.arg(0) if z3.is_not(x) else go((z3.And if z3.is_or(x) else z3.Or)(*[z3.Not(c) for c in x.children()]))
            elif dk in (z3.Z3_OP_AND, z3.Z3_OP_OR):
                o = sorted(cs, key=lambda c: c.sexpr())
                r = t if all(x.eq(y) for x, y in zip(o, ch)) else z3.And(*o) if dk == z3.Z3_OP_AND else z3.Or(*o)
            elif all(x.eq(y) for x, y in zip(cs, ch)): r = t
            else: r = t.decl()(*cs)
        memo[k] = (t, r)
        return r
    return go(e)


def mk_sum(fn, hi, sort=R):
    """sum_{j in [0,hi)} fn(j): z3 expr"""
    hi = dim(hi)
    if isinstance(hi, int):
        if hi <= MAXEXPAND:
            out = None
            for j in range(hi):
                v = fn(z3.IntVal(j))
                out = v if out is None else out + v
            if out is None:
                return z3.RealVal(0) if sort == R else z3.IntVal(0)
            return z3.simplify(out) if hi > 4 else out
    j = jvar()
    body = fn(j)
    if z3.is_bool(body): body = num(S(body))
    return norm_sum(body, j, hi)


def zero_of(s):
    return z3.RealVal(0) if s == R else z3.IntVal(0)


def norm_sum(body, j, hi):
    hiz = dz(hi)
    body = z3.simplify(body)
    sort = body.sort()
    reg = CTX.compress_reg.get(hiz.get_id())
    if reg is not None and contains(body, [j]):
        # a sum over selected elements is the masked sum over all elements
        cnt, rec, pv, n = reg
        i = jvar()
        b2 = z3.substitute(body, (rec.sigma(*pv, j), i))
        if not contains(b2, [j]):
            return norm_sum(z3.If(tobool(S(rec.inst(pv, i))), b2, zero_of(sort)), i, dim(n))
    if not contains(body, [j]):
        n = z3.If(hiz > 0, hiz, z3.IntVal(0)) if not CTX.known(hiz >= 0) else hiz
        return z3.simplify(body * (toreal(S(n)) if sort == R else n))
    if CTX.raw_sums: return delta_sum(body, j, hiz)
    expanded = z3.simplify(body, som=True)
    out = None
    for guard, sg, t in guarded_terms(expanded):
        free, dep = [], []
        work = list(factors_of(t))
        while work:
            f = work.pop(0)
            g, f = guard_of(f)
            guard += [c for c in g if not any(c.eq(d) for d in guard)]
            if f is None: continue
            fs = list(factors_of(f)) if g else [f]
            if len(fs) > 1: work = fs + work
            else: (dep if contains(f, [j]) else free).append(f)
        if guard:
            outer = [c for c in guard if not contains(c, [j])]
            inner = sorted([c for c in guard if contains(c, [j])], key=lambda c: c.sexpr())
            free += [z3.If(c, z3.RealVal(1) if sort == R else z3.IntVal(1), zero_of(sort)) for c in outer]
            if inner:
                b = z3.RealVal(1) if sort == R else z3.IntVal(1)
                for f in dep: b = b * f
                b = z3.simplify(b)
                if sort == R and b.sort() == I: b = z3.ToReal(b)
                dep = [z3.If(z3.And(*inner) if len(inner) > 1 else inner[0], b, zero_of(sort))]
        if not dep:
            n = z3.If(hiz > 0, hiz, z3.IntVal(0)) if not CTX.known(hiz >= 0) else hiz
            s = toreal(S(n)) if sort == R else n
        else:
            b = dep[0]
            for f in dep[1:]:
                b = b * f
            s = delta_sum(z3.simplify(b), j, hiz)
        for f in free:
            if z3.is_app(f) and f.decl().kind() == z3.Z3_OP_DIV and f.arg(1).eq(s) and z3.simplify(f.arg(0) == 1).eq(z3.BoolVal(True)) \
                    and CTX.holds(s != 0, 1500):
                s = z3.RealVal(1)
            else: s = f * s
        if sg == -1: s = -s
        out = s if out is None else out + s
    return out


PERMS = {}


def delta_sum(b, j, hi):
    """recognise If(j == e [and c], v, 0) (v may also be inside a to_real)"""
    e = b
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL and z3.is_app(e.arg(0)) \
            and e.arg(0).decl().kind() == z3.Z3_OP_ITE:
        i = e.arg(0)
        e = z3.If(i.arg(0), z3.ToReal(i.arg(1)), z3.ToReal(i.arg(2)))
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c, v, w = e.children()
        for cc, vv, ww in ((c, v, w),):
            zero = ival(ww) == 0 if (z3.is_rational_value(z3.simplify(ww)) or z3.is_int_value(z3.simplify(ww))) else False
            if zero:
                conj = list(C.split_and(cc))
                for n, q in enumerate(conj):
                    if z3.is_eq(q):
                        l, r = q.arg(0), q.arg(1)
                        for x, y in ((l, r), (r, l)):
                            sol = solve_for(x, y, j)
                            if sol is not None:
                                rest = conj[:n] + conj[n + 1:]
                                v2 = z3.substitute(vv, (j, sol))
                                rest2 = [z3.substitute(q2, (j, sol)) for q2 in rest]
                                cond = z3.And(sol >= 0, sol < hi, *rest2)
                                return z3.simplify(z3.If(cond, v2, zero_of(v2.sort())))
                            pm = PERMS.get(x.decl().name()) if z3.is_app(x) and x.num_args() else None
                            if pm and x.children()[-1].eq(j) and not contains(y, [j]) and not any(contains(u, [j]) for u in x.children()[:-1]) \
                                    and CTX.known(pm.ninst(x.children()[:-1]) == hi):
                                # a permutation of [0,hi) takes the value y exactly once
                                sol = pm.rho(*x.children()[:-1], y)
                                v2 = z3.substitute(vv, (j, sol))
                                return z3.simplify(z3.If(z3.And(y >= 0, y < hi, *[z3.substitute(q2, (j, sol)) for q2 in conj[:n] + conj[n + 1:]]), v2, zero_of(v2.sort())))
    return sum_app(b, j, hi)


def solve_for(x, y, j):
    """x == y with x = j + c: -> y - c"""
    if contains(y, [j]):
        return None
    if x.get_id() == j.get_id():
        return y
    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ADD:
        ch = x.children()
        js = [c for c in ch if c.get_id() == j.get_id()]
        rest = [c for c in ch if c.get_id() != j.get_id()]
        if len(js) == 1 and not any(contains(c, [j]) for c in rest):
            s = y
            for c in rest: s = s - c
            return z3.simplify(s)
    return None


def sum_apps(es):
    out = []
    for t in subterms(es).values():
        if z3.is_app(t) and t.num_args() > 0:
            tm = C.TEMPL.get(t.decl().name())
            if isinstance(tm, SumTemplate) and not C.has_var(t):
                if not any(z3.is_const(u) and u.decl().name().startswith('%') for u in subterms([t]).values()):
                    out.append((t, tm))
    return out


_sl_busy = [0]


def sum_lemmas(ctx, es):
    """extensionality / sign / step lemmas for the sums occurring in es, each justified by a sub-query"""
    if _sl_busy[0] >= 3:
        return []
    apps = sum_apps(es)
    if not apps:
        return []
    out = []
    _sl_busy[0] += 1
    try:
        pc = [p for p in es[:len(ctx.pc)]]
        q = z3.Int(f'%q{_sl_busy[0]}')

        def sub(goal, extra, t=2000):
            key = (goal.get_id(), tuple(x.get_id() for x in extra), len(ctx.pc), ctx.pc[-1].get_id() if ctx.pc else 0)
            if key in ctx.lemma_cache:
                return ctx.lemma_cache[key][0]
            n = ctx.push()
            for x in extra: ctx.assume(x)
            r = C.discharge(ctx, goal, t)[0] == 'proved'
            ctx.pop(n)
            ctx.lemma_cache[key] = (r, goal, extra)
            return r
        for t, tm in apps:
            args = [t.arg(i) for i in range(t.num_args() - 1)]
            hi = t.arg(t.num_args() - 1)
            b = tm.inst(args, q)
            rng = z3.And(q >= 0, q < hi)
            if sub(b >= 0, [rng], 800):
                out.append(t >= 0)
                for el in ctx.elem_hints:
                    if not isinstance(el, tuple): out.append(z3.Implies(z3.And(el >= 0, el < hi), t >= tm.inst(args, el)))
            for el in ctx.elem_hints:
                if isinstance(el, tuple): continue
                out.append(z3.Implies(z3.And(el >= 0, el < hi), tm.inst(args, el) == tm.inst(args, el)))
        for (t1, m1), (t2, m2) in itertools.combinations(apps, 2):
            if t1.sort() != t2.sort():
                if t1.sort() == R: (t1, m1), (t2, m2) = (t2, m2), (t1, m1)
                h1, h2 = t1.arg(t1.num_args() - 1), t2.arg(t2.num_args() - 1)
                if ival(z3.simplify(h2 - h1)) == 0 or C.z3_check(ctx.pc + [h1 != h2], 500)[0] == z3.unsat:
                    b1, b2 = [m.inst([t.arg(i) for i in range(t.num_args() - 1)], q) for m, t in ((m1, t1), (m2, t2))]
                    if sub(z3.ToReal(b1) == b2, [z3.And(q >= 0, q < h1)]): out.append(z3.ToReal(t1) == t2)
                continue
            h1, h2 = t1.arg(t1.num_args() - 1), t2.arg(t2.num_args() - 1)
            a1 = [t1.arg(i) for i in range(t1.num_args() - 1)]
            a2 = [t2.arg(i) for i in range(t2.num_args() - 1)]
            d = ival(z3.simplify(h2 - h1))
            if d in (1, -1):
                # split off the last element
                if d == -1:
                    (t1, m1, h1, a1), (t2, m2, h2, a2) = (t2, m2, h2, a2), (t1, m1, h1, a1)
                b1, b2 = m1.inst(a1, q), m2.inst(a2, q)
                if z3.eq(z3.simplify(b1), z3.simplify(b2)) or sub(b1 == b2, [z3.And(q >= 0, q < h1)]):
                    out.append(z3.Implies(h1 >= 0, t2 == t1 + m2.inst(a2, h1)))
                else:
                    # split off the first element
                    b2 = m2.inst(a2, z3.simplify(q + 1))
                    if z3.eq(z3.simplify(b1), z3.simplify(b2)) or sub(b1 == b2, [z3.And(q >= 0, q < h1)], 1000):
                        out.append(z3.Implies(h1 >= 0, t2 == t1 + m2.inst(a2, z3.IntVal(0))))
                continue
            heq = d == 0 or C.z3_check(ctx.pc + [h1 != h2], 500)[0] == z3.unsat
            if not heq:
                # prefix relation for nonnegative summands
                if t1.decl().eq(t2.decl()) and all(x.eq(y) for x, y in zip(a1, a2)):
                    if C.z3_check(ctx.pc + [h1 > h2], 500)[0] == z3.unsat: lo, hi2, tl, th = h1, h2, t1, t2
                    elif C.z3_check(ctx.pc + [h1 < h2], 500)[0] == z3.unsat: lo, hi2, tl, th = h2, h1, t2, t1
                    else: continue
                    if sub(m1.inst(a1, q) >= 0, [q >= 0, q < hi2], 800): out.append(tl <= th)
                continue
            b1, b2 = m1.inst(a1, q), m2.inst(a2, q)
            rng = z3.And(q >= 0, q < h1)
            if sub(b1 == b2, [rng]):
                out.append(t1 == t2)
            elif len(apps) <= 6:
                if sub(b1 <= b2, [rng], 800): out.append(t1 <= t2)
                elif sub(b1 >= b2, [rng], 800): out.append(t1 >= t2)
    finally:
        _sl_busy[0] -= 1
    return out
