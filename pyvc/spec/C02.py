"""C02: tables own their columns and treat all columns alike.

A table has any number of columns under arbitrary names; the columns of a case are all one- or all two-dimensional with arbitrary
contents.  Storage is tracked: every array carries the tag of the storage it may share, a copy carries none, so `independent` means
that no column of the result shares storage with anything that existed before the call."""
from ..harness import *
from .. import ghost as G, loops as L
from ..arr import mk_sum
from ..ghost import GhostMap, Name, Obj, NameS, ObjS, KeyErr

suite = Suite()


class Cols:
    """a mapping of any number of columns"""

    def __init__(self, h, tag, rank, rows=None, wid=None, ncols=None):
        self.tag, self.rank = tag, rank
        self.n = n = h.size(f'n_{tag}') if ncols is None else ncols
        self.key = key = z3.Function(f'{tag}_key', I, NameS)
        self.place = place = z3.Function(f'{tag}_place', NameS, I)
        self.val = z3.Function(f'{tag}_val', *[I] * (1 + rank), R)
        self.rows = rows or z3.Function(f'{tag}_rows', I, I)
        self.wid = wid or z3.Function(f'{tag}_width', I, I)
        for f in (self.rows, self.wid):
            if isinstance(f, z3.FuncDeclRef): C.add_templ(f, lambda t: [t >= 0])
        C.add_templ(key, lambda t: [z3.Not(G.slashF(t)), place(t) == t.arg(0)])
        self.map = GhostMap(tag, P=self.has, V=lambda k: self.col(place(k)), seq=(n.e, lambda q: Name(key(q)), lambda q: self.col(q)))
        self.map.place = lambda k: place(k)

    def has(self, k): return z3.And(self.place(k) >= 0, self.place(k) < self.n.e, self.key(self.place(k)) == k)

    def shape(self, q): return (self.rows(q),) + ((self.wid(q),) if self.rank == 2 else ())

    def col(self, q):
        a = A.new_arr(tuple(dim_(d) for d in self.shape(q)), 'f8', lambda ix: self.val(q, *ix))
        a.buf.tag = self.tag
        return a

    def at(self, k): return lambda ix: self.val(self.place(k), *ix)
    def shape_at(self, k): return self.shape(self.place(k))


def dim_(d): return A.dim(S(d)) if z3.is_expr(d) else A.dim(d)


def data(t):
    """the map that holds the columns of a table"""
    at_ = [v for v in t.__dict__.values() if isinstance(v, GhostMap)]
    if len(at_) != 1: raise Unsupported('representation of a table')
    return at_[0]


def generic(shape):
    ix = [z3.Int(CTX.fresh_name('gx')) for _ in shape]
    CTX.elem_hints += ix
    return ix, z3.And(*[z3.And(x >= 0, x < A.dz(d)) for x, d in zip(ix, shape)])


def column(h, label, m, k, has, want, shape, free=True):
    """the entry k of m: present exactly when `has`; then of the given shape and values, and (free) sharing no earlier storage"""
    h.prove(f'{label}: the columns', m.has(k) == has)
    for cond, v in m.alternatives(k):
        n = CTX.push()
        CTX.assume(cond, True); CTX.assume(has)
        if CTX.feasible(z3.BoolVal(True)):
            if not isinstance(v, A.SArr): v = v()
            if not isinstance(v, A.SArr): raise Unsupported('column of another kind')
            h.prove(f'{label}: shape', z3.BoolVal(v.ndim == len(shape)) if v.ndim != len(shape) else
                    z3.And(*[A.dz(a) == A.dz(b_) for a, b_ in zip(v._shape, shape)]))
            if v.ndim == len(shape):
                ix, rng = generic(shape)
                h.prove(f'{label}: values', z3.Implies(rng, v.at(*ix) == want(ix)))
            if free: h.prove(f'{label}: the values are independent of the originals', z3.BoolVal(v.buf.tag is None))
        CTX.pop(n)


def order(h, label, m, n, key, q):
    """the columns of m are key(0), ..., key(n-1) in that order"""
    c = m.concrete()
    if c is not None or m.seq is None or m.w: raise Unsupported('order of the columns')
    h.prove(f'{label}: as many columns', A.dz(m.seq[0]) == n)
    h.prove(f'{label}: column order', z3.Implies(z3.And(q >= 0, q < n), G.name_expr(m.seq[1](q)) == key(q)))


def start(h):
    M = h.mod('core.containers.data_table')
    CTX.ghost_dicts = True
    k, q = z3.Const('any_name', NameS), h.int('q').e
    CTX.elem_hints.append(q)
    return M, k, q


def table(h, M, c, k):
    CTX.elem_hints.append(c.place(k))
    t = M.DataTable(c.map)
    for m in (data(t),): retag(m, c.tag + ' table')
    return t


def retag(m, tag):
    """from here on the columns of this table are storage that exists"""
    V, seq = m.V, m.seq
    if m.w: raise Unsupported('representation of a table')

    def mark(v):
        if not isinstance(v, A.SArr): raise Unsupported('column of another kind')
        v.buf.tag = tag
        return v
    m.V = lambda k: mark(V(k))
    m.memo = []
    if seq is not None: m.seq = (seq[0], seq[1], lambda q: mark(seq[2](q)))


def everything(name):
    """the case for one- and for two-dimensional columns"""
    def deco(fn):
        for rank in (1, 2):
            suite.case(f'{name}, {rank}-d columns')(lambda h, rank=rank: fn(h, rank))
        return fn
    return deco


@everything('building a table')
def _(h, rank):
    M, k, q = start(h)
    a = Cols(h, 'a', rank)
    CTX.elem_hints.append(a.place(k))
    t = M.DataTable(a.map)
    column(h, 'built', data(t), k, a.has(k), a.at(k), a.shape_at(k))
    order(h, 'built', data(t), a.n.e, a.key, q)
    column(h, 'the mapping', a.map, k, a.has(k), a.at(k), a.shape_at(k), free=False)


@suite.case('an empty table')
def _(h):
    M, k, q = start(h)
    t = M.DataTable()
    h.prove('no columns', z3.Not(data(t).has(k)))


@everything('storing a column')
def _(h, rank):
    M, k, q = start(h)
    a = Cols(h, 'a', rank)
    t = table(h, M, a, k)
    w = z3.Const('new_name', NameS)
    x = h.array('x', (h.size('m'), h.size('w'))[:rank])
    x.buf.tag = 'x'
    t[Name(w)] = x
    m = data(t)
    s = x.snap()
    CTX.assume(k != w); column(h, 'another column', m, k, a.has(k), a.at(k), a.shape_at(k), free=False)
    column(h, 'the stored column', m, w, z3.BoolVal(True), lambda ix: s(tuple(ix)), x._shape)


@everything('storing several columns')
def _(h, rank):
    M, k, q = start(h)
    a = Cols(h, 'a', rank)
    t = table(h, M, a, k)
    w = [z3.Const(f'new_name{j}', NameS) for j in range(3)]
    CTX.assume(z3.Distinct(*w))
    xs = [h.array(f'x{j}', (h.size(f'm{j}'), h.size(f'w{j}'))[:rank]) for j in range(3)]
    for x in xs: x.buf.tag = 'x'
    t[tuple(Name(e) for e in w)] = tuple(xs)
    m = data(t)
    for e, x in zip(w, xs):
        s = x.snap()
        column(h, 'a stored column', m, e, z3.BoolVal(True), lambda ix: s(tuple(ix)), x._shape)
    for e in w: CTX.assume(k != e)
    column(h, 'another column', m, k, a.has(k), a.at(k), a.shape_at(k), free=False)


@everything('storing several columns: counts must agree')
def _(h, rank):
    M, k, q = start(h)
    a = Cols(h, 'a', rank)
    t = table(h, M, a, k)
    w = [z3.Const(f'new_name{j}', NameS) for j in range(3)]
    x = h.array('x', (h.size('m'), h.size('w'))[:rank])
    h.raises('refused', (AssertionError, ValueError), lambda: t.__setitem__(tuple(Name(e) for e in w), (x, x)))
    column(h, 'after the refusal', data(t), k, a.has(k), a.at(k), a.shape_at(k), free=False)


@everything('reading and deleting columns')
def _(h, rank):
    M, k, q = start(h)
    a = Cols(h, 'a', rank)
    t = table(h, M, a, k)
    e, f = z3.Const('e', NameS), z3.Const('f', NameS)
    CTX.elem_hints.extend([a.place(e), a.place(f)])
    CTX.assume(a.has(e)); CTX.assume(a.has(f)); CTX.assume(e != f)
    ix, rng = generic(a.shape_at(e))
    h.prove('the stored values', z3.Implies(rng, t[Name(e)].at(*ix) == a.at(e)(ix)))
    two = t[Name(f), Name(e)]
    h.prove('one value per key', z3.BoolVal(len(two) == 2))
    h.prove('values in the order of the keys', z3.Implies(rng, two[1].at(*ix) == a.at(e)(ix)))
    h.prove('values in the order of the keys', z3.Implies(generic(a.shape_at(f))[1], z3.BoolVal(True)))
    del t[Name(e)]
    column(h, 'after deleting a column', data(t), k, z3.And(a.has(k), k != e), a.at(k), a.shape_at(k), free=False)


@everything('copies')
def _(h, rank):
    M, k, q = start(h)
    a = Cols(h, 'a', rank)
    t = table(h, M, a, k)
    c = t.copy()
    h.prove('a new table', z3.BoolVal(c is not t and type(c) is M.DataTable))
    column(h, 'copy', data(c), k, a.has(k), a.at(k), a.shape_at(k))
    order(h, 'copy', data(c), a.n.e, a.key, q)
    d = t.to_dict()
    if not isinstance(d, GhostMap): raise Unsupported('dictionary of another kind')
    column(h, 'dictionary', d, k, a.has(k), a.at(k), a.shape_at(k))
    order(h, 'dictionary', d, a.n.e, a.key, q)
    column(h, 'the table itself', data(t), k, a.has(k), a.at(k), a.shape_at(k), free=False)


def updating(kind):
    @everything(kind)
    def _(h, rank):
        M, k, q = start(h)
        a, b_ = Cols(h, 'a', rank), Cols(h, 'b', rank)
        CTX.elem_hints.append(b_.place(k))
        t = table(h, M, a, k)
        o = b_.map if kind.endswith('a mapping') else table(h, M, b_, k)
        if kind.startswith('union'):
            u = t | o
            h.prove('a new table', z3.BoolVal(u is not t and u is not o))
        elif kind.startswith('update in place'):
            u = t
            u |= o
            h.prove('the same table', z3.BoolVal(u is t))
        else:
            t.update(o); u = t
        free = kind.startswith('union')
        n = CTX.push()
        CTX.assume(b_.has(k))
        column(h, 'a column of the right operand', data(u), k, z3.BoolVal(True), b_.at(k), b_.shape_at(k))
        CTX.pop(n)
        CTX.assume(z3.Not(b_.has(k)))
        column(h, 'another column', data(u), k, a.has(k), a.at(k), a.shape_at(k), free=free)


for kd in ('update by a mapping', 'update by a table', 'update in place by a table', 'union with a mapping', 'union with a table'): updating(kd)


# ------------------------------------------------------------------ rows
def rows(name, sel):
    def go(h, rank, via):
        M, k, q = start(h)
        n = h.size('n_rows')
        a = Cols(h, 'a', rank, rows=lambda q: n.e)
        t = table(h, M, a, k)
        arg, pick, count = sel(h, n)
        s = t.iloc[arg] if via == 'iloc' else t.subset(arg)
        h.prove('a table', z3.BoolVal(type(s) is M.DataTable))
        column(h, 'selected rows', data(s), k, a.has(k), lambda ix: a.at(k)([pick(ix[0])] + list(ix[1:])), (count,) + a.shape_at(k)[1:])
        order(h, 'selected rows', data(s), a.n.e, a.key, q)
        column(h, 'the table itself', data(t), k, a.has(k), a.at(k), a.shape_at(k), free=False)
    for rank in (1, 2):
        suite.case(f'row selection by {name}, {rank}-d columns')(lambda h, rank=rank: go(h, rank, 'subset'))
    suite.case(f'row selection by {name}, through iloc')(lambda h: go(h, 1, 'iloc'))


def by_index(h, n):
    m = h.size('m')
    ids = h.array('ids', (m,), 'i8')
    h.assume_all(ids, lambda v, *ix: b(v >= 0) & b(v < n))
    f = ids.snap()
    return ids, lambda r: f((r,)), m.e


def by_mask(h, n):
    mask = h.array('mask', (n,), 'b1')
    ref = A.asarr(h.ld.models['numpy'].arange(n))[mask]
    f = ref.snap()
    return mask, lambda r: f((r,)), A.dz(ref._shape[0])


def by_slice(h, n):
    lo, hi = h.int('lo', lo=0), h.int('hi', lo=0)
    h.assume(lo <= hi); h.assume(hi <= n)
    return slice(lo, hi), lambda r: r + lo.e, hi.e - lo.e


def by_step(h, n):
    return slice(None, None, -1), lambda r: n.e - 1 - r, n.e


rows('an index list', by_index)
rows('a mask', by_mask)
rows('a slice', by_slice)
rows('a reversing slice', by_step)


def one_row(via):
    @suite.case(f'selection of one row{via and ", through " + via}')
    def _(h):
        M, k, q = start(h)
        n = h.size('n_rows')
        a = Cols(h, 'a', 2, rows=lambda q: n.e)
        t = table(h, M, a, k)
        j = h.idx(n, 'j')
        s = t.iloc[j] if via else t.subset(j)
        h.prove('a table', z3.BoolVal(type(s) is M.DataTable))
        column(h, 'selected row', data(s), k, a.has(k), lambda ix: a.at(k)([j.e] + list(ix)), a.shape_at(k)[1:])
        order(h, 'selected row', data(s), a.n.e, a.key, q)
        column(h, 'the table itself', data(t), k, a.has(k), a.at(k), a.shape_at(k), free=False)


one_row('')
one_row('iloc')


@everything('column selection')
def _(h, rank):
    M, k, q = start(h)
    a = Cols(h, 'a', rank)
    t = table(h, M, a, k)
    m = h.size('m')
    req, rplace = z3.Function('requested', I, NameS), z3.Function('requested_place', NameS, I)
    C.add_templ(req, lambda t_: [z3.Not(G.slashF(t_)), rplace(t_) == t_.arg(0), z3.Implies(z3.And(t_.arg(0) >= 0, t_.arg(0) < m.e), a.has(t_))])
    i = CTX.index_var('rk')
    keys = L.MList([L.Seg(m.e, i, Name(req(i)))])
    CTX.elem_hints += [rplace(k), a.place(k), a.place(req(rplace(k)))]
    s = t.subcol(keys)
    asked = z3.And(rplace(k) >= 0, rplace(k) < m.e, req(rplace(k)) == k)
    h.prove('a table', z3.BoolVal(type(s) is M.DataTable))
    column(h, 'selected columns', data(s), k, asked, a.at(k), a.shape_at(k))
    order(h, 'selected columns', data(s), m.e, req, q)
    column(h, 'the table itself', data(t), k, a.has(k), a.at(k), a.shape_at(k), free=False)


def wrapped(sel):
    """the same selector as a tuple of one"""
    def f(h, n):
        arg, pick, count = sel(h, n)
        return (arg,), pick, count
    return f


rows('an ellipsis', lambda h, n: (..., lambda r: r, n.e))
rows('a tuple of a slice', wrapped(by_slice))
rows('a tuple of an index array', wrapped(by_index))
rows('a slice and an ellipsis', lambda h, n: (lambda t: ((t[0], ...), t[1], t[2]))(by_slice(h, n)))


# ------------------------------------------------------------------ concatenation
def plain_args(fn):
    """fn(self, *other) as a function of a (symbolic) tuple of others: the same code object with the star taken off its last parameter"""
    import types, inspect
    co = fn.__code__
    if not co.co_flags & inspect.CO_VARARGS: raise Unsupported('arguments of concat')
    c2 = co.replace(co_flags=co.co_flags & ~inspect.CO_VARARGS, co_argcount=co.co_argcount + 1)
    return types.FunctionType(c2, fn.__globals__, fn.__name__, fn.__defaults__, fn.__closure__)


@everything('concatenation of any number of tables')
def _(h, rank):
    M, k, q = start(h)
    n = h.size('n_cols')
    width = z3.Function('width', NameS, I)
    C.add_templ(width, lambda t: [t >= 0])
    a = Cols(h, 'a', rank, ncols=n, rows=lambda q: S(z3.Int('rows0')).e)
    CTX.assume(z3.Int('rows0') >= 0)
    a.wid = lambda q: width(a.key(q))
    t = table(h, M, a, k)
    # the others: any number of tables, each of which has (at least) the same columns, with a row count of its own
    no = h.size('n_others')
    val = z3.Function('o_val', I, NameS, *[I] * rank, R)
    rw = z3.Function('o_rows', I, I)
    C.add_templ(rw, lambda t_: [t_ >= 0])
    extra = z3.Function('o_extra', I, NameS, B)

    def other(i):
        def V(kk):
            c = A.new_arr((dim_(rw(i)),) + ((dim_(width(kk)),) if rank == 2 else ()), 'f8', lambda ix: val(i, kk, *ix))
            c.buf.tag = 'others'
            return c
        return GhostMap('o', P=lambda kk: z3.Or(a.has(kk), extra(i, kk)), V=V)
    i = CTX.index_var('ot')
    o = object.__new__(M.DataTable)
    nm_, = [x for x, v in t.__dict__.items() if isinstance(v, GhostMap)]
    o.__dict__[nm_] = other(i)
    others = L.MList([L.Seg(no.e, i, o)])
    j, r = h.idx(no, 'j'), h.int('r', lo=0)
    h.assume(r < S(rw(j.e)))
    CTX.elem_hints += [j.e, z3.simplify(j.e + 1)]
    u = plain_args(M.DataTable.concat)(t, others)
    h.prove('a new table', z3.BoolVal(u is not t and type(u) is M.DataTable))
    order(h, 'concatenation', data(u), n.e, a.key, q)
    m = data(u)
    h.prove('concatenation: the columns', m.has(k) == a.has(k))
    before = lambda t_: mk_sum(lambda x: rw(x), t_, I)
    for cond, v in m.alternatives(k):
        n0 = CTX.push()
        CTX.assume(cond, True); CTX.assume(a.has(k))
        v = v if isinstance(v, A.SArr) else v()
        h.prove('number of rows', A.dz(v._shape[0]) == z3.Int('rows0') + before(no.e))
        h.prove('the values are independent of the originals', z3.BoolVal(v.buf.tag is None))
        rest = []
        if rank == 2:
            c = h.int('c', lo=0).e
            CTX.assume(c < width(k)); rest = [c]
            h.prove('width', A.dz(v._shape[1]) == width(k))
        r0 = h.int('r0', lo=0).e
        CTX.elem_hints.append(r0)
        n1 = CTX.push()
        CTX.assume(r0 < z3.Int('rows0'))
        h.prove('first the rows of the table', v.at(r0, *rest) == a.at(k)([r0] + rest))
        CTX.pop(n1)
        h.prove('then the rows of each other table in turn', v.at(z3.Int('rows0') + before(j.e) + r.e, *rest) == val(j.e, k, r.e, *rest))
        CTX.pop(n0)
    column(h, 'the table itself', data(t), k, a.has(k), a.at(k), a.shape_at(k), free=False)


# ------------------------------------------------------------------ exports
def stacked(which):
    @suite.case(f'{which}: any number of one-dimensional columns')
    def _(h):
        M, k, q = start(h)
        n = h.size('n_rows')
        a = Cols(h, 'a', 1, rows=lambda q: n.e)
        h.assume(a.n >= 1)
        t = table(h, M, a, k)
        out = getattr(t, which)()
        c, r = h.idx(a.n, 'c'), h.idx(n, 'r')
        h.shape('shape', out, (n, a.n) if which == 'col_stacked' else (a.n, n))
        h.eq('every column in its place', at(out, r, c) if which == 'col_stacked' else at(out, c, r), S(a.val(c.e, r.e)))
        h.prove('the values are independent of the originals', z3.BoolVal(out.buf.tag is None))


stacked('col_stacked')
stacked('row_stacked')


@everything('lists')
def _(h, rank):
    M, k, q = start(h)
    a = Cols(h, 'a', rank)
    t = table(h, M, a, k)
    d = t.to_dict_of_list()
    if not isinstance(d, GhostMap): raise Unsupported('dictionary of another kind')
    order(h, 'lists', d, a.n.e, a.key, q)
    h.prove('the columns', d.has(k) == a.has(k))
    for cond, v in d.alternatives(k):
        n0 = CTX.push()
        CTX.assume(cond, True); CTX.assume(a.has(k))
        v = v() if callable(v) and not isinstance(v, list) else v
        ix, rng = generic(a.shape_at(k))
        CTX.assume(rng)
        h.prove('as many rows', A.dz(A.dim(L.seg_len(v))) == a.shape_at(k)[0])
        for x in ix: v = v[S(x)]
        h.prove('the values', C.lift(v) == a.at(k)(ix))
        CTX.pop(n0)
