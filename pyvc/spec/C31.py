"""Stored fields, results and objects (field/cubic_box dumps, io/h5/abc.py GroupLike, DataTable members)."""
from ..harness import *
from .. import arr as A
suite = Suite()
MA, MESH, FIELD, SM, GV, CW = ('field.cubic_box.' + s for s in ('mass_assignment', 'mesh', 'field', 'smoothing', 'gravity', 'cosmic_web'))


def fresh(v):
    """a loaded value: equal, in storage of its own"""
    if isinstance(v, dict): return {k: fresh(x) for k, x in v.items()}
    if isinstance(v, A.SArr):
        f = v.snap()
        return A.new_arr(v._shape, v.dt, f)
    return v


class Group:
    """contract of an HDF5 group (proved for the real one under C25/C26): dump stores the tree, load and datasets return equal values in new storage"""

    def __init__(self, h, held=None):
        self.h, self.held, self.flags, self.writes = h, held, [], 0

    def dump(self, data_dict, flag='x'):
        CTX.used_contracts.add('io.h5.named_objs:Group.dump')
        self.held, self.writes = fresh(dict(data_dict.items())), self.writes + 1
        self.flags.append(flag)

    def load(self):
        CTX.used_contracts.add('io.h5.named_objs:Group.load')
        return self.h.mod('core.containers.data_dict').DataDict(fresh(self.held))

    @property
    def datasets(self):
        CTX.used_contracts.add('io.h5.named_objs:DatasetManager.__getitem__')
        g = self

        class M:
            def __getitem__(self, k): return tuple(fresh(g.held[x]) for x in k) if isinstance(k, tuple) else fresh(g.held[k])
        return M()


def cube(h, n, tag='rho'):
    return h.array(tag, (n, n, n))


def cells(h, n): return [h.idx(n) for _ in range(3)]


def density(h, n, L, data):
    d = h.mod(MA).DensityField(L, n)
    d.data[...] = data
    return d


@suite.case('density field: dump and load')
def _(h):
    n, L = h.int('n', lo=1), h.real('L', gt=0)
    rho = cube(h, n)
    d = density(h, n, L, rho)
    g = Group(h)
    d.dump(g)
    h.prove('written once, not over something else', z3.BoolVal(g.flags == ['x']))
    h.prove('the stored names', z3.BoolVal(sorted(g.held) == ['data', 'l_box', 'n_grids']))
    f = h.mod(MA).DensityField.load(g)
    h.prove('a field', z3.BoolVal(type(f) is h.mod(FIELD).Field))
    h.shape('shape', f.data, (n, n, n))
    h.shape('shape as reported', f.data, f.shape)
    i = cells(h, n)
    h.eq('the data', at(f.data, *i), at(rho, *i))
    h.eq('the data of the dumped field are unchanged', at(d.data, *i), at(rho, *i))
    h.eq('box', f.mesh.l_box, L); h.eq('grid', f.mesh.n_grids, n)
    c = f.copied()
    h.independent('copies', c.data, f.data)
    h.eq('copies: data', at(c.data, *i), at(rho, *i))
    h.eq('copies: box', c.mesh.l_box, L)


for flag in ('x', 'ac', 'ca'):
    @suite.case(f'the flag reaches the group ({flag})')
    def _(h, flag=flag):
        n, L = h.int('n', lo=1), h.real('L', gt=0)
        g = Group(h)
        d = density(h, n, L, cube(h, n))
        d.dump(g, flag=flag)
        h.prove('density dump', z3.BoolVal(g.flags == [flag]))
        o = Group(h)
        h.mod(MA).DensityField.join_dumps([g], o, flag=flag)
        h.prove('joined dump', z3.BoolVal(o.flags == [flag]))
        o = Group(h)
        result(h, n, L)[0].dump(o, flag=flag)
        h.prove('smoothing result', z3.BoolVal(o.flags == [flag]))
        o = Group(h)
        tidal(h, n, L)[0].dump(o, flag=flag)
        h.prove('tidal result', z3.BoolVal(o.flags == [flag]))


def join(name, groups):
    @suite.case(f'joining dumps ({name})')
    def _(h):
        n, L = h.int('n', lo=1), h.real('L', gt=0)
        gs, total, check = groups(h, n, L)
        o = Group(h)
        h.mod(MA).DensityField.join_dumps(gs, o)
        h.prove('written once, not over something else', z3.BoolVal(o.flags == ['x']))
        f = h.mod(MA).DensityField.load(o)
        h.shape('shape', f.data, (n, n, n))
        i = cells(h, n)
        h.eq('the sum of the data', at(f.data, *i), total(i))
        h.eq('box', f.mesh.l_box, L); h.eq('grid', f.mesh.n_grids, n)
        check(i)


def listed(m):
    def groups(h, n, L):
        rho = [cube(h, n, f'rho{q}') for q in range(m)]
        gs = [Group(h, dict(data=r, l_box=L, n_grids=n)) for r in rho]

        def check(i):
            h.prove('the inputs are not written to', z3.BoolVal(all(g.writes == 0 for g in gs)))
            for g, r in zip(gs, rho): h.eq('the inputs hold what they held', at(g.held['data'], *i), at(r, *i))
        return gs, lambda i: sum([at(r, *i) for r in rho[1:]], at(rho[0], *i)), check
    return groups


for m in (1, 2, 3): join(f'{m} of them', listed(m))
join('an iterator', lambda h, n, L: (lambda t: (iter(t[0]), t[1], t[2]))(listed(2)(h, n, L)))


def many(h, n, L):
    m = h.size('n_groups', lo=1)
    rho = z3.Function('rho_of', I, I, I, I, R)

    def data(i): return A.new_arr((A.dim(n),) * 3, 'f8', lambda ix: rho(i, *ix))
    q = CTX.index_var('grp')
    g = Group(h, dict(data=data(q), l_box=L, n_grids=n))

    def total(i):
        e = [C.lift(x) for x in i]
        return S(A.mk_sum(lambda k: rho(k, *e), m.e, R))
    return L_.MList([L_.Seg(m.e, q, g)]), total, lambda i: None


from .. import loops as L_
Group.__pv_subst__ = lambda self, i, e: Group(self.h, {k: L_.subst_value(v, i, e) for k, v in self.held.items()})
join('any number of them', many)


# ------------------------------------------------------------------ results of the analysis
def members(h, cls, n, L, scalars=('l_box', 'n_grids')):
    import dataclasses
    names = [f.name for f in dataclasses.fields(cls)]
    return {k: L if k == 'l_box' else n if k == 'n_grids' else h.array(k, (n, n, n)) for k in names}


def result(h, n, L):
    R_ = h.mod(SM).FourierSpaceSmoothing.Result
    m = members(h, R_, n, L)
    return R_(**m), m


def tidal(h, n, L):
    R_ = h.mod(GV).TidalField.Result
    m = members(h, R_, n, L)
    m['T_x'], m['lam'] = h.array('T_x', (n, n, n, 3, 3)), h.array('lam', (n, n, n, 3))
    return R_(**m), m


for nm, mk in (('smoothing result', result), ('tidal result', tidal)):
    @suite.case(f'{nm}: every member under its name')
    def _(h, mk=mk):
        n, L = h.int('n', lo=1), h.real('L', gt=0)
        r, m = mk(h, n, L)
        g = Group(h)
        r.dump(g)
        h.prove('written once, not over something else', z3.BoolVal(g.flags == ['x']))
        h.prove('the stored names', z3.BoolVal(sorted(g.held) == sorted(m)))
        for k, v in m.items():
            if isinstance(v, A.SArr):
                h.shape(f'{k}: shape', g.held[k], v._shape)
                i = [h.idx(d if not isinstance(d, int) else S(z3.IntVal(d))) for d in v._shape]
                h.eq(f'{k}: values', at(g.held[k], *i), at(v, *i))
            else: h.eq(k, g.held[k], v)


for given in (True, False):
    @suite.case(f'classification of stored eigenvalues (threshold given={given})')
    def _(h, given=given):
        n, L, t = h.int('n', lo=1), h.real('L', gt=0), h.real('th')
        lam = h.array('lam', (n, n, n, 3))
        h.assume_all(lam, lambda v, i, j, k, c: conj(imp(c == 0, v <= at(lam, i, j, k, 1)), imp(c == 1, v <= at(lam, i, j, k, 2))))
        g = Group(h, dict(lam=lam, l_box=L, n_grids=n, rho_x=cube(h, n)))
        T = h.mod(CW).TidalClassifier
        o = T.new_from_file(g, lam_th=t) if given else T.new_from_file(g)
        if not given: t = 0.
        i = cells(h, n)
        h.prove('a classifier', z3.BoolVal(type(o) is T))
        h.shape('one class per cell', o.n_lams, (n, n, n))
        h.eq('eigenvalues above the threshold', at(o.n_lams, *i), sum([ite(at(lam, *i, c) > t, 1, 0) for c in range(3)], 0))
        h.eq('threshold', o.lam_th, t)
        c = h.idx(S(z3.IntVal(3)))
        h.eq('eigenvalues', at(o.lam, *i, c), at(lam, *i, c))
        h.eq('box', o.mesh.l_box, L); h.eq('grid', o.mesh.n_grids, n)


# ------------------------------------------------------------------ objects with declared members
ABC = 'io.h5.abc'


class Text:
    """what h5py returns for a stored string"""

    def __init__(self, s): self.s = s
    def decode(self, *a): return self.s


def classes(h):
    M, T = h.mod(ABC), h.mod('core.containers.data_table').DataTable

    class Leaf(M.GroupLike):
        h5_data_typedict = {'x': A.SArr, 'name': str}

        def __init__(self, x, name, scale=1.0): self.x, self.name, self.scale = x, name, scale

    class Node(M.GroupLike):
        h5_data_typedict = {'left': Leaf, 'right': Leaf, 'table': T, 'n': float, 'name': str}

        def __init__(self, left, right, table, n, name, extra=None): self.left, self.right, self.table, self.n, self.name, self.extra = left, right, table, n, name, extra

    class Empty(M.GroupLike): pass
    return Leaf, Node, Empty, T


def node(h, names=('l', 'µ-r', '', )):
    Leaf, Node, Empty, T = classes(h)
    n, m, w = h.size('n'), h.size('m'), h.size('w')
    xs = dict(left=h.array('xl', (n,)), right=h.array('xr', (n, 3)))
    cols = dict(a=h.array('ca', (m,)), b=h.array('cb', (m, w)))
    v = h.real('v')
    o = Node(Leaf(xs['left'], names[0]), Leaf(xs['right'], names[1]), T(cols), v, names[2])
    return o, xs, cols, v, (Leaf, Node, Empty, T)


def same(h, lab, got, want):
    h.shape(f'{lab}: shape', got, want._shape)
    i = [h.idx(d if not isinstance(d, int) else S(z3.IntVal(d))) for d in want._shape]
    h.eq(f'{lab}: values', at(got, *i), at(want, *i))


def check(h, u, xs, cols, v, K, names, extra=None):
    Leaf, Node, Empty, T = K
    h.prove('an object of the class', z3.BoolVal(type(u) is Node and type(u.left) is Leaf and type(u.right) is Leaf and type(u.table) is T))
    same(h, 'member of a member', u.left.x, xs['left'])
    same(h, 'member of another member', u.right.x, xs['right'])
    h.prove('text of a member', z3.BoolVal(u.left.name == names[0] and u.right.name == names[1]))
    h.prove('text', z3.BoolVal(u.name == names[2]))
    h.eq('number', u.n, v)
    h.prove('the columns', z3.BoolVal(sorted(u.table.keys()) == sorted(cols)))
    for k, c in cols.items(): same(h, f'column {k}', u.table[k], c)
    h.prove('argument given at loading', z3.BoolVal(u.extra == extra))


class Texts(Group):
    """a group returns text as bytes"""

    def load(self):
        def go(d): return {k: go(x) if isinstance(x, dict) else Text(x) if isinstance(x, str) else x for k, x in d.items()}
        return self.h.mod('core.containers.data_dict').DataDict(go(fresh(self.held)))


def fresh(v, _old=fresh):
    if hasattr(v, 'items') and not isinstance(v, dict): v = dict(v.items())
    if isinstance(v, dict): return {k: fresh(x) for k, x in v.items()}
    return _old(v)


NAMES = ('l', 'µ-r', '')
for flag in ('x', 'ac'):
    @suite.case(f'object with members: group ({flag})')
    def _(h, flag=flag):
        o, xs, cols, v, K = node(h, NAMES)
        g = Texts(h)
        if flag == 'x': o.to_h5_group(g)
        else: o.to_h5_group(g, flag=flag)
        h.prove('written once under the flag', z3.BoolVal(g.flags == [flag]))
        h.prove('the stored names', z3.BoolVal(sorted(g.held) == sorted(K[1].h5_data_typedict)))
        check(h, K[1].from_h5_group(g), xs, cols, v, K, NAMES)
        check(h, K[1].from_h5_group(g, extra=3), xs, cols, v, K, NAMES, 3)
        h.prove('not written to by loading', z3.BoolVal(g.flags == [flag]))
        e = Texts(h)
        K[2]().to_h5_group(e)
        h.prove('no members', z3.BoolVal(not e.held and type(K[2].from_h5_group(e)) is K[2]))
        h.prove('a value given at loading wins', z3.BoolVal(K[1].from_h5_group(g, name='other').name == 'other'))


for where in ('/', 'a/b'):
    for flags in ((), ('w', 'ac')):
        @suite.case(f'object with members: file (group={where}, flags={flags})')
        def _(h, where=where, flags=flags):
            """contract of the file (C26): opened under the flag, groups by path, closed on leaving"""
            o, xs, cols, v, K = node(h, NAMES)
            M = h.mod(ABC)
            disk, opened, shut = {}, [], []

            class File:
                def __init__(self, path, flag='r', **kw):
                    CTX.used_contracts.add('io.h5.named_objs:File')
                    self.path = path
                    opened.append((path, flag))
                def __enter__(self): return self
                def __exit__(self, *a): shut.append(self.path)
                def __getitem__(self, k): return disk.setdefault((self.path, k), Texts(h))
            h.replace(ABC, "File", File)
            kw = {} if where == '/' else dict(group=where)
            if flags: o.to_h5_file('p.h5', f_flag=flags[0], flag=flags[1], **kw)
            else: o.to_h5_file('p.h5', **kw)
            want = flags or ('x', 'x')
            h.prove('the file is opened under its flag and closed', z3.BoolVal(opened == [('p.h5', want[0])] and shut == ['p.h5']))
            h.prove('one group is written under its flag', z3.BoolVal(list(disk) == [('p.h5', where)] and disk['p.h5', where].flags == [want[1]]))
            u = K[1].from_h5_file('p.h5', **kw)
            h.prove('read only, and closed', z3.BoolVal(opened[1:] == [('p.h5', 'r')] and len(shut) == 2))
            h.prove('nothing else is read or written', z3.BoolVal(list(disk) == [('p.h5', where)] and disk['p.h5', where].writes == 1))
            check(h, u, xs, cols, v, K, NAMES)
            check(h, K[1].from_h5_file('p.h5', extra='e', **kw), xs, cols, v, K, NAMES, 'e')


for rank in (1, 2):
    @suite.case(f'a table as a member ({rank}-d columns)')
    def _(h, rank=rank):
        from . import C02
        M, k, q = C02.start(h)
        a = C02.Cols(h, 'a', rank)
        t = C02.table(h, M, a, k)
        d = t._to_h5_data()
        u = M.DataTable._from_h5_data(d)
        h.prove('a table', z3.BoolVal(type(u) is M.DataTable))
        C02.column(h, 'returned', C02.data(u), k, a.has(k), a.at(k), a.shape_at(k), free=False)
        C02.order(h, 'returned', C02.data(u), a.n.e, a.key, q)
        C02.column(h, 'the table itself', C02.data(t), k, a.has(k), a.at(k), a.shape_at(k), free=False)
