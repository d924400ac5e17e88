"""Executable contracts: fields, results and objects written to an HDF5 file and read back."""
import os, tempfile, dataclasses
from dyn.fw import *
from pyhipp.io import h5
from pyhipp.io.h5 import abc as habc
from pyhipp.core import DataTable
from pyhipp.field.cubic_box import mass_assignment as MA, mesh as G, field as F, smoothing as S, gravity as GV, cosmic_web as W


def scratch(): return tempfile.TemporaryDirectory(prefix='c31-')
def cube(r, n): return r.arr((n, n, n), -2, 5, special=(0., 1.)).astype(np.float64)


def density(r, n, L, data):
    d = MA.DensityField(L, n)
    d.data[...] = data
    return d


@contract('density', 2)
def _(r):
    n, L, m, flag = r.int(1, 5), r.pick([1., 2.5, 100.]), r.int(1, 4), r.pick(['x', 'ac', 'ca'])
    datas = [cube(r, n) for _ in range(m)]
    boxes = [L] + [r.pick([L, L, 7.]) for _ in range(m - 1)]
    it = r.bool()
    r.note(n=n, boxes=boxes, datas=datas, flag=flag, iterator=it)
    with scratch() as d:
        with h5.File(d + '/f.h5', flag='x') as f:
            gs = []
            for q, (b, x) in enumerate(zip(boxes, datas)):
                g = f.create_group(f'g{q}')
                o = density(r, n, b, x)
                o.dump(g)
                ensure_eq(o.data, x, 'the dumped field')
                gs.append(g)
                l = MA.DensityField.load(g)
                ensure(type(l) is F.Field and l.shape == (n, n, n), 'a field', l)
                ensure_eq(l.data, x, 'data'); ensure(l.mesh.l_box == b and l.mesh.n_grids == n, 'mesh', (l.mesh.l_box, l.mesh.n_grids))
                c = l.copied()
                c.data[...] = 99.
                ensure_eq(l.data, x, 'the field a copy was taken of')
                ensure_raises(Exception, lambda: density(r, n, b, x + 1).dump(g), 'a second dump under the default flag')
                ensure_eq(MA.DensityField.load(g).data, x, 'data after a refused dump')
            out = f.create_group('out')
            MA.DensityField.join_dumps(iter(gs) if it else gs, out, flag=flag)
            t = MA.DensityField.load(out)
            w = datas[0].copy()
            for x in datas[1:]: w += x
            ensure_close(t.data, w, 'sum of the dumps'); ensure(t.mesh.l_box == L and t.mesh.n_grids == n, 'mesh of the sum')
            for g, b, x in zip(gs, boxes, datas):
                l = MA.DensityField.load(g)
                ensure_eq(l.data, x, 'a joined dump'); ensure(l.mesh.l_box == b, 'box of a joined dump')
        with h5.File(d + '/f.h5') as f:
            ensure_close(MA.DensityField.load(f['out']).data, w, 'sum after reopening')


@contract('overwriting')
def _(r):
    n = r.int(1, 4)
    x, y = cube(r, n), cube(r, n)
    r.note(n=n, x=x, y=y)
    k = lambda: r.arr((n, n, n), -1, 1)
    res = S.FourierSpaceSmoothing.Result(1., n, x, k(), k() + 1j, k(), k())
    tid = GV.TidalField.Result(1., n, x, k(), k() + 1j, k(), k(), k(), r.arr((n, n, n, 3, 3), -1, 1), np.sort(r.arr((n, n, n, 3), -1, 1), axis=-1))
    with scratch() as d, h5.File(d + '/f.h5', flag='x') as f:
        for nm, o, p in (('density', density(r, n, 1., x), density(r, n, 3., y)), ('smoothing', res, dataclasses.replace(res, rho_x=y, l_box=3.)), ('tidal', tid, dataclasses.replace(tid, rho_x=y, l_box=3.))):
            g = f.create_group(nm)
            o.dump(g)
            key = 'data' if nm == 'density' else 'rho_x'
            ensure_raises(Exception, lambda: p.dump(g), nm + ': a second dump under the default flag')
            ensure_eq(g.datasets[key], x, nm + ': after a refused dump')
            p.dump(g, flag='ac')
            ensure_eq(g.datasets[key], y, nm + ': after an overwriting dump'); ensure(g.datasets['l_box'] == 3., nm + ': box')


@contract('joining over existing members', .5)
def _(r):
    n, flag = r.int(1, 3), r.pick(['x', None, 'ac', 'ca', '', 'w', 'no such flag'])
    x, y, z = cube(r, n), cube(r, n), cube(r, n)
    r.note(n=n, flag=flag)
    with scratch() as d, h5.File(d + '/f.h5', flag='x') as f:
        for nm, v, b in (('a', x, 1.), ('b', y, 2.), ('out', z, 3.)): density(r, n, b, v).dump(f.create_group(nm))
        def go():
            if flag is None: MA.DensityField.join_dumps([f['a'], f['b']], f['out'])
            else: MA.DensityField.join_dumps([f['a'], f['b']], f['out'], flag=flag)
        if flag in ('ac', 'ca'):
            go(); t = MA.DensityField.load(f['out'])
            ensure_close(t.data, x + y, 'the sum replaces the members'); ensure(t.mesh.l_box == 1., 'grid of the first', t.mesh.l_box)
        else:
            ensure_raises(Exception, go, 'existing members and a flag that does not allow it')
            t = MA.DensityField.load(f['out']); ensure_eq(t.data, z, 'members after a refusal'); ensure(t.mesh.l_box == 3., 'grid after a refusal')


@contract('results')
def _(r):
    n, L = r.int(1, 4), r.pick([1., 50.])
    which = r.pick([S.FourierSpaceSmoothing.Result, GV.TidalField.Result])
    m = {}
    for f in dataclasses.fields(which):
        k = f.name
        m[k] = L if k == 'l_box' else n if k == 'n_grids' else r.arr((n, n, n) + {'T_x': (3, 3), 'lam': (3,)}.get(k, ()), -1, 1)
        if k.endswith('_k'): m[k] = m[k] + 1j * r.arr((n, n, n), -1, 1)
    r.note(which=str(which), L=L, n=n)
    with scratch() as d:
        with h5.File(d + '/f.h5', flag='x') as f: which(**m).dump(f.create_group('a'))
        with h5.File(d + '/f.h5') as f: back = f['a'].load()
    ensure(set(back.keys()) == set(m), 'members', sorted(back.keys()))
    for k, v in m.items(): ensure_eq(np.asarray(back[k]), np.asarray(v), k)


@contract('classifier')
def _(r):
    n, L, th = r.int(1, 4), r.pick([1., 50.]), r.pick([None, 0., .25, -.5, 2.])
    lam = np.sort(r.arr((n, n, n, 3), -1, 1, special=(0., .25)), axis=-1).astype(np.float32)
    r.note(n=n, L=L, th=th, lam=lam)
    kw = {} if th is None else dict(lam_th=th)
    with scratch() as d, h5.File(d + '/f.h5', flag='x') as f:
        g = f.create_group('t')
        g.dump(dict(lam=lam, l_box=L, n_grids=n))
        t = W.TidalClassifier.new_from_file(g, **kw)
    o = W.TidalClassifier(lam, G.Mesh.new(n, L), **kw)
    ensure_eq(t.n_lams, o.n_lams, 'classes'); ensure_eq(t.n_lams, (lam > (th or 0.)).sum(-1), 'classes')
    ensure_eq(t.lam, lam, 'eigenvalues'); ensure(t.lam_th == (th or 0.) and t.mesh.l_box == L and t.mesh.n_grids == n, 'parameters')


class Leaf(habc.GroupLike):
    h5_data_typedict = {'x': np.ndarray, 'name': str}
    def __init__(self, x, name): self.x, self.name = x, name


class Node(habc.GroupLike):
    h5_data_typedict = {'leaf': Leaf, 'table': DataTable, 'n': float, 'name': str}
    def __init__(self, leaf, table, n, name, extra=None): self.leaf, self.table, self.n, self.name, self.extra = leaf, table, n, name, extra


class Top(habc.GroupLike):
    h5_data_typedict = {'a': Node, 'b': Node, 'x': np.ndarray}
    def __init__(self, a, b, x): self.a, self.b, self.x = a, b, x


def node(r):
    m = r.int(0, 4)
    t = DataTable({k: r.arr((m,) if r.bool() else (m, 2), -5, 5) for k in r.pick([(), ('a',), ('a', 'b'), ('z', 'a', 'm')])})
    return Node(Leaf(r.arr((r.int(0, 4),), -1, 1), r.pick(['', 'x', 'µ'])), t, float(r.int(-3, 3)), r.pick(['', 'halo', 'a/b', 'é']))


def same(a, b, what):
    ensure(type(a) is type(b), what + ': class')
    if isinstance(a, Leaf): ensure_eq(a.x, b.x, what); ensure(a.name == b.name, what + ': text', a.name)
    if isinstance(a, Node):
        same(a.leaf, b.leaf, what + ': leaf')
        ensure(isinstance(a.table, DataTable) and set(a.table) == set(b.table), what + ': columns')
        for k in b.table: ensure_eq(a.table[k], b.table[k], what + ': column ' + k)
        ensure(a.n == b.n and a.name == b.name, what + ': values', (a.n, a.name))
    if isinstance(a, Top):
        same(a.a, b.a, what + ': a'); same(a.b, b.b, what + ': b'); ensure_eq(a.x, b.x, what)


@contract('objects', 2)
def _(r):
    o = r.pick([lambda: node(r), lambda: Top(node(r), node(r), r.arr((2, 3), 0, 1)), lambda: Leaf(r.arr((3,), 0, 1), 'l')])()
    p = node(r)
    grp = '/' if r.bool() else 'g'
    r.note(kind=type(o).__name__, group=grp)
    with scratch() as d:
        path = d + '/o.h5'
        if grp == 'g':
            with h5.File(path, flag='x') as f: f.create_group('g')
            o.to_h5_file(path, group='g', f_flag='a')
        else: o.to_h5_file(path)
        same(type(o).from_h5_file(path, group=grp), o, 'from the file')
        ensure_raises(Exception, lambda: o.to_h5_file(path, group=grp), 'an existing file under the default flag')
        ensure_raises(Exception, lambda: o.to_h5_file(path, group=grp, f_flag='a'), 'existing members under the default flag')
        same(type(o).from_h5_file(path, group=grp), o, 'after refusals')
        with h5.File(path, flag='a') as f:
            g = f.create_group('other')
            p.to_h5_group(g)
            q = Node.from_h5_group(g)
            same(q, p, 'from a group'); ensure(q.extra is None, 'default argument')
            ensure(Node.from_h5_group(g, extra=7).extra == 7, 'argument given at loading')
            w = Node.from_h5_group(g, name='given', n=2.5)
            ensure(w.name == 'given' and w.n == 2.5, 'stored members given at loading', (w.name, w.n)); same(w.leaf, p.leaf, 'the other members')
            p.n = p.n + 1
            p.to_h5_group(g, flag='ac')
            same(Node.from_h5_group(g), p, 'after an overwriting dump')
        ensure(Leaf.from_h5_file(path, group=grp, name='given').name == 'given' if isinstance(o, Leaf) else True, 'stored member given at loading')
