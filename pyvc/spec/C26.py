"""C26: HDF5 creation flags.

Every operation is proved from an arbitrary state of the file (arbitrary links, kinds, contents and attributes), for every flag, so that
any history of operations is covered step by step.  h5py is used by the contracts of pyvc/h5model.py."""
from ..harness import *
from .. import ghost as G, loops as L, npm, h5model as H
from ..ghost import Name, Obj, NameS, ObjS
from ..h5model import World, kindF, hasF, childF, contentF, hasA, valA, DATASET, GROUP, OTHER

suite = Suite()
FLAGS = ('x', 'ac', 'ca')


def world(h):
    w = World(h)
    w.M = h.mod('io.h5.named_objs')
    w.raw = H.RawGroup(w, w.root)
    w.g = w.M.Group(w.raw)
    w.k = z3.Const('name', NameS)
    h.assume(z3.Not(G.slashF(w.k)))
    w.key = Name(w.k)
    w.v = Obj(z3.Const('data', ObjS))
    w.there = hasF(w.root, w.k)
    w.old = childF(w.root, w.k)
    w.oldk = kindF(w.old)
    h.assume(z3.And(w.oldk >= 0, w.oldk <= 2))
    h.assume(w.old != w.root)
    return w


def run(fn, *excs):
    try:
        return fn(), None
    except excs as e:
        return None, e


def same_file(h, w, label, links=True, content=True, attrs=True):
    """the parts of the file that have to be as before"""
    o, q = z3.Const('any_object', ObjS), z3.Const('any_name', NameS)
    if links:
        h.prove(f'{label}: no link changed', z3.BoolVal(not w.links.w))
    if content:
        h.prove(f'{label}: no content changed', z3.BoolVal(not w.content))
    if attrs:
        h.prove(f'{label}: no attribute changed', z3.BoolVal(not w.attrs.w and not w.made))


def only_added(h, w, label, kind):
    """the one change to the links: the name now refers to a new object of the given kind"""
    ok = len(w.links.w) == 1 and w.links.w[0][2] is not H.DEL
    h.prove(f'{label}: one link changed', z3.BoolVal(ok))
    if not ok: raise Unsupported('several link changes')
    g, q, o = w.links.w[0]
    h.prove(f'{label}: it is the one asked for', z3.And(g == w.root, q == w.k))
    h.prove(f'{label}: it did not exist', z3.Not(w.there))
    if kind is not None: h.prove(f'{label}: a new object of that kind', z3.And(kindF(o) == kind, o != w.old if kind is None else z3.BoolVal(True)))
    return o


def is_value(v, want):
    return z3.BoolVal(isinstance(v, Obj)) if not isinstance(v, Obj) else v.e == want.e


def refused(h, w, e, when, label='refused'):
    h.prove(f'{label}: exactly when it has to be', z3.BoolVal(e is not None) == when)
    if e is not None: same_file(h, w, label)


def flags(fn):
    for f in FLAGS: fn(f)
    return fn


@flags
def _(flag):
    @suite.case(f'dataset, flag {flag}', models=H.models)
    def _(h):
        w = world(h)
        out, e = run(lambda: w.g.datasets.create(w.key, w.v, flag=flag), ValueError)
        refused(h, w, e, z3.And(w.there, z3.BoolVal(True) if flag == 'x' else w.oldk != DATASET))
        if e is not None: return
        same_file(h, w, 'the rest', links=False, content=False)
        h.prove('one content written', z3.BoolVal(len(w.content) == 1))
        o, v = w.content[0]
        h.prove('it holds the data', is_value(v, w.v))
        if w.links.w: h.prove('a new dataset', o == only_added(h, w, 'created', DATASET))
        else: h.prove('the existing dataset is overwritten', z3.And(w.there, o == w.old))
        h.prove('the dataset is returned', z3.And(z3.BoolVal(type(out) is w.M.Dataset), out._raw.e == o))

    @suite.case(f'empty dataset, flag {flag}', models=H.models)
    def _(h):
        w = world(h)
        shape = (h.size('n'),)
        out, e = run(lambda: w.g.datasets.create_empty(w.key, shape, 'f8', flag=flag), ValueError)
        refused(h, w, e, z3.And(w.there, z3.BoolVal(True) if flag == 'x' else w.oldk != DATASET))
        if e is not None: return
        same_file(h, w, 'the rest', links=False, content=False)
        if w.links.w:
            o = only_added(h, w, 'created', DATASET)
            ok = len(w.content) == 1 and isinstance(w.content[0][1], tuple)
            h.prove('a new dataset of that shape and type', z3.And(z3.BoolVal(ok and w.content[0][1][2] == 'f8'), w.content[0][0] == o) if ok else z3.BoolVal(False))
            if ok: h.prove('its shape', C.lift(w.content[0][1][1][0]) == shape[0].e)
        else:
            o = w.old
            same_file(h, w, 'the existing dataset is kept')
            h.prove('it exists', w.there)
        h.prove('the dataset is returned', z3.And(z3.BoolVal(type(out) is w.M.Dataset), out._raw.e == o))

    @suite.case(f'group, flag {flag}', models=H.models)
    def _(h):
        w = world(h)
        out, e = run(lambda: w.g.create_group(w.key, flag=flag), ValueError)
        refused(h, w, e, z3.And(w.there, z3.BoolVal(True) if flag == 'x' else w.oldk != GROUP))
        if e is not None: return
        same_file(h, w, 'the rest', links=False)
        if w.links.w: o = only_added(h, w, 'created', GROUP)
        else:
            o = w.old
            h.prove('the existing group is kept', w.there)
        h.prove('the group is returned', z3.And(z3.BoolVal(type(out) is w.M.Group), out._raw.e == o))

    def link(what):
        @suite.case(f'{what} link, flag {flag}', models=H.models)
        def _(h):
            w = world(h)
            go = (lambda: w.g.create_soft_link(w.key, '/a', flag=flag)) if what == 'soft' else \
                (lambda: w.g.create_external_link(w.key, 'file.h5', '/a', flag=flag))
            out, e = run(go, ValueError)
            refused(h, w, e, z3.And(w.there, z3.BoolVal(flag == 'x')))
            if e is not None: return
            same_file(h, w, 'the rest', links=False)
            if w.links.w:
                o = only_added(h, w, 'created', None)
                t, l = w.linked[-1]
                ok = type(l) is (H.SoftLink if what == 'soft' else H.ExternalLink) and l.path == '/a' and (what == 'soft' or l.filename == 'file.h5')
                h.prove('the link asked for', z3.And(z3.BoolVal(ok), t == o))
            else: h.prove('the existing object is kept', w.there)
    link('soft')
    link('external')

    def attr(owner):
        @suite.case(f'attribute of a {owner}, flag {flag}', models=H.models)
        def _(h):
            w = world(h)
            a, o, there = attrs_of(h, w, owner)
            out, e = run(lambda: a.create(w.key, w.v, flag=flag), ValueError)
            refused(h, w, e, z3.And(there, z3.BoolVal(flag == 'x')))
            if e is not None: return
            same_file(h, w, 'the rest', attrs=False)
            one_attr(h, w, o)
            h.prove('it holds the data', is_value(w.attrs.w[0][2], w.v))
            h.prove('an existing attribute keeps its datatype', z3.Implies(there, z3.BoolVal(not w.made)))

        @suite.case(f'empty attribute of a {owner}, flag {flag}', models=H.models)
        def _(h):
            w = world(h)
            a, o, there = attrs_of(h, w, owner)
            n = h.size('n')
            out, e = run(lambda: a.create_empty(w.key, (n,), 'f8', flag=flag), ValueError)
            refused(h, w, e, z3.And(there, z3.BoolVal(flag == 'x')))
            if e is not None: return
            same_file(h, w, 'the rest', attrs=False)
            h.prove('kept when it exists, created when it does not', z3.BoolVal(len(w.attrs.w) == 1) == z3.Not(there))
            if w.attrs.w:
                one_attr(h, w, o)
                v = w.attrs.w[0][2]
                h.prove('of the shape and type asked for', z3.And(z3.BoolVal(isinstance(v, SArr) and v.ndim == 1 and v.dt.name == 'f8'), A.dz(v._shape[0]) == n.e))
    attr('dataset')
    attr('group')


def attrs_of(h, w, owner):
    o = z3.Const('owner', ObjS)
    h.assume(kindF(o) == (DATASET if owner == 'dataset' else GROUP))
    x = w.M.Dataset(H.RawDataset(w, o)) if owner == 'dataset' else w.M.Group(H.RawGroup(w, o))
    return x.attrs, o, hasA(o, w.k)


def one_attr(h, w, o):
    h.prove('one attribute changed', z3.BoolVal(len(w.attrs.w) == 1))
    if len(w.attrs.w) != 1: raise Unsupported('several attribute changes')
    g, q, v = w.attrs.w[0]
    h.prove('the one asked for', z3.And(g == o, q == w.k, z3.BoolVal(v is not H.DEL)))


def unknown(name, fn):
    @suite.case(f'unknown flag: {name}', models=H.models)
    def _(h):
        w = world(h)
        f = z3.Const('flag', NameS)
        for s in FLAGS: h.assume(f != G.literal(s))
        h.raises('refused', ValueError, lambda: fn(w, h, Name(f)))
        same_file(h, w, 'refused')


unknown('dataset', lambda w, h, f: w.g.datasets.create(w.key, w.v, flag=f))
unknown('empty dataset', lambda w, h, f: w.g.datasets.create_empty(w.key, (h.size('n'),), 'f8', flag=f))
unknown('group', lambda w, h, f: w.g.create_group(w.key, flag=f))
unknown('soft link', lambda w, h, f: w.g.create_soft_link(w.key, '/a', flag=f))
unknown('external link', lambda w, h, f: w.g.create_external_link(w.key, 'f', flag=f))
unknown('attribute', lambda w, h, f: w.g.attrs.create(w.key, w.v, flag=f))
unknown('empty attribute', lambda w, h, f: w.g.attrs.create_empty(w.key, (h.size('n'),), 'f8', flag=f))


def default(name, fn, kinds):
    @suite.case(f'the exclusive flag is the default: {name}', models=H.models)
    def _(h):
        w = world(h)
        h.assume(w.there)
        h.assume(hasA(w.root, w.k))
        h.raises('refused', ValueError, lambda: fn(w, h))
        same_file(h, w, 'refused')


default('dataset', lambda w, h: w.g.datasets.create(w.key, w.v), None)
default('empty dataset', lambda w, h: w.g.datasets.create_empty(w.key, (h.size('n'),), 'f8'), None)
default('group', lambda w, h: w.g.create_group(w.key), None)
default('soft link', lambda w, h: w.g.create_soft_link(w.key, '/a'), None)
default('external link', lambda w, h: w.g.create_external_link(w.key, 'f'), None)
default('attribute', lambda w, h: w.g.attrs.create(w.key, w.v), None)
default('empty attribute', lambda w, h: w.g.attrs.create_empty(w.key, (h.size('n'),), 'f8'), None)


@suite.case('assigning to a dataset by key', models=H.models)
def _(h):
    w = world(h)
    out, e = run(lambda: w.g.datasets.__setitem__(w.key, w.v), KeyError)
    refused(h, w, e, z3.Not(z3.And(w.there, w.oldk == DATASET)), 'KeyError')
    if e is not None: return
    same_file(h, w, 'the rest', content=False)
    h.prove('the content of that dataset', z3.And(z3.BoolVal(len(w.content) == 1), w.content[0][0] == w.old, is_value(w.content[0][1], w.v)))


@suite.case('assigning to an attribute by key', models=H.models)
def _(h):
    w = world(h)
    a, o, there = attrs_of(h, w, 'group')
    out, e = run(lambda: a.__setitem__(w.key, w.v), KeyError)
    refused(h, w, e, z3.Not(there), 'KeyError')
    if e is not None: return
    same_file(h, w, 'the rest', attrs=False)
    one_attr(h, w, o)
    h.prove('it holds the data', is_value(w.attrs.w[0][2], w.v))
    h.prove('it keeps its datatype', z3.BoolVal(not w.made))


# ------------------------------------------------------------------ opening files
def file_world(h):
    w = World(h)
    w.ex = z3.Bool('file_exists')
    w.opened = []

    def File(path, mode='r', *a, **k):
        """h5py.File: what each mode does to an existing and to a missing file"""
        if a or k or str(path) != 'the_file': raise Unsupported('h5py.File with other arguments')
        ex = CTX.branch(w.ex)
        if mode in ('r', 'r+'):
            if not ex: raise H.NoFile(path)
            w.opened.append(('kept', mode == 'r+'))
        elif mode in ('x', 'w-'):
            if ex: raise H.FileThere(path)
            w.opened.append(('created', True))
        elif mode == 'w': w.opened.append(('truncated' if ex else 'created', True))
        elif mode == 'a': w.opened.append(('kept' if ex else 'created', True))
        else: raise H.BadMode(mode)
        w.file = H.RawFile(w, w.root)
        return w.file
    h.ld.models['h5py'].__dict__['File'] = File
    w.M = h.mod('io.h5.named_objs')
    return w


WANT = {'r': ('kept', None, False), 'a': ('kept', None, True), 'x': (None, 'created', True), 'ac': ('kept', 'created', True),
        'ca': ('kept', 'created', True), 'w': ('truncated', 'created', True)}
for fl_ in WANT:
    def _(flag=fl_):
        @suite.case(f'opening a file, flag {flag}', models=H.models)
        def _(h):
            w = file_world(h)
            f, e = run(lambda: w.M.File('the_file', flag), OSError)
            there, missing, write = WANT[flag]
            h.prove('refused exactly when it has to be', z3.BoolVal(e is not None) == (w.ex if there is None else z3.BoolVal(False) if missing is not None else z3.Not(w.ex)))
            if e is not None:
                h.prove('nothing was opened', z3.BoolVal(not w.opened))
                return
            ok = len(w.opened) == 1
            h.prove('opened once', z3.BoolVal(ok))
            if ok:
                how, wr = w.opened[0]
                h.prove('what happens to an existing and to a missing file', z3.If(w.ex, z3.BoolVal(how == there), z3.BoolVal(how == missing)))
                h.prove('writable or not', z3.BoolVal(wr == write))
            h.prove('the file itself', z3.BoolVal(f._raw is w.file))
            with f: pass
            h.prove('closed afterwards', z3.BoolVal(w.file.closed))
    _()


@suite.case('files are opened read-only by default', models=H.models)
def _(h):
    w = file_world(h)
    h.assume(w.ex)
    f = w.M.File('the_file')
    h.prove('read-only', z3.BoolVal(w.opened == [('kept', False)]))


@suite.case('unknown file flag', models=H.models)
def _(h):
    w = file_world(h)
    f = z3.Const('flag', NameS)
    for s in WANT: h.assume(f != G.literal(s))
    h.raises('refused', ValueError, lambda: w.M.File('the_file', Name(f)))
    h.prove('nothing was opened', z3.BoolVal(not w.opened))


# ------------------------------------------------------------------ a text table written to datasets
def text_world(h):
    w = World(h)
    w.M = h.mod('io.h5.named_objs')
    w.T = h.mod('io.h5.shortcuts')
    w.log = L.MList()
    n = w.n = h.int('n_fields', lo=0)
    field, col = w.field, w.col = z3.Function('field', I, NameS), z3.Function('column', NameS, ObjS)
    i = CTX.index_var('f')

    class Table:
        class dtype: names = L.MList([L.Seg(A.dim(n), i, Name(field(i)))])
        def __getitem__(self, k): return Obj(col(G.name_expr(k)))

    def loadtxt(f, dtype=None, **k):
        if f != 'table.txt' or k: raise Unsupported('numpy.loadtxt with other arguments')
        return Table()
    h.ld.models['numpy'].loadtxt = loadtxt
    npm.trust('numpy.loadtxt: a table whose fields are named by the data type')

    class Sets:
        def create(self, key, data, flag='x'):
            w.log.append((Name(G.name_expr(key)), data, flag))
    CTX.used_contracts.add('DatasetManager.create')

    class Grp(w.M.Group):
        @property
        def datasets(self): return Sets()
        closed = False
        def __enter__(self): return self
        def __exit__(self, *a): self.closed = True
    w.g = Grp(H.RawGroup(w, w.root))
    w.opened = []

    def File(path, flag='r'):
        w.opened.append((str(path), flag))
        return w.g
    h.replace('io.h5.shortcuts', 'File', File)
    return w


def text_log(h, w, flag):
    items = list(list.__iter__(w.log))
    h.prove('one dataset per field', z3.BoolVal(len(items) == 1 and isinstance(items[0], L.Seg)))
    if len(items) != 1 or not isinstance(items[0], L.Seg): return
    h.prove('as many as fields', A.dz(items[0].n) == w.n.e)
    j = h.idx(w.n, 'j')
    k, v, f = items[0].at(j.e)
    h.prove('named after the field', k.e == w.field(j.e))
    h.prove('holding its column', v.e == w.col(w.field(j.e)))
    h.prove('with the dataset flag', z3.BoolVal(f == flag))


for fl_ in FLAGS:
    def _(flag=fl_):
        @suite.case(f'text table into a group, flag {flag}', models=H.models)
        def _(h):
            w = text_world(h)
            w.T.txt_to_h5('table.txt', w.g, 'f8', d_flag=flag)
            text_log(h, w, flag)
            h.prove('the group stays open', z3.BoolVal(not w.opened and not w.g.closed))

        @suite.case(f'text table into a file, flag {flag}', models=H.models)
        def _(h):
            w = text_world(h)
            w.T.txt_to_h5('table.txt', 'out.h5', 'f8', d_flag=flag, f_flag='ac')
            text_log(h, w, flag)
            h.prove('the file is opened with the file flag and closed', z3.BoolVal(w.opened == [('out.h5', 'ac')] and w.g.closed))
    _()
