"""C25: nested dictionaries in HDF5 files.

By induction over the nesting depth: the recursive call of each function is replaced by its contract, and the function is proved for a
dictionary (a group) with any number of arbitrary entries.  Destination keys are any string with any number of pieces.  h5py is used by
the contracts of pyvc/h5model.py; what creation does is proved for C26."""
from ..harness import *
from .. import ghost as G, loops as L, npm, h5model as H
from ..ghost import GhostMap, Name, Obj, NameS, ObjS
from ..h5model import World, kindF, hasF, childF, contentF, hasA, valA, DATASET, GROUP, OTHER
from .C01 import Key, pieceF, npieceF, lenF, value_of, holds

suite = Suite()
MAPPING, STR, BYTES, ARRAY, SCALAR, REST = range(6)
vkind = z3.Function('value_kind', ObjS, I)
supF = z3.Function('supported', ObjS, B)
isstr = z3.Function('is_str', NameS, B)


class Val(Obj):
    """a value of a dictionary: a mapping, a string, bytes, an array, another scalar, or anything else"""

    def is_(self, *ks): return CTX.branch(z3.Or(*[vkind(self.e) == k for k in ks]))

    def __pv_isinstance__(self, t):
        from collections.abc import Mapping
        import typing
        if t in (Mapping, typing.Mapping): return self.is_(MAPPING)
        if t is str: return self.is_(STR)
        if t is bytes: return self.is_(BYTES)
        if getattr(t, '__name__', '') == 'ndarray' or t is SArr: return self.is_(ARRAY)
        if t is object: return True
        raise Unsupported(f'type test {t} of an arbitrary value')

    def __pv_isscalar__(self): return self.is_(STR, BYTES, SCALAR)


class AnyKey(Name):
    """a key of any type, perhaps a string"""

    def __pv_isinstance__(self, t):
        if t is str: return CTX.branch(isstr(self.e))
        raise Unsupported(f'type test {t} of a key')


def dictionary(h, tag, key=AnyKey, strings=False):
    """a mapping with any entries"""
    n = h.int(f'n_{tag}', lo=0)
    kf, vf, place = z3.Function(f'{tag}.key', I, NameS), z3.Function(f'{tag}.val', I, ObjS), z3.Function(f'{tag}.place', NameS, I)
    C.add_templ(kf, lambda t: [place(t) == t.arg(0), z3.Not(G.slashF(t))])
    C.add_templ(vf, lambda t: [z3.And(vkind(t) >= 0, vkind(t) <= REST)])
    has = lambda k: z3.And(place(k) >= 0, place(k) < n.e, kf(place(k)) == k)
    m = GhostMap(tag, P=has, V=lambda k: Val(vf(place(k))), seq=(A.dim(n), lambda q: key(kf(q)), lambda q: Val(vf(q))))
    m.place = place
    return m, n, kf, vf


def world(h):
    w = World(h)
    old = h.ld.models['numpy'].isscalar
    h.ld.models['numpy'].isscalar = lambda x: x.__pv_isscalar__() if isinstance(x, Val) else old(x)
    w.M, w.U = h.mod('io.h5.named_objs'), h.mod('io.h5.utils')
    CTX.ghost_dicts = True
    return w


# ------------------------------------------------------------------ which dictionaries are supported
def check_contract(w):
    """the recursive call: whether the nested dictionary is supported, and a hint"""
    full = w.U.Utils.is_data_dict_supported
    hint = z3.Function('hint', ObjS, NameS)

    def stub(d):
        if isinstance(d, GhostMap): return full(d)
        CTX.used_contracts.add('Utils.is_data_dict_supported of a nested dictionary')
        CTX.side('the recursive call is about a mapping', vkind(d.e) == MAPPING)
        ok = CTX.branch(supF(d.e))
        return (True, None) if ok else (False, Name(hint(d.e)))
    w.U.Utils.is_data_dict_supported = staticmethod(stub)
    return full


def good(kf, vf, t): return z3.And(isstr(kf(t)), z3.If(vkind(vf(t)) == MAPPING, supF(vf(t)), vkind(vf(t)) != REST))


@suite.case('a dictionary whose entries are all supported passes the check', models=H.models)
def _(h):
    w = world(h)
    full = check_contract(w)
    m, n, kf, vf = dictionary(h, 'd')
    C.add_templ(vf, lambda t: [z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < n.e), good(kf, vf, t.arg(0)))])
    C.add_templ(kf, lambda t: [z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < n.e), good(kf, vf, t.arg(0)))])
    r = full(m)
    h.prove('passes', z3.BoolVal(r[0] is True))


@suite.case('a dictionary with an unsupported entry does not pass', models=H.models)
def _(h):
    w = world(h)
    full = check_contract(w)
    m, n, kf, vf = dictionary(h, 'd')
    q = h.idx(n, 'q')
    h.assume(z3.Not(good(kf, vf, q.e)))
    CTX.hints.append(lambda hav, stat, vs: [('i<=q', lambda st: st['@i'].e <= q.e)])
    r = full(m)
    h.prove('does not pass', z3.BoolVal(r[0] is False))


@suite.case('what is no mapping does not pass', models=H.models)
def _(h):
    w = world(h)
    v = Val(z3.Const('v', ObjS))
    h.assume(vkind(v.e) != MAPPING)
    r = w.U.Utils.is_data_dict_supported(v)
    h.prove('does not pass', z3.BoolVal(r[0] is False))


# ------------------------------------------------------------------ dumping
class Rec:
    """one entry written: under a name, a dataset holding a value or a group holding a dumped mapping"""

    def __init__(self, k, v, group, flags): self.k, self.v, self.group, self.flags = k, v, group, flags
    def __pv_subst__(self, i, e):
        s = lambda x: z3.substitute(x, (i, e))
        return Rec(s(self.k), s(self.v), s(self.group), s(self.flags))
    def __pv_ite__(self, c, o):
        f = lambda a, b: z3.If(c, a, b)
        return Rec(f(self.k, o.k), f(self.v, o.v), f(self.group, o.group), f(self.flags, o.flags))


def dump_world(h, flag):
    w = world(h)
    w.log = L.MList()
    w.checked = []
    sup = w.sup = z3.Bool('all_supported')

    def check(d):
        CTX.used_contracts.add('Utils.is_data_dict_supported')
        CTX.side('the dictionary itself is checked', z3.BoolVal(d is w.d))
        w.checked.append(len(w.log))
        return (True, None) if CTX.branch(sup) else (False, Name(z3.Const('hint', NameS)))
    w.U.Utils.is_data_dict_supported = staticmethod(check)

    def value(v):
        if not isinstance(v, Val): raise Unsupported('value of another kind')
        return v.e

    class Sub:
        """the group a nested dictionary is dumped to: the recursive call by contract"""
        def __init__(self, k, flag): self.k, self.fl = k, flag
        def dump(self, v, flag='x'):
            CTX.used_contracts.add('Group.dump of a nested dictionary')
            w.log.append(Rec(self.k, value(v), z3.BoolVal(True), z3.BoolVal(self.fl == w.flag and flag == w.flag)))

    class Sets:
        def create(self, key, data, flag='x'):
            CTX.used_contracts.add('DatasetManager.create')
            w.log.append(Rec(G.name_expr(key), value(data), z3.BoolVal(False), z3.BoolVal(flag == w.flag)))

    class Grp(w.M.Group):
        def create_group(self, key, flag='x'):
            CTX.used_contracts.add('Group.create_group')
            return Sub(G.name_expr(key), flag)
        @property
        def datasets(self): return Sets()
    w.g = Grp(H.RawGroup(w, w.root))
    w.flag = flag or 'x'
    return w


for fl_ in ('x', 'ac', None):
    def _(flag=fl_):
        @suite.case(f'dumping a dictionary, {"default flag" if flag is None else "flag " + flag}', models=H.models)
        def _(h):
            w = dump_world(h, flag)
            w.d, n, kf, vf = dictionary(h, 'd', Name)
            try:
                w.g.dump(w.d, **({} if flag is None else {'flag': flag}))
            except TypeError:
                h.prove('refused exactly when it is not supported', z3.Not(w.sup))
                h.prove('nothing was written', z3.BoolVal(len(w.log) == 0 and w.untouched()))
                return
            h.prove('accepted exactly when it is supported', w.sup)
            h.prove('the check comes first', z3.BoolVal(w.checked[:1] == [0]))
            items = list(list.__iter__(w.log))
            h.prove('one object per entry', z3.BoolVal(len(items) == 1 and isinstance(items[0], L.Seg) and w.untouched()))
            if len(items) != 1 or not isinstance(items[0], L.Seg): return
            h.prove('as many as entries', A.dz(items[0].n) == n.e)
            j = h.idx(n, 'j')
            r = items[0].at(j.e)
            h.prove('under the name of the entry', r.k == kf(j.e))
            h.prove('holding the value of the entry', r.v == vf(j.e))
            h.prove('a group for a mapping, a dataset for anything else', r.group == (vkind(vf(j.e)) == MAPPING))
            h.prove('with the flag given', r.flags)
    _()


# ------------------------------------------------------------------ loading
loadedF = z3.Function('loaded', ObjS, ObjS)


def listed(h, w, kinds=True):
    """the root group has any number of entries, listed by name"""
    n = w.n = h.int('n_entries', lo=0)
    nm, place = w.nm, w.place = z3.Function('entry', I, NameS), z3.Function('entry.place', NameS, I)
    C.add_templ(nm, lambda t: [z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < n.e), z3.And(hasF(w.root, t), place(t) == t.arg(0), z3.Not(G.slashF(t))))])
    w.h5_listing = lambda e: (A.dim(n), lambda q: Name(nm(q))) if e.eq(w.root) else (_ for _ in ()).throw(Unsupported('listing of another group'))
    C.add_templ(hasF, lambda t: [z3.Implies(z3.And(t, t.arg(0) == w.root), z3.And(place(t.arg(1)) >= 0, place(t.arg(1)) < n.e, nm(place(t.arg(1))) == t.arg(1)))])
    C.add_templ(childF, lambda t: [z3.Or(kindF(t) == DATASET, kindF(t) == GROUP)])
    CTX.name_hints.append(place)
    npm.trust('h5py: keys() of a group lists the names of its links, each once')


class Loaded(Obj):
    pass


def load_world(h):
    w = world(h)
    listed(h, w)
    w.full = w.M.Group.load
    w.g = w.M.Group(H.RawGroup(w, w.root))

    def load(self):
        CTX.used_contracts.add('Group.load of a subgroup')
        return Loaded(loadedF(self._raw.e))
    w.M.Group.load = load
    return w


@suite.case('loading a group', models=H.models)
def _(h):
    w = load_world(h)
    k = z3.Const('any_name', NameS)
    CTX.elem_hints.append(w.place(k))
    d = w.full(w.g)
    h.prove('a data dictionary', z3.BoolVal(type(d).__name__ == 'DataDict'))
    h.prove('the file is as before', z3.BoolVal(w.untouched()))
    m = value_of(d)
    h.prove('the names are those of the group', m.has(k) == hasF(w.root, k))
    o = childF(w.root, k)
    fs = []
    for cond, v in m.alternatives(k):
        ok = type(v) in (Obj, Loaded)
        fs.append(z3.Implies(cond, z3.And(z3.BoolVal(ok), v.e == (loadedF(o) if type(v) is Loaded else contentF(o)), (kindF(o) == GROUP) == z3.BoolVal(type(v) is Loaded)) if ok else z3.BoolVal(False)))
    h.prove('the values: contents of datasets, subgroups loaded likewise', z3.Implies(hasF(w.root, k), z3.And(*fs)))


@suite.case('listing a group', models=H.models)
def _(h):
    w = load_world(h)
    k = z3.Const('any_name', NameS)
    h.prove('length', C.lift(h.ld.models['builtins_len'](w.g) if 'builtins_len' in h.ld.models else type(w.g).__len__(w.g)) == w.n.e)
    h.prove('membership', z3.BoolVal(type(w.g).__contains__(w.g, Name(k))) == hasF(w.root, k))
    ks = w.g.keys()
    j = h.idx(w.n, 'j')
    h.prove('as many keys', C.lift(type(ks).__len__(ks)) == w.n.e)
    h.prove('the j-th key', type(ks).__getitem__(ks, j).e == w.nm(j.e))
    its = w.g.items()
    k2, v2 = L.seg_getitem(its, j) if isinstance(its, L.MList) else its.item(j.e)
    h.prove('items: the name', k2.e == w.nm(j.e))
    h.prove('items: the object', v2._raw.e == childF(w.root, w.nm(j.e)))
    h.prove('items: of its kind', z3.BoolVal(type(v2.pick() if isinstance(v2, L.Alt) else v2) is w.M.Dataset) == (kindF(childF(w.root, w.nm(j.e))) == DATASET))


@suite.case('an entry by its path', models=H.models)
def _(h):
    w = world(h)
    g = w.M.Group(H.RawGroup(w, w.root))
    k = z3.Const('path', NameS)
    C.add_templ(childF, lambda t: [z3.Or(kindF(t) == DATASET, kindF(t) == GROUP)])
    o = childF(w.root, k)
    try:
        v = g[Name(k)]
    except KeyError:
        h.prove('KeyError exactly when it is missing', z3.Not(hasF(w.root, k)))
        return
    h.prove('it exists', hasF(w.root, k))
    h.prove('the object itself', v._raw.e == o)
    h.prove('as a dataset or a group', z3.BoolVal(type(v) is w.M.Dataset) == (kindF(o) == DATASET))
    if type(v) is w.M.Dataset: h.prove('its content', v[()].e == contentF(o))


@suite.case('several entries at once', models=H.models)
def _(h):
    w = world(h)
    g = w.M.Group(H.RawGroup(w, w.root))
    a, b_ = z3.Const('path_a', NameS), z3.Const('path_b', NameS)
    C.add_templ(childF, lambda t: [z3.Or(kindF(t) == DATASET, kindF(t) == GROUP)])
    for q in (a, b_): h.assume(hasF(w.root, q))
    v = g[Name(a), Name(b_)]
    h.prove('one after the other', z3.And(z3.BoolVal(type(v) is tuple and len(v) == 2), v[0]._raw.e == childF(w.root, a), v[1]._raw.e == childF(w.root, b_)))


# ------------------------------------------------------------------ destination keys
openedF = z3.Function('opened', ObjS, NameS, ObjS)
FLAGS = ('x', 'ac', 'ca')


class GRec:
    """one request for a group"""

    def __init__(self, parent, name, flag): self.parent, self.name, self.flag = parent, name, flag
    def __pv_subst__(self, i, e):
        s = lambda x: z3.substitute(x, (i, e))
        return GRec(s(self.parent), s(self.name), self.flag)
    def __pv_ite__(self, c, o):
        if self.flag != o.flag: raise Unsupported('flags depending on conditions')
        return GRec(z3.If(c, self.parent, o.parent), z3.If(c, self.name, o.name), self.flag)


class HChain:
    def __init__(self, make, decl): self.make, self.decl = make, decl
    def at(self, i): return self.make(self.decl(i))


def dest_world(h, create_parent):
    """an arbitrary file, an arbitrary string as the key; groups by contract"""
    w = world(h)
    w.log, w.calls, w.opened, w.closed = L.MList(), [], [], []
    dump_to = w.M.File.dump_to
    real = w.M.Group

    class Sets:
        def __init__(self, e): self.e = e
        def create(self, key, data, flag='x'):
            CTX.used_contracts.add('DatasetManager.create')
            w.calls.append(('dataset', self.e, G.name_expr(key), data, flag))

    class Grp(real):
        def __init__(self, e): self.e = e
        def __hash__(self): return 31
        def __pv_same__(self, o): return self.e == o.e
        def __pv_subst__(self, i, e): return Grp(z3.substitute(self.e, (i, e)))
        def __pv_ite__(self, c, o): return Grp(z3.If(c, self.e, o.e))
        def __pv_isinstance__(self, t): return CTX.branch(kindF(self.e) == GROUP) if t is real else None
        def __enter__(self): return self
        def __exit__(self, *a): w.closed.append(self)

        def create_group(self, key, flag='x'):
            """open or create (flags ac, ca), create (x); ValueError for what is in the way"""
            CTX.used_contracts.add('Group.create_group')
            k = G.name_expr(key)
            if flag not in FLAGS: raise Unsupported('flag')
            c = childF(self.e, k)
            if CTX.branch(hasF(self.e, k)) and (flag == 'x' or not CTX.branch(kindF(c) == GROUP)): raise H.NameTaken(k)
            w.log.append(GRec(self.e, k, flag))
            return Grp(openedF(self.e, k))

        def __getitem__(self, key):
            CTX.used_contracts.add('Group.__getitem__')
            k = G.name_expr(key)
            if not CTX.branch(hasF(self.e, k)): raise H.NoName(k)
            return Grp(childF(self.e, k))

        @property
        def datasets(self): return Sets(self.e)
        def dump(self, data, flag='x'):
            CTX.used_contracts.add('Group.dump')
            w.calls.append(('dump', self.e, None, data, flag))
    C.add_templ(openedF, lambda t: [kindF(t) == GROUP, z3.Implies(z3.And(hasF(*t.children()), kindF(childF(*t.children())) == GROUP), t == childF(*t.children()))])
    C.add_templ(hasF, lambda t: [z3.Implies(z3.And(t.arg(0).decl().eq(openedF), t), hasF(*t.arg(0).children()))] if z3.is_app(t.arg(0)) and t.arg(0).decl().eq(openedF) else [])

    def File(path, flag='r'):
        w.opened.append((path, flag))
        return Grp(w.root)
    h.replace('io.h5.named_objs', 'File', File)
    # the key and the names it spells: its non-empty pieces
    npm.trust("str.split('/'): the pieces between the slashes, in order, none of which has a slash")
    k = w.key = z3.Const('key', NameS)
    C.add_templ(pieceF, lambda t: [z3.Not(G.slashF(t)), lenF(t) >= 0])
    CTX.assume(npieceF(k) >= 1)
    mask = A.new_arr((npieceF(k),), 'b1', lambda ix: lenF(pieceF(k, ix[0])) > 0)
    rec, pv, _ = npm.compress_family(mask)
    w.n = z3.simplify(rec.cnt(pv))
    CTX.assume(z3.And(w.n >= 0, w.n <= npieceF(k)), True)
    w.seg = lambda i: pieceF(k, rec.sigma(*pv, i))
    W = w.W = z3.Function('parent', I, ObjS)
    step = openedF if create_parent else childF
    C.add_templ(W, lambda t: [z3.Implies(t.arg(0) == 0, t == w.root)])
    C.add_pair(W, lambda a, c: [z3.Implies(z3.And(a.arg(0) >= 0, c.arg(0) == a.arg(0) + 1, a.arg(0) < w.n - 1), c == step(a, w.seg(a.arg(0))))])
    CTX.assume(W(0) == w.root)
    CTX.folds.append(HChain(Grp, W))
    w.data = Val(z3.Const('data', ObjS))
    CTX.assume(z3.And(vkind(w.data.e) >= 0, vkind(w.data.e) <= REST))
    w.go = lambda **kw: dump_to('the_file', w.data, **kw)
    return w


def closing(h, w, f_flag='ac'):
    h.prove('the file is opened with the file flag and closed', z3.BoolVal(w.opened == [('the_file', f_flag)] and len(w.closed) == 1))


@suite.case('dumping without a key', models=H.models)
def _(h):
    w = dest_world(h, True)
    w.go(dump_flag='ca', f_flag='w')
    closing(h, w, 'w')
    ok = len(w.calls) == 1 and len(w.log) == 0
    h.prove('one dump', z3.BoolVal(ok))
    if ok: h.prove('of the data to the root', z3.And(z3.BoolVal(w.calls[0][0] == 'dump' and w.calls[0][3] is w.data and w.calls[0][4] == 'ca'), w.calls[0][1] == w.root))


@suite.case('dumping under the root key', models=H.models)
def _(h):
    w = dest_world(h, True)
    h.assume(w.n == 0)
    w.go(key=Key(w.key), dump_flag='ca')
    closing(h, w)
    ok = len(w.calls) == 1 and len(w.log) == 0
    h.prove('one dump', z3.BoolVal(ok))
    if ok: h.prove('of the data to the root', z3.And(z3.BoolVal(w.calls[0][0] == 'dump' and w.calls[0][3] is w.data and w.calls[0][4] == 'ca'), w.calls[0][1] == w.root))


def wanted(w, create_parent):
    """no object in the way"""
    W, seg, n = w.W, w.seg, w.n
    if create_parent:
        C.add_templ(W, lambda t: [z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < n - 1, hasF(t, seg(t.arg(0)))), kindF(childF(t, seg(t.arg(0)))) == GROUP)])
    else:
        C.add_templ(W, lambda t: [z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < n - 1), z3.And(hasF(t, seg(t.arg(0))), kindF(childF(t, seg(t.arg(0)))) == GROUP))])
    CTX.assume(W(z3.simplify(n - 1)) == W(z3.simplify(n - 1)))


for cp_ in (True, False):
    def _(cp=cp_):
        tag = 'missing parents created' if cp else 'existing parents required'

        @suite.case(f'dumping under a key, {tag}', models=H.models)
        def _(h):
            w = dest_world(h, cp)
            h.assume(w.n >= 1)
            wanted(w, cp)
            last = z3.simplify(w.n - 1)
            P, k = w.W(last), w.seg(last)
            mapping = vkind(w.data.e) == MAPPING
            h.assume(z3.Implies(mapping, z3.Or(z3.Not(hasF(P, k)))))
            kw = {} if cp else {'create_parent': False}
            w.go(key=Key(w.key), g_flag='x', dump_flag='ca', **kw)
            closing(h, w)
            recs = list(list.__iter__(w.log))
            j = CTX.skolem('j', I)
            CTX.assume(z3.And(j >= 0, j < last)); CTX.elem_hints.append(j)
            if cp:
                ok = len(recs) >= 1 and isinstance(recs[0], L.Seg)
                h.prove('parents are opened or created', z3.BoolVal(ok))
                if not ok: return
                s = recs.pop(0)
                h.prove('one per leading name', A.dz(s.n) == last)
                r = s.at(j)
                h.prove('each under the one before', z3.And(r.parent == w.W(j), r.name == w.seg(j), z3.BoolVal(r.flag in ('ac', 'ca'))))
            c = w.calls[0] if len(w.calls) == 1 else None
            h.prove('one thing is dumped', z3.BoolVal(c is not None))
            if c is None: return
            h.prove('the data, with the dump flag', z3.BoolVal(c[3] is w.data and c[4] == 'ca'))
            if c[0] == 'dump':
                h.prove('a group for a mapping', mapping)
                ok = len(recs) == 1 and isinstance(recs[0], GRec)
                h.prove('one group for the last name', z3.BoolVal(ok))
                if ok:
                    r = recs[0]
                    h.prove('under the last parent, with the group flag', z3.And(r.parent == P, r.name == k, z3.BoolVal(r.flag == 'x')))
                    h.prove('the mapping is dumped to it', c[1] == openedF(P, k))
            else:
                h.prove('a dataset for anything else', z3.Not(mapping))
                h.prove('no further group', z3.BoolVal(not recs))
                h.prove('under the last parent and name', z3.And(c[1] == P, c[2] == k))

        @suite.case(f'dumping under a key whose parent is no group, {tag}', models=H.models)
        def _(h):
            w = dest_world(h, cp)
            h.assume(w.n >= 1)
            q = CTX.skolem('q', I)
            c = childF(w.W(q), w.seg(q))
            CTX.assume(z3.And(q >= 0, q < w.n - 1, hasF(w.W(q), w.seg(q)), kindF(c) != GROUP)); CTX.elem_hints.append(q)
            CTX.assume(w.W(q + 1) == w.W(q + 1))
            kw = {} if cp else {'create_parent': False}
            # without creation, what is no group may fail in its own way one level deeper
            h.raises('refused', (ValueError,) if cp else (ValueError, KeyError, TypeError), lambda: w.go(key=Key(w.key), **kw))
            h.prove('nothing is dumped', z3.BoolVal(not w.calls))
            h.prove('the file is closed', z3.BoolVal(len(w.closed) == 1))
    _()


@suite.case('a missing parent is an error when parents are required', models=H.models)
def _(h):
    w = dest_world(h, False)
    h.assume(w.n >= 1)
    q = CTX.skolem('q', I)
    CTX.assume(z3.And(q >= 0, q < w.n - 1, z3.Not(hasF(w.W(q), w.seg(q))))); CTX.elem_hints.append(q)
    CTX.assume(w.W(q + 1) == w.W(q + 1))
    h.raises('refused', (ValueError, KeyError), lambda: w.go(key=Key(w.key), create_parent=False))
    h.prove('nothing is dumped and no group created', z3.BoolVal(not w.calls and len(w.log) == 0))


def load_from_world(h):
    w = load_world(h)
    w.opened = []

    def File(path, mode='r'):
        w.opened.append((path, mode))
        w.file = H.RawFile(w, w.root)
        return w.file
    h.ld.models['h5py'].__dict__['File'] = File
    return w


@suite.case('loading a file', models=H.models)
def _(h):
    w = load_from_world(h)
    out = w.M.File.load_from('the_file')
    h.prove('the root group, loaded', z3.And(z3.BoolVal(type(out) is Loaded), out.e == loadedF(w.root)))
    h.prove('opened for reading and closed', z3.BoolVal(w.opened == [('the_file', 'r')] and w.file.closed))


@suite.case('loading a group or dataset by its path', models=H.models)
def _(h):
    w = load_from_world(h)
    k = z3.Const('path', NameS)
    o = childF(w.root, k)
    try:
        out = w.M.File.load_from('the_file', Name(k))
    except KeyError:
        h.prove('KeyError exactly when it is missing', z3.Not(hasF(w.root, k)))
        return
    h.prove('it exists', hasF(w.root, k))
    grp = type(out) is Loaded
    h.prove('a group is loaded, a dataset read', z3.BoolVal(grp) == (kindF(o) == GROUP))
    h.prove('the object of that path', out.e == (loadedF(o) if grp else contentF(o)))
    h.prove('opened for reading and closed', z3.BoolVal(w.opened == [('the_file', 'r')] and w.file.closed))


# ------------------------------------------------------------------ attributes and datasets
def attr_world(h):
    w = world(h)
    o = w.o = z3.Const('owner', ObjS)
    n = w.n = h.int('n_attrs', lo=0)
    nm, place = w.nm, w.place = z3.Function('attr.entry', I, NameS), z3.Function('attr.place', NameS, I)
    C.add_templ(nm, lambda t: [z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < n.e), z3.And(hasA(o, t), place(t) == t.arg(0)))])
    C.add_templ(hasA, lambda t: [z3.Implies(z3.And(t, t.arg(0) == o), z3.And(place(t.arg(1)) >= 0, place(t.arg(1)) < n.e, nm(place(t.arg(1))) == t.arg(1)))])
    w.attr_listing = lambda e: (A.dim(n), lambda q: Name(nm(q)))
    npm.trust('h5py: keys() of attributes lists their names, each once')
    w.a = w.M.Group(H.RawGroup(w, o)).attrs
    return w


class Pattern:
    """a compiled pattern: which names it matches at their beginning is arbitrary"""
    matchF = z3.Function('matches', NameS, B)
    searchF = z3.Function('found_somewhere', NameS, B)
    fullF = z3.Function('matches_all', NameS, B)

    class M:
        def __init__(self, c): self.c = c
        def __bool__(self): return CTX.branch(self.c)
    def match(self, k): return self.M(self.matchF(G.name_expr(k)))
    def search(self, k): return self.M(self.searchF(G.name_expr(k)))
    def fullmatch(self, k): return self.M(self.fullF(G.name_expr(k)))


def pattern(h, w):
    class re:
        @staticmethod
        def compile(p):
            if p != 'pattern': raise Unsupported('another pattern')
            return Pattern()
        match = staticmethod(lambda p, k: Pattern().match(k))
        search = staticmethod(lambda p, k: Pattern().search(k))
        fullmatch = staticmethod(lambda p, k: Pattern().fullmatch(k))
    h.replace('io.h5.utils', 're', re)
    npm.trust('re: a pattern either matches the beginning of a name or not')


def ranks(k, start):
    """positions of a listed name in the selections made"""
    hs = [start]
    for cnt, rec, pv, n in list(CTX.compress_reg.values()): hs += [rec.rho(*pv, x) for x in hs]
    CTX.elem_hints += hs


def loaded_map(h, w, d, k, has, val, start):
    h.prove('a data dictionary', z3.BoolVal(type(d).__name__ == 'DataDict'))
    ranks(k, start)
    m = value_of(d)
    h.prove('the names', m.has(k) == has)
    fs = [z3.Implies(c, (v() if callable(v) else v).e == val) for c, v in m.alternatives(k)]
    h.prove('the values', z3.Implies(has, z3.And(*fs)))
    h.prove('the file is as before', z3.BoolVal(w.untouched()))


for pat_ in (False, True):
    def _(pat=pat_):
        tag = ', filtered by a pattern' if pat else ''
        kw = {'key_re': 'pattern'} if pat else {}

        @suite.case(f'loading attributes{tag}', models=H.models)
        def _(h):
            w = attr_world(h)
            pattern(h, w)
            k = z3.Const('any_name', NameS)
            CTX.elem_hints.append(w.place(k))
            d = w.a.load(**kw)
            loaded_map(h, w, d, k, z3.And(hasA(w.o, k), Pattern.matchF(k) if pat else z3.BoolVal(True)), valA(w.o, k), w.place(k))

        @suite.case(f'loading datasets{tag}', models=H.models)
        def _(h):
            w = world(h)
            listed(h, w)
            pattern(h, w)
            k = z3.Const('any_name', NameS)
            CTX.elem_hints.append(w.place(k))
            d = w.M.Group(H.RawGroup(w, w.root)).datasets.load(**kw)
            o = childF(w.root, k)
            loaded_map(h, w, d, k, z3.And(hasF(w.root, k), kindF(o) == DATASET, Pattern.matchF(k) if pat else z3.BoolVal(True)), contentF(o), w.place(k))
    _()


@suite.case('listing attributes', models=H.models)
def _(h):
    w = attr_world(h)
    k = z3.Const('any_name', NameS)
    h.prove('length', C.lift(type(w.a).__len__(w.a)) == w.n.e)
    h.prove('membership', z3.BoolVal(type(w.a).__contains__(w.a, Name(k))) == hasA(w.o, k))
    ks = w.a.keys()
    j = h.idx(w.n, 'j')
    h.prove('as many keys', C.lift(type(ks).__len__(ks)) == w.n.e)
    h.prove('the j-th key', type(ks).__getitem__(ks, j).e == w.nm(j.e))


@suite.case('an attribute by its name', models=H.models)
def _(h):
    w = attr_world(h)
    k = z3.Const('any_name', NameS)
    try:
        v = w.a[Name(k)]
    except KeyError:
        h.prove('KeyError exactly when it is missing', z3.Not(hasA(w.o, k)))
        return
    h.prove('its value', z3.And(hasA(w.o, k), v.e == valA(w.o, k)))


@suite.case('a dataset by its name', models=H.models)
def _(h):
    w = world(h)
    s = w.M.Group(H.RawGroup(w, w.root)).datasets
    k = z3.Const('any_name', NameS)
    o = childF(w.root, k)
    there = z3.And(hasF(w.root, k), kindF(o) == DATASET)
    h.prove('membership', z3.BoolVal(type(s).__contains__(s, Name(k))) == there)
    try:
        v = s[Name(k)]
    except KeyError:
        h.prove('KeyError exactly when there is no such dataset', z3.Not(there))
        return
    h.prove('its content', z3.And(there, v.e == contentF(o)))


def dumps(name, make):
    @suite.case(f'dumping {name}', models=H.models)
    def _(h):
        w = world(h)
        m, n, kf, vf = dictionary(h, 'd', Name)
        log = L.MList()
        obj = make(w)
        full = type(obj).dump

        def create(self, key, data, flag='x'):
            CTX.used_contracts.add(f'{type(obj).__name__}.create')
            log.append(Rec(G.name_expr(key), data.e, z3.BoolVal(False), z3.BoolVal(flag == 'ca')))
        type(obj).create = create
        full(obj, m, flag='ca')
        items = list(list.__iter__(log))
        h.prove('one per entry', z3.BoolVal(len(items) == 1 and isinstance(items[0], L.Seg)))
        if len(items) != 1 or not isinstance(items[0], L.Seg): return
        h.prove('as many as entries', A.dz(items[0].n) == n.e)
        j = h.idx(n, 'j')
        r = items[0].at(j.e)
        h.prove('name and value of the entry, with the flag', z3.And(r.k == kf(j.e), r.v == vf(j.e), r.flags))


dumps('attributes', lambda w: w.M.AttrManager(H.RawAttrs(w, w.root)))
dumps('datasets', lambda w: w.M.DatasetManager(H.RawGroup(w, w.root)))
