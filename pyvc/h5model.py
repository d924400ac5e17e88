"""h5py by contract: a file is a heap of objects (datasets, groups, objects of a third kind), each group having named links to objects,
each dataset a content, each object named attributes.  All initial contents are arbitrary; what the code does is recorded as writes.

Used contracts (h5py): `in` / keys() / [name] look at the links of the group; create_dataset / create_group / setting a link refuse an
existing name and otherwise add one; dataset[...] = v and [()] write and read the whole content; attrs.create (and attrs[name] = v)
replace, attrs.modify writes in place keeping the type, or creates."""
import z3
from . import core as C, ghost as G, loops as L, npm
from .core import CTX, S, I, B, Unsupported
from .ghost import Name, NameS, ObjS, Obj
from .loader import Stub

DATASET, GROUP, OTHER = 0, 1, 2
hasF = z3.Function('h5.has', ObjS, NameS, B)
childF = z3.Function('h5.child', ObjS, NameS, ObjS)
kindF = z3.Function('h5.kind', ObjS, I)
contentF = z3.Function('h5.content', ObjS, ObjS)
hasA = z3.Function('h5.attr_has', ObjS, NameS, B)
valA = z3.Function('h5.attr', ObjS, NameS, ObjS)
DEL = object()


class Err:
    pv_modelled = True


class NameTaken(Err, ValueError): pass
class LinkTaken(Err, OSError): pass
class NoName(Err, KeyError): pass
class BadMode(Err, ValueError): pass
class NoFile(Err, FileNotFoundError): pass
class FileThere(Err, FileExistsError): pass
class BadShape(Err, TypeError): pass


class Store:
    """(object, name) -> present?, value; initial state arbitrary, then writes"""

    def __init__(self, P, V): self.P, self.V, self.w = P, V, []

    def has(self, o, k):
        e = self.P(o, k)
        for m, q, v in self.w: e = z3.If(z3.And(o == m, k == q), z3.BoolVal(v is not DEL), e)
        return z3.simplify(e)

    def get(self, o, k):
        """the value of a present entry: forks over the writes"""
        for m, q, v in reversed(self.w):
            if (m.eq(o) and q.eq(k)) or CTX.branch(z3.And(o == m, k == q)): return v
        return self.V(o, k)

    def put(self, o, k, v):
        if CTX.loop_depth: raise Unsupported('write to a file in a symbolic loop')
        self.w.append((o, k, v))


class World:
    def __init__(self, h):
        self.h = h
        npm.trust('h5py (as stated in pyvc/h5model.py): links, datasets, attributes and file modes')
        self.links = Store(hasF, lambda o, k: childF(o, k))
        self.attrs = Store(hasA, lambda o, k: Obj(valA(o, k)))
        self.content = []                 # (dataset, value)
        self.made = []                    # attribute writes that (re)create: (object, name, value)
        self.root = z3.Const('h5.root', ObjS)
        CTX.assume(kindF(self.root) == GROUP)
        m = h.ld.models['h5py']
        m.__dict__['__world__'] = self
        self.m = m

    def kind(self, o):
        if CTX.branch(kindF(o) == DATASET): return DATASET
        if CTX.branch(kindF(o) == GROUP): return GROUP
        CTX.assume(kindF(o) == OTHER)
        return OTHER

    def wrap(self, o):
        return {DATASET: RawDataset, GROUP: RawGroup, OTHER: RawOther}[self.kind(o)](self, o)

    def new(self, tag, kind):
        o = CTX.skolem('new_' + tag, ObjS)
        CTX.assume(z3.And(kindF(o) == kind, o != self.root))
        return o

    def content_of(self, o):
        for m, v in reversed(self.content):
            if m.eq(o) or CTX.branch(m == o): return v
        return Obj(contentF(o))

    def untouched(self): return not (self.links.w or self.attrs.w or self.content or self.made)


def key_of(k):
    k = G.name_expr(k)
    return k


class Raw:
    def __init__(self, w, e): self.w, self.e = w, e

    def __pv_subst__(self, i, e): return type(self)(self.w, z3.substitute(self.e, (i, e)))

    @property
    def attrs(self): return RawAttrs(self.w, self.e)

    @property
    def name(self): return Obj(z3.Function('h5.name', ObjS, ObjS)(self.e))

    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        raise Unsupported(f'h5py: {type(self).__name__}.{k}')

    def _bad(self, *a): raise Unsupported('h5py: operation on an object')
    __eq__ = __ne__ = __lt__ = __bool__ = _bad
    def __hash__(self): return 21
    def __format__(self, s): return '<h5 object>'


class RawOther(Raw):
    pass


class RawDataset(Raw):
    def __setitem__(self, sel, v):
        if not (sel is Ellipsis or isinstance(sel, tuple) and sel in ((), (Ellipsis,))): raise Unsupported('write to a part of a dataset')
        if CTX.loop_depth: raise Unsupported('write to a file in a symbolic loop')
        self.w.content.append((self.e, v))

    def __getitem__(self, sel):
        if not (sel is Ellipsis or isinstance(sel, tuple) and sel in ((), (Ellipsis,))): raise Unsupported('read of a part of a dataset')
        return self.w.content_of(self.e)


class View:
    """keys() of a group or of attributes"""

    def __init__(self, test, listing): self.test, self.listing = test, listing
    def __contains__(self, k): return self.test(k)

    def __pv_symiter__(self):
        if self.listing is None: raise Unsupported('listing of an arbitrary group')
        return L.SymIter(*self.listing)

    def __pv_len__(self): return C.S(C.lift(self.listing[0]))
    def __iter__(self): raise Unsupported('native iteration over the names of a group')


class RawGroup(Raw):
    listing = None

    def __contains__(self, k): return CTX.branch(self.w.links.has(self.e, key_of(k)))
    def keys(self): return View(self.__contains__, self.w.h5_listing(self.e) if hasattr(self.w, 'h5_listing') else None)
    def __pv_symiter__(self): return self.keys().__pv_symiter__()
    def __pv_len__(self): return self.keys().__pv_len__()

    def __getitem__(self, k):
        k = key_of(k)
        if not CTX.branch(self.w.links.has(self.e, k)): raise NoName(k)
        return self.w.wrap(self.w.links.get(self.e, k))

    def get(self, k, default=None): return self[k] if k in self else default

    def __setitem__(self, k, v):
        if not isinstance(v, (SoftLink, ExternalLink)): raise Unsupported('h5py: group[name] = data')
        k = key_of(k)
        if CTX.branch(self.w.links.has(self.e, k)): raise LinkTaken(k)
        o = self.w.new('link', OTHER)
        v.target = o
        self.w.links.put(self.e, k, o)
        self.w.linked = getattr(self.w, 'linked', []) + [(o, v)]

    def __delitem__(self, k):
        k = key_of(k)
        if not CTX.branch(self.w.links.has(self.e, k)): raise NoName(k)
        self.w.links.put(self.e, k, DEL)

    def add(self, k, kind, tag):
        k = key_of(k)
        if CTX.branch(self.w.links.has(self.e, k)): raise NameTaken(k)
        o = self.w.new(tag, kind)
        self.w.links.put(self.e, k, o)
        return o

    def create_dataset(self, name, shape=None, dtype=None, data=None, **kw):
        if data is None and shape is None and dtype is None: raise BadShape('One of data, shape or dtype must be specified')
        o = self.add(name, DATASET, 'dataset')
        self.w.content.append((o, data if data is not None else ('empty', shape, dtype)))
        return RawDataset(self.w, o)

    def create_group(self, name, track_order=None):
        return RawGroup(self.w, self.add(name, GROUP, 'group'))

    def require_group(self, name):
        if name not in self: return self.create_group(name)
        g = self[name]
        if not isinstance(g, RawGroup): raise BadShape('Incompatible object already exists')
        return g


class RawFile(RawGroup):
    closed = False

    def close(self): self.closed = True
    def __enter__(self): return self
    def __exit__(self, *a): self.closed = True


class RawAttrs:
    def __init__(self, w, e): self.w, self.e = w, e
    def __hash__(self): return 22
    def __contains__(self, k): return CTX.branch(self.w.attrs.has(self.e, key_of(k)))
    def keys(self): return View(self.__contains__, self.w.attr_listing(self.e) if hasattr(self.w, 'attr_listing') else None)
    def __pv_symiter__(self): return self.keys().__pv_symiter__()
    def __pv_len__(self): return self.keys().__pv_len__()

    def __getitem__(self, k):
        k = key_of(k)
        if not CTX.branch(self.w.attrs.has(self.e, k)): raise NoName(k)
        return self.w.attrs.get(self.e, k)

    def get(self, k, default=None): return self[k] if k in self else default

    def create(self, name, data, shape=None, dtype=None):
        self.w.attrs.put(self.e, key_of(name), data)
        self.w.made.append((self.e, key_of(name), data))

    def __setitem__(self, k, v): self.create(k, v)

    def modify(self, name, value):
        k = key_of(name)
        if not CTX.branch(self.w.attrs.has(self.e, k)): return self.create(name, value)
        self.w.attrs.put(self.e, k, value)

    def __delitem__(self, k):
        k = key_of(k)
        if not CTX.branch(self.w.attrs.has(self.e, k)): raise NoName(k)
        self.w.attrs.put(self.e, k, DEL)

    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        raise Unsupported(f'h5py: attributes.{k}')


class SoftLink:
    def __init__(self, path): self.path = path


class ExternalLink:
    def __init__(self, filename, path): self.filename, self.path = filename, path


def models():
    st = Stub('h5py')
    st.__dict__.update(Dataset=RawDataset, Group=RawGroup, AttributeManager=RawAttrs, SoftLink=SoftLink, ExternalLink=ExternalLink,
                       Datatype=RawOther, File=RawFile)
    return {'h5py': st}
