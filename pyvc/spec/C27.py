"""C27: Fortran records and layered configuration files.

Records: the file is a byte sequence with a current position; numpy.fromfile is used by its contract (count items, stored one after the
other from the current position, which moves behind them); every operation is proved from an arbitrary position, for an item type of
arbitrary size and any count, so that any sequence of operations is covered.
Configuration: a parsed file is an arbitrary tree (heap of mapping nodes, as for C01); the nodes reached by the initial names and by the
nested names are two chains which the loops over the names are proved to follow; the requested keys are any number of names."""
from ..harness import *
from .. import ghost as G, loops as L, npm
from ..ghost import GhostMap, Name, Obj, NameS, ObjS, KeyErr
from ..loader import Stub
from .C01 import Heap, Node, Chain, hasF, childF, value_of

suite = Suite()
itemF = z3.Function('item_at', I, R)
intF = z3.Function('int32_at', I, I)


class Ty:
    """an item type of any size: a dtype object, or a scalar type (which only numpy.dtype can measure)"""

    def __init__(self, size, obj): self.size, self.obj = size, obj

    @property
    def itemsize(self):
        if not self.obj: raise TypeError('itemsize of a scalar type')
        return S(self.size)
    kind = 'V'
    def __eq__(self, o): return o is self
    def __hash__(self): return 3
    def __getattr__(self, k): raise Unsupported(f'attribute {k} of an arbitrary item type')


class Raw:
    """n bytes of the file"""

    def __init__(self, pos, n): self.pos, self.n = pos, n
    def __pv_len__(self): return S(self.n)
    def _bad(self, *a): raise Unsupported('operation on bytes of a file')
    __getitem__ = __iter__ = __bool__ = __eq__ = __add__ = __len__ = _bad
    __hash__ = None


class File:
    def __init__(self, pos): self.pos, self.seeks, self.reads, self.closed = pos, 0, [], False

    def seek(self, off, whence=0):
        off = C.toint(S(C.lift(off)))
        w = L.ival(whence) if isinstance(whence, S) else whence
        if w not in (0, 1): raise Unsupported('seek from the end of the file')
        self.pos = z3.simplify(off if w == 0 else self.pos + off)
        return S(self.pos)

    def tell(self): return S(self.pos)

    def take(self, n):
        p = self.pos
        self.pos = z3.simplify(p + n)
        self.reads.append((p, n))
        return p

    def read(self, n=-1):
        n = C.toint(S(C.lift(n)))
        if not CTX.known(n >= 0): raise Unsupported('read to the end of the file')
        return Raw(self.take(n), n)

    def close(self): self.closed = True
    def __enter__(self): return self
    def __exit__(self, *a): self.close()
    def __getattr__(self, k): raise Unsupported(f'file operation {k}')


def items(pos, size, kind, n):
    f = (lambda ix: intF(z3.simplify(pos + size * ix[0]))) if kind == 'i4' else (lambda ix: itemF(pos + size * ix[0]))
    return A.new_arr((A.dim(S(z3.simplify(n))),), 'i8' if kind == 'i4' else 'f8', f)


def world(h, kind):
    """a file at an arbitrary position; an item type of arbitrary size"""
    np = h.ld.models['numpy']
    npm.trust('numpy.fromfile(file, dtype, count=n): the n items stored from the current position on, which moves behind them (for a file that is long enough); file seek and read move the position by what they are given')
    old = np.dtype
    pos, size = h.int('pos', lo=0).e, h.int('itemsize', lo=1).e
    ty = Ty(size, kind == 'dtype')

    def measure(t):
        if isinstance(t, Ty): return t.size, 'V'
        if getattr(t, '__pv_dt__', None) == 'i4' or isinstance(t, A.DT) and t.name == 'i4' or t in ('i4', '<i4', '=i4', 'int32'): return z3.IntVal(4), 'i4'
        raise Unsupported('item type')

    def dtype(t, *a, **k):
        if isinstance(t, Ty) and not a and not k: return t if t.obj else Ty(t.size, True)
        return old(t, *a, **k)

    def fromfile(file, dtype=None, count=-1, sep='', offset=0):
        if not isinstance(file, File) or sep != '': raise Unsupported('numpy.fromfile from elsewhere')
        s, k = measure(dtype)
        n = C.toint(S(C.lift(count)))
        if not CTX.known(n >= 0): raise Unsupported('numpy.fromfile to the end of the file')
        off = C.toint(S(C.lift(offset)))
        file.pos = z3.simplify(file.pos + off)
        return items(file.take(z3.simplify(n * s)), s, k, n)

    def frombuffer(buf, dtype=None, count=-1, offset=0):
        if not isinstance(buf, Raw): raise Unsupported('numpy.frombuffer from elsewhere')
        s, k = measure(dtype)
        off = C.toint(S(C.lift(offset)))
        n = C.toint(S(C.lift(count)))
        if CTX.known(n == -1):
            n = h.int('n_items', lo=0).e
            CTX.side('numpy.frombuffer: the buffer is as many items long as wanted', buf.n == s * n)
        return items(z3.simplify(buf.pos + off), s, k, n)
    np.dtype, np.fromfile, np.frombuffer = dtype, fromfile, frombuffer
    M = h.mod('io.binary.fortran')
    f = File(pos)

    def open_(path, mode='r', **kw):
        if mode != 'rb': raise Unsupported('opening a file for anything but reading bytes')
        return f
    h.replace('io.binary.fortran', 'open', open_)
    return M.BinaryFile('somewhere'), f, pos, size, ty


def count(h, n):
    """the count argument, and the number of items it stands for"""
    if n is None: return {}, z3.IntVal(1)
    v = h.int('n', lo=0)
    return {'n': v}, v.e


def data(h, label, out, base, size, kw, n):
    if not kw:
        h.prove(f'{label}: a single item', z3.BoolVal(isinstance(out, S) or isinstance(out, SArr) and out.ndim == 0))
        h.prove(f'{label}: the item', C.lift(out if isinstance(out, S) else out.__pv_scalar__()) == itemF(base))
        return
    h.prove(f'{label}: n items', z3.And(z3.BoolVal(out.ndim == 1), A.dz(out._shape[0]) == n))
    j = h.idx(S(n), 'j')
    h.prove(f'{label}: the j-th item', at(out, j) == itemF(base + size * j.e))


def modes(fn):
    for kind in ('dtype', 'scalar type'):
        for n in (None, 'n'):
            fn(kind, n)
    return fn


@modes
def _(kind, n):
    tag = f'{"any number of items" if n else "a single item"}, {kind}'

    @suite.case(f'reading a record: {tag}')
    def _(h):
        F, f, pos, size, ty = world(h, kind)
        kw, m = count(h, n)
        out = F.load_rec(ty, **kw)
        data(h, 'record', out, pos, size, kw, m)
        h.prove('the position moves by exactly their size', f.pos == pos + m * size)

    @suite.case(f'skipping a record: {tag}')
    def _(h):
        F, f, pos, size, ty = world(h, kind)
        kw, m = count(h, n)
        F.skip_rec(ty, **kw)
        h.prove('the position moves by exactly their size', f.pos == pos + m * size)
        h.prove('nothing is read', z3.BoolVal(not f.reads))

    @suite.case(f'reading a section: {tag}')
    def _(h):
        F, f, pos, size, ty = world(h, kind)
        kw, m = count(h, n)
        h.assume(intF(pos) == intF(pos + 4 + m * size))
        out = F.load_sect(ty, **kw)
        data(h, 'payload', out, pos + 4, size, kw, m)
        h.prove('both lengths and the payload are consumed', f.pos == pos + m * size + 8)

    @suite.case(f'skipping a section: {tag}')
    def _(h):
        F, f, pos, size, ty = world(h, kind)
        kw, m = count(h, n)
        h.assume(intF(pos) == intF(pos + 4 + m * size))
        F.skip_sect(ty, **kw)
        h.prove('both lengths and the payload are consumed', f.pos == pos + m * size + 8)
        k = z3.Int('k_read')
        h.prove('the payload is not read', z3.And(*[z3.Or(z3.simplify(q + w) <= pos + 4, q >= pos + 4 + m * size, w == 0) for q, w in f.reads], z3.BoolVal(True)))

    @suite.case(f'a section with unequal lengths is rejected: {tag}')
    def _(h):
        F, f, pos, size, ty = world(h, kind)
        kw, m = count(h, n)
        h.assume(intF(pos) != intF(pos + 4 + m * size))
        h.raises('reading', (AssertionError, ValueError, OSError), lambda: F.load_sect(ty, **kw))
        f.pos = pos
        h.raises('skipping', (AssertionError, ValueError, OSError), lambda: F.skip_sect(ty, **kw))


@suite.case('positioning')
def _(h):
    F, f, pos, size, ty = world(h, 'dtype')
    q, d = h.int('q', lo=0), h.int('d')
    F.seek(q)
    h.prove('absolute', f.pos == q.e)
    F.seek(d, 1)
    h.prove('relative', f.pos == q.e + d.e)


@suite.case('the file is closed at the end')
def _(h):
    F, f, pos, size, ty = world(h, 'dtype')
    with F as g:
        h.prove('the same reader', z3.BoolVal(g is F))
    h.prove('closed', z3.BoolVal(f.closed))


# ------------------------------------------------------------------ layered configuration
class Conf:
    def __init__(self, h, root):
        self.h = h
        self.heap = Heap()
        CTX.ghost_dicts = True
        D = h.mod('core.containers.data_dict').DataDict
        D.__format__ = lambda s, spec: '<dictionary>'
        self.M = h.mod('io.yaml')
        self.opened = []

        class F:
            def __enter__(s): return s
            def __exit__(s, *a): pass
        self.file = F()

        def open_(path, mode='r', **kw):
            if mode not in ('r', 'rt'): raise Unsupported('opening a configuration file otherwise than for reading')
            self.opened.append(str(path))
            return self.file
        h.replace('io.yaml', 'open', open_)

        def load(f, *a, **k):
            if f is not self.file: raise Unsupported('yaml.load from elsewhere')
            return Node(self.heap, root)
        self.M.yaml.load = load
        npm.trust('yaml.load: the tree the configuration file holds')


def conf(h):
    """arbitrary tree, names of the initial and nested nodes, requested keys"""
    root = z3.Const('root', ObjS)
    w = Conf(h, root)
    sizes = w.n0, w.n1, w.nk = h.int('n_init', lo=0), h.int('n_nested', lo=0), h.int('n_keys', lo=0)
    w.init, w.nest, w.key = [z3.Function(t, I, NameS) for t in ('init_name', 'nested_name', 'key')]
    for f in (w.init, w.nest, w.key): C.add_templ(f, lambda t: [z3.Not(G.slashF(t))])

    def names(f, n):
        i = CTX.index_var('nm')
        return L.MList([L.Seg(A.dim(n), i, Name(f(i)))])
    w.lists = [names(w.init, w.n0), names(w.nest, w.n1), names(w.key, w.nk)]
    W0, W1 = w.W0, w.W1 = z3.Function('init_node', I, ObjS), z3.Function('node', I, ObjS)
    for W, f, n in ((W0, w.init, w.n0.e), (W1, w.nest, w.n1.e)):
        C.add_templ(f, lambda t, W=W, n=n: [z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < n), W(z3.simplify(t.arg(0) + 1)) == childF(W(t.arg(0)), t))])
        CTX.folds.append(Chain(w.heap, W))
    C.add_templ(W0, lambda t: [z3.Implies(t.arg(0) == 0, t == root)])
    CTX.assume(W0(0) == root)
    CTX.assume(W1(0) == W0(w.n0.e))
    C.add_templ(W1, lambda t: [z3.Implies(t.arg(0) == 0, t == W1(0))])
    # where a key can be found in the list of requested keys
    place = w.place = z3.Function('place', NameS, I)
    C.add_templ(w.key, lambda t: [z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < w.nk.e), z3.And(place(t) >= 0, place(t) < w.nk.e, w.key(place(t)) == t))])
    CTX.name_hints.append(place)
    return w


def there(w, which=(0, 1)):
    """every named node exists"""
    for c, (W, f, n) in enumerate(((w.W0, w.init, w.n0.e), (w.W1, w.nest, w.n1.e))):
        if c in which: C.add_templ(f, lambda t, W=W, n=n: [z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < n), hasF(W(t.arg(0)), t))])


def defined(w):
    """every requested key is defined by some visited node: level(key) is the deepest"""
    lev = w.lev = z3.Function('level', NameS, I)
    C.add_templ(w.key, lambda t: [z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < w.nk.e), z3.And(lev(t) >= 0, lev(t) <= w.n1.e, hasF(w.W1(lev(t)), t)))])
    CTX.name_hints += [lambda k: lev(k) - 1, lambda k: lev(k)]


def parser(w):
    return w.M.ConfigFileParser('config.yaml', w.lists[0], w.lists[1])


@suite.case('each requested key has the value of the deepest visited node that defines it')
def _(h):
    w = conf(h)
    there(w)
    defined(w)
    j = h.idx(w.nk, 'j')
    k = w.key(j.e)
    m = w.lev(k)
    C.add_templ(w.W1, lambda t: [z3.Implies(z3.And(t.arg(0) > m, t.arg(0) <= w.n1.e), z3.Not(hasF(t, k)))])
    out = parser(w).get(w.lists[2])
    h.prove('a data dictionary', z3.BoolVal(type(out).__name__ == 'DataDict'))
    h.prove('only the file was read', z3.BoolVal(w.opened == ['config.yaml'] and not w.heap.w))
    mp = value_of(out)
    h.prove('the key is there', mp.has(k))
    fs = []
    for cond, v in mp.alternatives(k):
        if not isinstance(v, Node): fs.append(z3.Not(cond)); continue
        fs.append(z3.Implies(cond, v.e == childF(w.W1(m), k)))
    h.prove('its value', z3.And(*fs))


@suite.case('nothing but the requested keys is returned')
def _(h):
    w = conf(h)
    there(w)
    defined(w)
    out = parser(w).get(w.lists[2])
    k = z3.Const('other', NameS)
    q = z3.Function('no_place', NameS, I)
    C.add_templ(w.key, lambda t: [z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < w.nk.e), t != k)])
    h.prove('no other key', z3.Not(value_of(out).has(k)))


@suite.case('KeyError when no visited node defines a requested key')
def _(h):
    w = conf(h)
    there(w)
    j = h.idx(w.nk, 'j')
    k = w.key(j.e)
    C.add_templ(w.W1, lambda t: [z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) <= w.n1.e), z3.Not(hasF(t, k)))])
    h.raises('refused', KeyError, lambda: parser(w).get(w.lists[2]))


def missing(which):
    @suite.case(f'KeyError when {"an initial" if which == 0 else "a nested"} node does not exist')
    def _(h):
        w = conf(h)
        there(w, (0,) if which else ())
        W, f, n = ((w.W0, w.init, w.n0.e), (w.W1, w.nest, w.n1.e))[which]
        q = CTX.skolem('q', I)
        CTX.assume(z3.And(q >= 0, q < n, z3.Not(hasF(W(q), f(q))))); CTX.elem_hints.append(q)
        CTX.assume(W(q + 1) == W(q + 1))
        h.raises('refused', KeyError, lambda: parser(w).get(w.lists[2]))


for c_ in (0, 1): missing(c_)
