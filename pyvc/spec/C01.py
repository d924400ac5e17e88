"""C01: nested and tuple keys of a data dictionary.

Nested dictionaries are proved for any depth: a heap of mapping nodes (has(node, name), child(node, name), writes on top) holds every
possible nesting; a key is any string of which only its pieces between slashes are known; the node reached after i non-empty pieces
is named walk(i), which the loop rule establishes as the invariant of the loops over the pieces.  A single lookup in a nested data
dictionary is what it is proved to be for names without slash (induction over the depth).  Tuple keys are proved for any number of
members against the contract of the single-key operation.  Copies and unions are proved for arbitrary top-level contents."""
from ..harness import *
from .. import ghost as G, loops as L, npm
from ..ghost import GhostMap, Name, Obj, NameS, ObjS, KeyErr, literal

suite = Suite()
hasF = z3.Function('has', ObjS, NameS, B)
childF = z3.Function('child', ObjS, NameS, ObjS)
npieceF = z3.Function('n_pieces', NameS, I)
pieceF = z3.Function('piece', NameS, I, NameS)
lenF = z3.Function('str_len', NameS, I)


class Heap:
    """all mappings: what they held at first, and the writes since: (node, name, value | DEL)"""
    DEL = object()

    def __init__(self): self.w = []

    def has(self, n, k):
        e = hasF(n, k)
        for m, q, v in self.w: e = z3.If(z3.And(n == m, k == q), z3.BoolVal(v is not self.DEL), e)
        return e

    def get(self, n, k):
        e = childF(n, k)
        for m, q, v in self.w:
            if v is not self.DEL: e = z3.If(z3.And(n == m, k == q), v, e)
        return e

    def put(self, n, k, v):
        if CTX.loop_depth: raise Unsupported('write to a nested mapping in a symbolic loop')
        self.w.append((n, k, v))


class Node:
    """a mapping, or any other value, in the heap"""

    def __init__(self, heap, e):
        self.heap, self.e = heap, e
        if 'has' not in CTX.stubs:      # what has an entry is a mapping and not empty
            CTX.stubs['has'] = True
            C.add_templ(hasF, lambda t: [z3.Implies(t, z3.And(z3.Not(G.isnoneF(t.arg(0))), G.truthyF(t.arg(0))))])
    def __hash__(self): return 5
    def __pv_same__(self, o): return self.e == o.e
    def __pv_subst__(self, i, e): return Node(self.heap, z3.substitute(self.e, (i, e)))
    def __pv_ite__(self, c, o): return Node(self.heap, z3.If(c, self.e, o.e))

    def __getitem__(self, k):
        k = G.name_expr(k)
        if not CTX.branch(self.heap.has(self.e, k)): raise KeyErr(k)
        return Node(self.heap, z3.simplify(self.heap.get(self.e, k)))

    def get(self, k, default=None): return self[k] if k in self else default
    def __contains__(self, k): return CTX.branch(self.heap.has(self.e, G.name_expr(k)))

    def __setitem__(self, k, v):
        if not isinstance(v, Node): raise Unsupported('value of another kind')
        self.heap.put(self.e, G.name_expr(k), v.e)

    def __delitem__(self, k):
        k = G.name_expr(k)
        if not CTX.branch(self.heap.has(self.e, k)): raise KeyErr(k)
        self.heap.put(self.e, k, Heap.DEL)

    def pop(self, k, *d):
        if d and k not in self: return d[0]
        v = self[k]
        del self[k]
        return v

    def __pv_isnone__(self):
        r = CTX.branch(G.isnoneF(self.e))
        if r: CTX.assume(z3.Not(G.truthyF(self.e)), True)
        return r

    def __bool__(self): return CTX.branch(G.truthyF(self.e))
    def __eq__(self, o): return self.__pv_isnone__() if o is None else self._bad()
    def __ne__(self, o): return not self.__eq__(o)
    def _bad(self, *a, **k): raise Unsupported('operation on a nested mapping')
    __iter__ = __len__ = update = setdefault = items = keys = values = __pv_isinstance__ = _bad


class Piece(Name):
    """a piece of a key between slashes: any string without slash, perhaps empty"""

    def __pv_len__(self): return S(lenF(self.e))
    def __bool__(self): return CTX.branch(lenF(self.e) > 0)

    def __eq__(self, o):
        if isinstance(o, str) and o == '': return not bool(self)
        return Name.__eq__(self, o)
    __hash__ = Name.__hash__


class Key(Name):
    """any string"""

    def split(self, sep=None, maxsplit=-1):
        if sep != '/' or maxsplit != -1: raise Unsupported('split of a symbolic string')
        i = CTX.index_var('pc')
        return L.MList([L.Seg(npieceF(self.e), i, Piece(pieceF(self.e, i)))])

    def __pv_isinstance__(self, t):
        return False if t in (tuple, list, bytes, int) else Name.__pv_isinstance__(self, t)


class Chain:
    def __init__(self, heap, decl): self.heap, self.decl = heap, decl
    def at(self, i): return Node(self.heap, self.decl(i))


class World:
    """a data dictionary whose contents at every level are arbitrary, and an arbitrary key with a slash"""

    def __init__(self, h, key=True):
        self.M = h.mod('core.containers.data_dict')
        self.heap = Heap()
        self.root = z3.Const('root', ObjS)
        d = self.d = self.M.DataDict()
        at_ = [k for k, v in d.__dict__.items() if isinstance(v, (dict, GhostMap))]
        if len(at_) != 1: raise Unsupported('representation of a data dictionary')
        d.__dict__[at_[0]] = Node(self.heap, self.root)
        if not key: return
        npm.trust("str.split('/'): the pieces between the slashes, in order, none of which has a slash; a string has a slash exactly when there is more than one piece")
        k = self.key = z3.Const('key', NameS)
        C.add_templ(pieceF, lambda t: [z3.Not(G.slashF(t)), lenF(t) >= 0])
        CTX.assume(npieceF(k) >= 1)
        CTX.assume(G.slashF(k) == (npieceF(k) >= 2))
        CTX.assume(G.slashF(k))
        # the names the key spells: its non-empty pieces, in order
        q = CTX.index_var('q')
        mask = A.new_arr((npieceF(k),), 'b1', lambda ix: lenF(pieceF(k, ix[0])) > 0)
        rec, pv, _ = npm.compress_family(mask)
        self.n = z3.simplify(rec.cnt(pv))
        CTX.assume(z3.And(self.n >= 0, self.n <= npieceF(k)), True)
        self.seg = lambda i: pieceF(k, rec.sigma(*pv, i))
        CTX.assume(self.n >= 1)
        # walk(i): the node reached from the top by the first i names
        W = self.W = z3.Function('walk', I, ObjS)
        self.n0 = len(self.heap.w)
        C.add_templ(W, lambda t: [z3.Implies(t.arg(0) == 0, t == self.root)])
        C.add_pair(W, lambda a, c: [z3.Implies(z3.And(a.arg(0) >= 0, c.arg(0) == a.arg(0) + 1, a.arg(0) < self.n), c == childF(a, self.seg(a.arg(0))))])
        CTX.assume(W(0) == self.root)
        CTX.folds.append(Chain(self.heap, W))
        self.parent, self.last = W(z3.simplify(self.n - 1)), self.seg(z3.simplify(self.n - 1))

    def missing(self, upto):
        """some name on the way is missing"""
        q = CTX.skolem('q', I)
        CTX.assume(z3.And(q >= 0, q < upto, z3.Not(hasF(self.W(q), self.seg(q))))); CTX.elem_hints.append(q)
        CTX.assume(self.W(q + 1) == self.W(q + 1))
        return q

    def frame(self, h, target, name, present, value=None):
        """every entry of every mapping is as before, but for the one entry (target, name)"""
        m, q = z3.Const('any_node', ObjS), z3.Const('any_name', NameS)
        here = z3.And(m == target, q == name)
        H = self.heap
        h.prove('every other entry at every level is as before: presence', z3.Implies(z3.Not(here), H.has(m, q) == hasF(m, q)))
        h.prove('every other entry at every level is as before: value', z3.Implies(z3.Not(here), H.get(m, q) == childF(m, q)))
        h.prove('the named entry', H.has(target, name) == present)
        if value is not None: h.prove('the named entry holds the value', H.get(target, name) == value)

    def untouched(self, h):
        h.prove('nothing was written', z3.BoolVal(not self.heap.w))


@suite.case('reading a nested key')
def _(h):
    w = World(h)
    all_there(w, w.n)
    out = w.d[Key(w.key)]
    h.prove('a value of the dictionary', z3.BoolVal(isinstance(out, Node)))
    h.prove('the value at the end of the chain of lookups', out.e == w.W(w.n))
    w.untouched(h)


def all_there(w, upto):
    C.add_templ(w.W, lambda t: [z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < upto), hasF(t, w.seg(t.arg(0))))])


def outcome(fn):
    """the exception the call ends with, or None"""
    try:
        fn()
    except KeyError as e:
        return e
    return None


@suite.case('reading a nested key: a missing name raises KeyError')
def _(h):
    w = World(h)
    w.missing(w.n)
    h.raises('KeyError', KeyError, lambda: w.d[Key(w.key)])
    w.untouched(h)


@suite.case('writing a nested key')
def _(h):
    w = World(h)
    all_there(w, w.n - 1)
    v = z3.Const('new_value', ObjS)
    w.d[Key(w.key)] = Node(w.heap, v)
    w.frame(h, w.parent, w.last, z3.BoolVal(True), v)


@suite.case('writing a nested key: a missing parent raises KeyError')
def _(h):
    w = World(h)
    w.missing(w.n - 1)
    v = z3.Const('new_value', ObjS)
    h.raises('KeyError', KeyError, lambda: w.d.__setitem__(Key(w.key), Node(w.heap, v)))
    w.untouched(h)


@suite.case('deleting a nested key')
def _(h):
    w = World(h)
    all_there(w, w.n)
    del w.d[Key(w.key)]
    w.frame(h, w.parent, w.last, z3.BoolVal(False))
    h.prove('the entry was there', hasF(w.parent, w.last))


@suite.case('deleting a nested key: a missing name raises KeyError')
def _(h):
    w = World(h)
    w.missing(w.n)
    h.raises('KeyError', KeyError, lambda: w.d.__delitem__(Key(w.key)))
    w.untouched(h)



# ------------------------------------------------------------------ names without a slash
def plain(h):
    w = World(h, key=False)
    k = z3.Const('name', NameS)
    h.assume(z3.Not(G.slashF(k)))
    return w, k


@suite.case('reading a name')
def _(h):
    w, k = plain(h)
    h.assume(hasF(w.root, k))
    out = w.d[Key(k)]
    h.prove('the stored value', out.e == childF(w.root, k))
    h.prove('the name is there', hasF(w.root, k))
    w.untouched(h)


@suite.case('reading a name: KeyError exactly when it is missing')
def _(h):
    w, k = plain(h)
    e = outcome(lambda: w.d[Key(k)])
    h.prove('KeyError exactly for a missing name', z3.BoolVal(e is not None) == z3.Not(hasF(w.root, k)))
    w.untouched(h)


@suite.case('writing a name')
def _(h):
    w, k = plain(h)
    v = z3.Const('new_value', ObjS)
    w.d[Key(k)] = Node(w.heap, v)
    w.frame(h, w.root, k, z3.BoolVal(True), v)


@suite.case('deleting a name')
def _(h):
    w, k = plain(h)
    e = outcome(lambda: w.d.__delitem__(Key(k)))
    h.prove('KeyError exactly for a missing name', z3.BoolVal(e is not None) == z3.Not(hasF(w.root, k)))
    if e is None: w.frame(h, w.root, k, z3.BoolVal(False))
    else: w.untouched(h)


@suite.case('membership looks at the top level only')
def _(h):
    w = World(h, key=False)
    k = z3.Const('name', NameS)
    h.prove('exactly the top-level names', z3.BoolVal(Key(k) in w.d) == hasF(w.root, k))
    w.untouched(h)


# ------------------------------------------------------------------ tuples of keys
class Tup(L.MList):
    def __pv_isinstance__(self, t):
        from collections.abc import Sequence, Iterable, Sized, Collection, Hashable
        return t in (tuple, object, Sequence, Iterable, Sized, Collection, Hashable)


def tuple_world(h):
    """the operations on one key are replaced by their contract: a value for each name, a log of the writes and deletions"""
    M = h.mod('core.containers.data_dict')
    got = z3.Function('value_at', NameS, ObjS)
    there = z3.Function('there', NameS, B)
    log = L.MList()
    heap = Heap()
    full = {n: getattr(M.DataDict, n) for n in ('__getitem__', '__setitem__', '__delitem__')}
    CTX.used_contracts.add('DataDict.__getitem__/__setitem__/__delitem__ of one key')

    def one(k):
        if isinstance(k, Tup) or not isinstance(k, Name): raise Unsupported('key of another kind')
        return k.e

    class D(M.DataDict):
        def __getitem__(self, k):
            e = one(k)
            if not CTX.branch(there(e)): raise KeyErr(k)
            return Node(heap, got(e))

        def __setitem__(self, k, v): log.append(('set', Name(one(k)), Node(heap, v.e)))
        def __delitem__(self, k): log.append(('del', Name(one(k))))

    d = D()
    m = h.size('n_keys')
    kf = z3.Function('key', I, NameS)
    i = CTX.index_var('tk')
    keys = Tup([L.Seg(m.e, i, Key(kf(i)))])
    return full, d, m, kf, keys, got, there, log, heap


@suite.case('reading a tuple of keys')
def _(h):
    full, d, m, kf, keys, got, there, log, heap = tuple_world(h)
    C.add_templ(kf, lambda t: [there(t)])
    j = h.idx(m, 'j')
    out = full['__getitem__'](d, keys)
    h.prove('one value per key', C.lift(L.seg_len(out)) == m.e)
    h.prove('the value of each key at its place', out[j].e == got(kf(j.e)))
    h.prove('nothing was written', z3.BoolVal(len(list(list.__iter__(log))) == 0))


@suite.case('reading a tuple of keys: a missing one raises KeyError')
def _(h):
    full, d, m, kf, keys, got, there, log, heap = tuple_world(h)
    j = h.idx(m, 'j')
    h.assume(z3.Not(there(kf(j.e))))
    CTX.elem_hints.append(j.e)
    h.raises('KeyError', KeyError, lambda: full['__getitem__'](d, keys))
    h.prove('nothing was written', z3.BoolVal(len(list(list.__iter__(log))) == 0))


def writes(h, log, m, want, j):
    items = list(list.__iter__(log))
    h.prove('one write per key', z3.BoolVal(len(items) == 1 and isinstance(items[0], L.Seg)))
    if len(items) == 1 and isinstance(items[0], L.Seg):
        h.prove('as many writes as keys', dz(items[0].n) == m.e)
        got = items[0].at(j.e)
        h.prove('the right operation', z3.BoolVal(got[0] == want[0]))
        h.prove('the j-th write goes to the j-th key', got[1].e == want[1])
        if want[0] == 'set' and got[0] == 'set': h.prove('the j-th write stores the j-th value', got[2].e == want[2])


@suite.case('writing a tuple of keys: one after the other, key by value')
def _(h):
    full, d, m, kf, keys, got, there, log, heap = tuple_world(h)
    j = h.idx(m, 'j')
    vf = z3.Function('new', I, ObjS)
    i = CTX.index_var('tv')
    vals = Tup([L.Seg(m.e, i, Node(heap, vf(i)))])
    full['__setitem__'](d, keys, vals)
    writes(h, log, m, ('set', kf(j.e), vf(j.e)), j)


@suite.case('writing a tuple of keys: unequal counts are refused before anything is written')
def _(h):
    full, d, m, kf, keys, got, there, log, heap = tuple_world(h)
    m2 = h.size('n_values')
    h.assume(m2 != m)
    vf = z3.Function('new', I, ObjS)
    i = CTX.index_var('tv')
    vals = Tup([L.Seg(m2.e, i, Node(heap, vf(i)))])
    h.raises('refused', (AssertionError, ValueError), lambda: full['__setitem__'](d, keys, vals))
    h.prove('nothing was written', z3.BoolVal(len(list(list.__iter__(log))) == 0))


@suite.case('deleting a tuple of keys: one after the other')
def _(h):
    full, d, m, kf, keys, got, there, log, heap = tuple_world(h)
    j = h.idx(m, 'j')
    full['__delitem__'](d, keys)
    writes(h, log, m, ('del', kf(j.e)), j)


# ------------------------------------------------------------------ copies and unions
def contents(h, tag):
    """a mapping with any entries"""
    n = h.size(f'n_{tag}')
    key = z3.Function(f'{tag}_key', I, NameS); val = z3.Function(f'{tag}_val', I, ObjS); place = z3.Function(f'{tag}_place', NameS, I)
    C.add_templ(key, lambda t: [z3.Not(G.slashF(t)), place(t) == t.arg(0)])
    has = lambda k: z3.And(place(k) >= 0, place(k) < n.e, key(place(k)) == k)
    V = lambda k: val(place(k))
    m = GhostMap(tag, P=has, V=lambda k: Obj(V(k)), seq=(n.e, lambda q: Name(key(q)), lambda q: Obj(val(q))))
    return m, has, V, place


def value_of(d):
    """the dictionary a data dictionary keeps its entries in"""
    m = d
    while not isinstance(m, GhostMap):
        at_ = [v for v in m.__dict__.values() if isinstance(v, (dict, GhostMap))]
        if len(at_) != 1 or not isinstance(at_[0], GhostMap): raise Unsupported('representation of a data dictionary')
        m = at_[0]
    return m


def holds(h, label, d, k, has, val, place=()):
    """the top-level entries of d at the name k"""
    CTX.elem_hints += list(place)
    m = value_of(d)
    h.prove(f'{label}: the names', m.has(k) == has)
    fs = []
    for cond, v in m.alternatives(k):
        n = CTX.push()
        CTX.assume(cond, True)
        if not isinstance(v, Obj): v = v() if CTX.feasible(cond) else None
        CTX.pop(n)
        fs.append(z3.Not(cond) if v is None else z3.Implies(cond, v.e == val))
    h.prove(f'{label}: the values', z3.Implies(has, z3.And(*fs)))


def start(h):
    M = h.mod('core.containers.data_dict')
    CTX.ghost_dicts = True
    k = z3.Const('any_name', NameS)
    a, ha, va, pa = contents(h, 'a')
    CTX.elem_hints.append(pa(k))
    return M, k, a, ha, va, pa


def scribble(h, d, k):
    """top-level writes: a new value under one arbitrary name, another one deleted; -> (has, value) wanted at k"""
    w, x = z3.Const('w_name', NameS), z3.Const('w_value', ObjS)
    CTX.assume(z3.Not(G.slashF(w)))
    d[Name(w)] = Obj(x)
    return w, x


@suite.case('a new dictionary holds the entries of the mapping it is made from')
def _(h):
    M, k, a, ha, va, pa = start(h)
    d = M.DataDict(a)
    holds(h, 'made from a mapping', d, k, ha(k), va(k), [pa(k)])
    holds(h, 'the operand', a, k, ha(k), va(k))
    w, x = scribble(h, d, k)
    holds(h, 'after a write to the new one', d, k, z3.Or(k == w, ha(k)), z3.If(k == w, x, va(k)))
    holds(h, 'the operand after a write to the new one', a, k, ha(k), va(k))


@suite.case('a write to the mapping does not change the dictionary made from it')
def _(h):
    M, k, a, ha, va, pa = start(h)
    d = M.DataDict(a)
    scribble(h, a, k)
    holds(h, 'the dictionary after a write to the mapping', d, k, ha(k), va(k))


@suite.case('a dictionary made from nothing is empty')
def _(h):
    M, k, a, ha, va, pa = start(h)
    d = M.DataDict()
    holds(h, 'made from nothing', d, k, z3.BoolVal(False), va(k))


@suite.case('copies are independent')
def _(h):
    M, k, a, ha, va, pa = start(h)
    d = M.DataDict(a)
    c = d.copy()
    h.prove('a new dictionary', z3.BoolVal(c is not d and type(c) is M.DataDict))
    holds(h, 'copy', c, k, ha(k), va(k))
    w, x = scribble(h, c, k)
    holds(h, 'the copy after a write', c, k, z3.Or(k == w, ha(k)), z3.If(k == w, x, va(k)))
    holds(h, 'the original after a write to the copy', d, k, ha(k), va(k))


@suite.case('copies are independent of later writes to the original')
def _(h):
    M, k, a, ha, va, pa = start(h)
    d = M.DataDict(a)
    c = d.copy()
    scribble(h, d, k)
    holds(h, 'the copy after a write to the original', c, k, ha(k), va(k))


def union(name, other_kind):
    @suite.case(f'{name}, right operand {other_kind}')
    def _(h):
        M, k, a, ha, va, pa = start(h)
        b, hb, vb, pb = contents(h, 'b')
        CTX.elem_hints.append(pb(k))
        d = M.DataDict(a)
        o = M.DataDict(b) if other_kind == 'data dictionary' else b
        has, val = z3.Or(ha(k), hb(k)), z3.If(hb(k), vb(k), va(k))
        if name == 'union':
            u = d | o
            h.prove('a new dictionary', z3.BoolVal(u is not d and u is not o and type(u) is M.DataDict))
        elif name == 'update':
            d.update(o); u = d
        else:
            u = d
            u |= o
            h.prove('the same dictionary', z3.BoolVal(u is d))
        holds(h, name, u, k, has, val)
        w, x = scribble(h, u, k)
        holds(h, f'{name}, after a write', u, k, z3.Or(k == w, has), z3.If(k == w, x, val))
        if name == 'union': holds(h, 'the left operand', d, k, ha(k), va(k))
        holds(h, 'the right operand', o, k, hb(k), vb(k))


for nm_ in ('union', 'update', 'update in place'):
    for ok in ('mapping', 'data dictionary'): union(nm_, ok)


@suite.case('clearing')
def _(h):
    M, k, a, ha, va, pa = start(h)
    d = M.DataDict(a)
    d.clear()
    holds(h, 'cleared', d, k, z3.BoolVal(False), va(k))
    holds(h, 'the mapping it was made from', a, k, ha(k), va(k))
