"""Opaque names and values, and maps with arbitrary contents.

Name: an arbitrary dictionary key (a string) of which only identity is known.  Obj: an arbitrary value of which only
identity, truth value and being None are known; all three are left open, so a proof covers every combination.
GhostMap: a dictionary with arbitrary contents (a presence predicate and a value function over Names) plus the writes made so
far.  It stands for every possible state of a dictionary the code keeps."""
from __future__ import annotations
import z3, sys, collections
from collections.abc import MutableMapping
from . import core as C
from .core import CTX, S, I, B, Unsupported

NameS = z3.DeclareSort('Name')
ObjS = z3.DeclareSort('Obj')
truthyF = z3.Function('truthy', ObjS, B)
isnoneF = z3.Function('is_none', ObjS, B)
noneC = z3.Const('None', ObjS)
litF = {}
LITS = {}


def literal(s):
    """the Name of a literal string; different literals are different names (a witness function tells them apart)"""
    k = ('lit', s)
    if k not in litF:
        litF[k] = (z3.Const('name:' + repr(s), NameS), len(litF))
        LITS[litF[k][0].get_id()] = s
    c, n = litF[k]
    f = z3.Function('name#', NameS, I)
    CTX.assume(f(c) == n, True)
    CTX.assume(slashF(c) == ('/' in s), True)
    return c


class Name:
    __pv_name__ = True

    def __init__(self, e): self.e = e
    def __hash__(self): return 7
    def __repr__(self): return f'Name({self.e})'
    def __format__(self, spec): return str(self.e)

    def __eq__(self, o):
        if isinstance(o, Name): return self.e.eq(o.e) or CTX.branch(self.e == o.e)
        if isinstance(o, str): return CTX.branch(self.e == literal(o))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __pv_isinstance__(self, t):
        from collections.abc import Hashable, Iterable, Sequence, Sized, Container
        return t in (str, object, Hashable, Iterable, Sequence, Sized, Container) or t is Name

    def __pv_subst__(self, i, e): return type(self)(z3.substitute(self.e, (i, e)))
    def __pv_ite__(self, c, o): return type(self)(z3.If(c, self.e, o.e))
    def __bool__(self): raise Unsupported('truth value of a symbolic name')
    def __iter__(self): raise Unsupported('iteration over a symbolic name')
    def __len__(self): raise Unsupported('length of a symbolic name')
    def _bad(self, *a): raise Unsupported('operation on a symbolic name')
    __lt__ = __le__ = __gt__ = __ge__ = __add__ = __radd__ = __getitem__ = _bad

    def __contains__(self, x):
        if x != '/': self._bad()
        return CTX.branch(slashF(self.e))


slashF = z3.Function('has_slash', NameS, B)


def name_expr(k):
    if isinstance(k, Name): return k.e
    if isinstance(k, str): return literal(k)
    if z3.is_expr(k): return k
    raise Unsupported(f'map key of type {type(k).__name__}')


class Obj:
    """arbitrary value"""

    def __init__(self, e): self.e = e
    def __repr__(self): return f'Obj({self.e})'
    def __hash__(self): return 11
    def __bool__(self): return CTX.branch(truthyF(self.e))

    def __eq__(self, o):
        if isinstance(o, Obj): return self.e.eq(o.e) or CTX.branch(self.e == o.e)
        raise Unsupported('comparison of an arbitrary value')

    def __ne__(self, o): return not self.__eq__(o)
    def __pv_subst__(self, i, e): return type(self)(z3.substitute(self.e, (i, e)))
    def __pv_ite__(self, c, o): return type(self)(z3.If(c, self.e, o.e))
    def __pv_isinstance__(self, t):
        if t is object: return True
        raise Unsupported('type test of an arbitrary value')
    def _bad(self, *a, **k): raise Unsupported('operation on an arbitrary value')
    __lt__ = __le__ = __gt__ = __ge__ = __add__ = __getitem__ = __len__ = __iter__ = __call__ = __contains__ = _bad


def materialise(e):
    """the python value for an arbitrary value: None, or an opaque object (which may still be false)"""
    if CTX.branch(isnoneF(e)):
        CTX.assume(e == noneC, True)
        return None
    return Obj(e)


def obj_expr(v):
    if v is None: return noneC
    if isinstance(v, Obj): return v.e
    raise Unsupported(f'expected an opaque value, got {type(v).__name__}')


class KeyErr(KeyError):
    pv_modelled = True


class GhostMap(MutableMapping):
    """dictionary with arbitrary contents"""
    DEL = object()
    item = False

    def __init__(self, name='m', P=None, V=None, seq=None):
        """P: name expr -> z3 bool; V: name expr -> python value; seq: (n, key(i), value(i)) when the items can be listed"""
        self.label = CTX.fresh_name(name)
        if P is None:
            pf = z3.Function(self.label + '.has', NameS, B)
            P = lambda k: pf(k)
        if V is None:
            vf = z3.Function(self.label + '.val', NameS, ObjS)
            V = lambda k: materialise(vf(k))
            self.vf = vf
        self.P, self.V, self.seq = P, V, seq
        self.w = []            # writes: (key expr, value | DEL)
        self.memo = []         # base values handed out (object identity)
        self._born = CTX.loop_depth
        self.blank = False
        self.reads = []
        self.place = None      # name expr -> position in the listing, for a present name

    # ---- state as formulas
    def has(self, k):
        k = name_expr(k)
        e = self.P(k)
        for w in self.w:
            e = z3.If(w.hit(k), z3.BoolVal(True), e) if isinstance(w, Bulk) else z3.If(k == w[0], z3.BoolVal(w[1] is not self.DEL), e)
        return e

    def alternatives(self, k):
        """[(condition, value)] for the present entry of name k, without forking"""
        k = name_expr(k)
        out, c = [], z3.BoolVal(True)
        for w in reversed(self.w):
            if isinstance(w, Bulk):
                out += [(z3.And(c, w.hit(k), w.which(k) == p), v) for p, v in w.values(k)]
                c = z3.And(c, z3.Not(w.hit(k)))
            else:
                if w[1] is not self.DEL: out.append((z3.simplify(z3.And(c, k == w[0])), w[1]))
                c = z3.simplify(z3.And(c, k != w[0]))
        b = z3.simplify(z3.And(c, self.P(k)))
        if not z3.is_false(b): out.append((b, (lambda: self.base(k))))
        return [(g, v) for g, v in out if not z3.is_false(z3.simplify(g))]

    def base(self, k):
        for kk, v in self.memo:
            if kk.eq(k) or CTX.known(kk == k): return v
        for kk, v in self.memo:
            if CTX.branch(kk == k): return v
        v = self.V(k)
        self.memo.append((k, v))
        return v

    def snap(self): return list(self.w)

    def find(self, k):
        for w in reversed(self.w):
            if isinstance(w, Bulk):
                if CTX.branch(w.hit(k)): return w.value(k)
            elif w[0].eq(k) or CTX.branch(w[0] == k): return w[1]
        return NOTHING

    # ---- dictionary interface
    def guard_loop(self):
        if self.outer(): raise Unsupported('dictionary change in a symbolic loop')

    def outer(self): return CTX.loop_depth > 0 and self._born < CTX.loop_depth

    def note_read(self, e):
        if self.outer(): CTX.journal.append(('gread', self, e))

    def __contains__(self, k):
        self.note_read(name_expr(k))
        return CTX.branch(self.has(k))

    def __getitem__(self, k):
        if isinstance(k, str) and k.startswith('__pv_'): raise KeyErr(k)      # the engine asking, not the code
        e = name_expr(k)
        self.note_read(e)
        if not CTX.branch(self.has(e)): raise KeyErr(k)
        v = self.find(e)
        return self.base(e) if v is NOTHING else v

    def put(self, w):
        if self.item: raise Unsupported('change of an item of a symbolic sequence')
        if self.outer(): CTX.journal.append(('gmap', self, len(self.w)))
        self.w.append(w)
        self.seq = None

    def __setitem__(self, k, v):
        self.put((name_expr(k), v))

    def __delitem__(self, k):
        self.guard_loop()
        e = name_expr(k)
        if not CTX.branch(self.has(e)): raise KeyErr(k)
        self.w.append((e, self.DEL))
        self.seq = None

    def get(self, k, default=None):
        return self[k] if k in self else default

    def setdefault(self, k, default=None):
        if k not in self: self[k] = default
        return self[k]

    def pop(self, k, *d):
        if k in self:
            v = self[k]
            del self[k]
            return v
        if d: return d[0]
        raise KeyErr(k)

    def copy(self):
        m = GhostMap.__new__(type(self))
        m.__dict__.update(self.__dict__)
        m.w = list(self.w)
        m.item = False
        m._born = CTX.loop_depth
        return m

    def __pv_isinstance__(self, t):
        if getattr(t, '_py', t) in (dict, collections.OrderedDict): return True
        return None

    def __pv_subst__(self, i, e):
        from . import loops as L
        e = z3.IntVal(e) if isinstance(e, int) else e
        sub = lambda v: L.subst_value(v, i, e)
        m = self.copy()
        m.P = lambda k: z3.substitute(self.P(k), (i, e))
        m.V = lambda k: sub(self.V(k))
        m.memo = []
        if self.seq is not None:
            n, key, val = self.seq
            from .arr import dz, dim
            m.seq = (dim(S(z3.simplify(z3.substitute(dz(n), (i, e))))), lambda q: sub(key(q)), lambda q: sub(val(q)))
        if self.w: raise Unsupported('written dictionary as an item of a symbolic sequence')
        return m

    @classmethod
    def empty(cls, label='d'):
        m = cls(label, P=lambda k: z3.BoolVal(False), V=lambda k: None)
        m.blank = True
        return m

    def concrete(self):
        """[(key, value)] in insertion order, for a dictionary that began empty and was written finitely often; else None"""
        if not self.blank or any(isinstance(w, Bulk) for w in self.w): return None
        out = []
        for k, v in self.w:
            at = next((q for q, (kk, _) in enumerate(out) if kk.eq(k) or CTX.branch(kk == k)), None)
            if v is self.DEL: del out[at]
            elif at is None: out.append((k, v))
            else: out[at] = (out[at][0], v)
        return [(LITS.get(k.get_id(), Name(k)), v) for k, v in out]

    def listing(self):
        if self.seq is None or self.w: raise Unsupported('listing of a dictionary with arbitrary contents')
        return self.seq

    def __pv_symiter__(self):
        from . import loops as L
        c = self.concrete()
        if c is not None: return [k for k, _ in c]
        n, key, val = self.listing()
        it = L.SymIter(n, key)
        it.place = self.place
        return it

    def keys(self): return self.__pv_symiter__()

    def values(self):
        from . import loops as L
        c = self.concrete()
        if c is not None: return [v for _, v in c]
        n, key, val = self.listing()
        return L.SymIter(n, lambda i: L.item_of(val(i)))

    def items(self):
        from . import loops as L
        c = self.concrete()
        if c is not None: return c
        return MapItems(self)

    def __iter__(self):
        c = self.concrete()
        if c is not None: return iter([k for k, _ in c])
        raise Unsupported('native iteration over a dictionary with arbitrary contents')
    def __pv_len__(self):
        from .arr import dimS
        c = self.concrete()
        if c is not None: return len(c)
        return dimS(self.listing()[0])
    def __len__(self): raise Unsupported('length of a dictionary with arbitrary contents')
    def __bool__(self): raise Unsupported('truth value of a dictionary with arbitrary contents')
    def update(self, other=(), **kw):
        from . import loops as L
        if hasattr(other, 'items'): other = other.items()
        if isinstance(other, MapItems) and not other.listed():
            o = other.m
            if o.blank and all(type(w) is Bulk or not isinstance(w, Bulk) and w[1] is not self.DEL for w in o.w):
                for w in list(o.w): self.put(w)          # the same writes again
            else: self.put(Overlay(o.copy()))
            other = ()
        it = L.as_iter(other)
        if isinstance(it, L.SymIter):
            lp = L.ForLoop('update', it, (), False)
            def body():
                k, v = lp.item()
                self[k] = v
            L.drv(lp, body)
        else:
            for k, v in it: self[k] = v
        for k, v in kw.items(): self[k] = v
    def clear(self):
        self.guard_loop()
        self.P, self.w, self.seq = (lambda k: z3.BoolVal(False)), [], None
    def popitem(self): raise Unsupported('popitem')
    def __eq__(self, o):
        if o is self: return True
        raise Unsupported('comparison of dictionaries with arbitrary contents')
    def __or__(self, o):
        if not isinstance(o, (dict, GhostMap)): return NotImplemented
        out = self.copy()
        out.update(o)
        return out
    def __ior__(self, o):
        self.update(o)
        return self
    def __ror__(self, o): raise Unsupported('union of dictionaries with arbitrary contents')
    __hash__ = None

    @classmethod
    def from_seq(cls, n, key, val, label='d', distinct=False, place=None):
        """{key(i): val(i) for i in range(n)}: a later item replaces an earlier one of the same name"""
        from .arr import dz
        pos = z3.Function(CTX.fresh_name(label + '.last'), NameS, I)
        N = dz(n)

        def kx(i): return name_expr(key(i))

        def last(app):
            k = app.arg(0)
            out = []
            for h in list(CTX.elem_hints) + [z3.IntVal(0), N - 1] + ([place(k)] if place is not None else []):
                if isinstance(h, tuple): continue
                out.append(z3.Implies(z3.And(h >= 0, h < N, kx(h) == k), z3.And(h <= pos(k), pos(k) < N, kx(pos(k)) == k)))
            return out
        C.add_templ(pos, last)

        def P(k): return z3.And(pos(k) >= 0, pos(k) < N, kx(pos(k)) == k)
        m = cls(label, P, lambda k: val(pos(k)), seq=(n, key, val) if distinct else None)
        m.place = pos
        return m


NOTHING = object()


class MapItems:
    """items() of a dictionary with arbitrary contents"""

    def __init__(self, m): self.m = m
    def listed(self): return self.m.seq is not None and not self.m.w

    def __pv_symiter__(self):
        from . import loops as L
        n, key, val = self.m.listing()
        it = L.SymIter(n, lambda i: (key(i), L.item_of(val(i))))
        it.place = self.m.place
        return it

    def __iter__(self): raise Unsupported('native iteration over a dictionary with arbitrary contents')


class _Token:
    def _bad(self, *a, **k): raise _Looked()
    __bool__ = __eq__ = __ne__ = __getitem__ = __iter__ = __len__ = __call__ = __getattr__ = __contains__ = __add__ = __radd__ = __format__ = __str__ = __hash__ = _bad


class _Looked(Exception):
    pass


class Bulk:
    """writes of a symbolic loop, in order: entry p of iteration (i, j) stores value at key under guard; the last write wins"""

    def __init__(self, entries):
        self.entries = entries         # [(((var, N), ...), guard, key, value)]
        lb = CTX.fresh_name('bulk')
        self.hit = z3.Function(lb + '.hit', NameS, B)
        self.which = z3.Function(lb + '.entry', NameS, I)
        depth = max(len(vs) for vs, *_ in entries)
        if depth > 2: raise Unsupported('dictionary writes in deeply nested symbolic loops')
        self.pos = [z3.Function(f'{lb}.pos{d}', NameS, I) for d in range(depth)]
        self.cache = []
        C.add_templ(self.hit, self.axioms)

    def at(self, p, ix):
        """(range and guard, key) of entry p at index tuple ix"""
        vs, g, key, _ = self.entries[p]
        sub = [(v, e) for (v, _), e in zip(vs, ix)]
        rng = [z3.And(v >= 0, v < N) for v, N in vs]
        return z3.substitute(z3.And(*rng, g), *sub), z3.substitute(key, *sub)

    def order(self, p, ix):
        """(outer, entry, inner)"""
        return [ix[0], z3.IntVal(p), ix[1] if len(ix) > 1 else z3.IntVal(0)]

    def axioms(self, app):
        import itertools
        k = app.arg(0)
        hit, which = self.hit(k), self.which(k)
        pos = [f(k) for f in self.pos]
        last = [pos[0], which, pos[1] if len(pos) > 1 else z3.IntVal(0)]
        out, alts = [], []
        hs = [h for h in CTX.elem_hints if not isinstance(h, tuple) and h.sort() == I]
        hs += [z3.simplify(h - 1) for h in hs]
        hs += [f(k) for f in CTX.name_hints]
        for p, (vs, *_ ) in enumerate(self.entries):
            ok, key = self.at(p, pos[:len(vs)])
            alts.append(z3.And(which == p, ok, key == k, *([last[2] == 0] if len(vs) == 1 else [])))
            cand = [hs + [z3.IntVal(0), N - 1] if not C.contains(N, [x for x, _ in vs]) else hs + [z3.IntVal(0)] for _, N in vs]
            for ix in itertools.product(*[{c.get_id(): c for c in cs}.values() for cs in cand]):
                ok, key = self.at(p, ix)
                me = self.order(p, ix)
                le = z3.Or(me[0] < last[0], z3.And(me[0] == last[0], z3.Or(me[1] < last[1], z3.And(me[1] == last[1], me[2] <= last[2]))))
                out.append(z3.Implies(z3.And(ok, key == k), z3.And(hit, le)))
        out.append(z3.Implies(hit, z3.Or(*alts)))
        return out

    def values(self, k):
        """[(entry number, value stored under k by that entry)]"""
        from . import loops as L
        for kk, r in self.cache:
            if kk.eq(k): return r
        out = []
        for p, (vs, g, key, val) in enumerate(self.entries):
            v = val
            for (x, _), f in zip(vs, self.pos): v = L.subst_value(v, x, f(k))
            out.append((p, v))
        self.cache.append((k, out))
        return out

    def value(self, k):
        vals = self.values(k)
        for p, v in vals[:-1]:
            if CTX.branch(self.which(k) == p): return v
        return vals[-1][1]


class Overlay(Bulk):
    """every entry of another dictionary is written"""

    def __init__(self, m):
        self.m, self.cache = m, []
        self.entries = None

    def hit(self, k): return self.m.has(k)

    def alts(self, k):
        for kk, r in self.cache:
            if kk.eq(k): return r
        r = self.m.alternatives(k)
        self.cache.append((k, r))
        return r

    def which(self, k):
        e = z3.IntVal(-1)
        for p, (c, _) in reversed(list(enumerate(self.alts(k)))): e = z3.If(c, z3.IntVal(p), e)
        return e

    def values(self, k): return [(p, v) for p, (_, v) in enumerate(self.alts(k))]

    def value(self, k):
        v = self.m.find(k)
        return self.m.base(k) if v is NOTHING else v


def identity_items(fn):
    """does fn map every (key, value) to itself without looking at it?"""
    k, v = _Token(), _Token()
    try:
        r = fn((k, v))
    except Exception:
        return False
    return isinstance(r, tuple) and len(r) == 2 and r[0] is k and r[1] is v


def blank(m): return m.blank and not m.w and type(m) is GhostMap


def fill(m, n, key, val, place):
    r = GhostMap.from_seq(n, key, val, distinct=distinct_keys(n, key), place=place)
    label, born = m.label, m._born
    m.__dict__.update(r.__dict__)
    m.label, m._born, m.blank = label, born, False


def distinct_keys(n, key):
    a, b = z3.Int('%da'), z3.Int('%db')
    n0 = CTX.push()
    for c in (a >= 0, a < b, b < (z3.IntVal(n) if isinstance(n, int) else n)): CTX.assume(c, True)
    r = CTX.holds_fast(name_expr(key(a)) != name_expr(key(b)))
    CTX.pop(n0)
    return r


def loop_entries(w):
    """a write made in one iteration, as entries"""
    if isinstance(w, Overlay): raise Unsupported('dictionary update by an arbitrary dictionary in a symbolic loop')
    if isinstance(w, Bulk): return list(w.entries)
    if w[1] is GhostMap.DEL: raise Unsupported('dictionary deletion in a symbolic loop')
    return [((), z3.BoolVal(True), w[0], w[1])]


def summarise(loop, m, paths, reads, N):
    """paths: [(guard, [writes])] of one arbitrary iteration; reads: [(guard, key)]"""
    i = loop.i
    entries = []
    for g, ws in paths:
        for w in ws:
            for vs, g2, key, val in loop_entries(w):
                entries.append((((i, N),) + vs, z3.And(g, g2), key, val))
    if not entries: return
    if blank(m) and len(entries) == 1 and len(entries[0][0]) == 1 and not reads and not m.outer() and CTX.holds_fast(
            z3.Implies(z3.And(i >= 0, i < N), entries[0][1])):
        # an empty dictionary filled in one pass: the same as a comprehension
        from . import loops as L
        _, _, key, val = entries[0]
        fill(m, N, lambda e: Name(z3.substitute(key, (i, e))), lambda e: L.subst_value(val, i, e), getattr(loop.it, 'place', None))
        return
    # what an iteration reads must not have been written by an earlier one
    ip = z3.Int('%prev')
    for g, e in reads:
        for vs, g2, key, _ in entries:
            inner = [(v, z3.Int(f'%inner{q}')) for q, (v, _) in enumerate(vs[1:])]
            sub = [(i, ip)] + inner
            rng = [z3.substitute(z3.And(v >= 0, v < n), *sub) for v, n in vs]
            n0 = CTX.push()
            for c in [i >= 0, i < N, ip < i, g] + rng + [z3.substitute(g2, *sub)]: CTX.assume(c, True)
            ok = CTX.holds_fast(z3.substitute(key, *sub) != e)
            CTX.pop(n0)
            if not ok: raise Unsupported('dictionary read that an earlier iteration may have written')
    m.put(Bulk(entries))


def kw_of(d):
    """f(**d): the names of an arbitrary dictionary travel as one object"""
    m = d
    while not isinstance(m, GhostMap) and hasattr(m, '_dict'): m = m._dict
    if not isinstance(m, GhostMap): return d
    c = m.concrete()
    if c is not None and all(isinstance(k, str) for k, _ in c): return dict(c)
    return {'__pv_kw__': m.copy()}


catF = {}


def fstr(parts):
    """formatted string; with an opaque name inside, an opaque name again (equal parts give equal names)"""
    parts = [(Name(z3.Function('str', ObjS, NameS)(v.e)), -1, s) if isinstance(v, Obj) else (v, c, s) for v, c, s in parts]
    if not any(isinstance(v, Name) for v, _, _ in parts):
        return None
    parts = [(Name(z3.Function('repr', NameS, NameS)(v.e)), -1, s) if isinstance(v, Name) and c == 114 else (v, c, s) for v, c, s in parts]
    live = [(v, c, s) for v, c, s in parts if not (isinstance(v, str) and v == '')]
    if any(c not in (-1, 115) or s for _, c, s in live) or not all(isinstance(v, (Name, str)) for v, _, _ in live):
        raise Unsupported('formatting of an arbitrary name')
    return cat([v for v, _, _ in live])


def cat(vs):
    if len(vs) == 1: return vs[0] if isinstance(vs[0], Name) else Name(literal(vs[0]))
    sig = tuple('*' if isinstance(v, Name) else v for v in vs)
    names = [v.e for v in vs if isinstance(v, Name)]
    f = z3.Function('cat:' + repr(sig), *[NameS] * len(names), NameS)
    def slash(t): return slashF(t) == z3.Or(*[slashF(n) for n in t.children()], z3.BoolVal(any('/' in v for v in vs if isinstance(v, str))))
    if ('slash', f.name()) not in CTX.stubs:
        CTX.stubs['slash', f.name()] = True
        C.add_templ(f, lambda t: [slash(t)])
    if len(names) == 1:
        inv = z3.Function('cut:' + repr(sig), NameS, NameS)
        CTX.assume(inv(f(names[0])) == names[0], True)
        if ('cut', f.name()) not in CTX.stubs:
            CTX.stubs['cut', f.name()] = True
            C.add_templ(f, lambda t: [inv(t) == t.arg(0)])
    CTX.assume(slash(f(*names)), True)
    return Name(f(*names))


def dictcomp(fn, it, cond, key):
    """{k: v for ... in it}; fn gives (k, v)"""
    from . import loops as L
    if isinstance(it, MapItems) and cond is None and identity_items(fn):
        m = it.m.copy()
        m.memo = it.m.memo
        return m
    it = L.as_iter(it)
    if not isinstance(it, L.SymIter):
        out = GhostMap.empty() if CTX.ghost_dicts else {}
        for x in it:
            if cond is None or cond(x):
                k, v = fn(x)
                out[k] = v
        return out
    if cond is not None:
        m = GhostMap.empty()
        lp = L.ForLoop(key, it, (), False)

        def body():
            x = lp.item()
            if cond(x):
                k, v = fn(x)
                m[k] = v
        L.drv(lp, body)
        return m
    lst = L.listcomp(lambda x: fn(x), it, None, key)
    if not list.__len__(lst): return GhostMap.empty()
    seg, = list.__iter__(lst)
    distinct = distinct_keys(seg.n, lambda i: seg.at(i)[0])
    return GhostMap.from_seq(seg.n, lambda i: seg.at(i)[0], lambda i: seg.at(i)[1], distinct=distinct,
                             place=getattr(it, 'place', None))
