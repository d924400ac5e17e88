"""Loop rules.

for-loops of symbolic length: the body is executed once for an arbitrary iteration (on all of its paths) and
its effects are generalised: disjoint element writes (map rule), accumulations (sum rule), scratch locations
(last-iteration rule), list appends (comprehension rule), scalar running sums.  Loops with break/return and
while-loops: inductive invariants found among templates (Houdini), initiation and preservation discharged as
obligations.
"""
from __future__ import annotations
import sys, itertools, z3
from .core import *
from . import core as C, arr as A
from .core import CTX, S, I, R, B, Unsupported, PathEnd, Restart, Recorder, Obligation, contains, lift, ival, subterms
from .arr import SArr, Buf, Layer, dz, dim, dimS, new_arr, same_dim


class CarriedUse(BaseException):
    def __init__(self, poison):
        self.poison = poison


class Poison:
    """value of a name that is not available"""

    def __init__(self, name, loop=None):
        object.__setattr__(self, '_n', name)
        object.__setattr__(self, '_l', loop)

    def _bad(self, *a, **k):
        if self._l is not None:
            raise CarriedUse(self)
        raise Unsupported(f'value of {self._n} after a symbolic loop')
    __getattr__ = _bad
    for _m in ('add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow rpow neg lt le gt ge eq ne '
               'bool index int float len iter getitem setitem call and or rand ror invert iadd isub imul contains abs').split():
        locals()[f'__{_m}__'] = _bad
    __hash__ = object.__hash__


class MList(list):
    """list display of the code under proof; mutations are journaled; may hold Seg segments"""
    _born = 0
    _item = False

    def __init__(self, *a):
        super().__init__(*a)
        self._born = CTX.loop_depth

    def append(self, x):
        if self._item: raise Unsupported(ITEM)
        CTX.journal.append(('list', self, len(self)))
        for l in CTX.loop_stack: l.on_append(self, x)
        list.append(self, x)

    def extend(self, xs):
        if not isinstance(xs, MList):
            xs = as_iter(xs)
            if isinstance(xs, SymIter): xs = listcomp(lambda v: v, xs, None, 'extend')
        for x in (list.__iter__(xs) if isinstance(xs, MList) else xs): self.append(x)

    def __iadd__(self, xs):
        self.extend(xs)
        return self

    def __bool__(self):
        return CTX.branch(dz(seg_n(self)) > 0) if self.has_seg() else list.__len__(self) > 0

    def has_seg(self):
        return any(isinstance(x, Seg) for x in self)

    def _changed(self, *a, **k):
        if self._item or self.has_seg() or CTX.loop_depth: raise Unsupported('list operation')

    def insert(self, *a): self._changed(); list.insert(self, *a)
    def pop(self, *a): self._changed(); return list.pop(self, *a)
    def remove(self, *a): self._changed(); list.remove(self, *a)
    def clear(self): self._changed(); list.clear(self)
    def sort(self, **k): self._changed(); list.sort(self, **k)
    def reverse(self): self._changed(); list.reverse(self)

    def __delitem__(self, k):
        self._changed()
        list.__delitem__(self, k)

    def __setitem__(self, k, v):
        if self._item: raise Unsupported(ITEM)
        if CTX.loop_depth > 0 and self._born < CTX.loop_depth:
            raise Unsupported('list item assignment in a symbolic loop')
        if self.has_seg() and not isinstance(k, slice):
            return seg_setitem(self, k, v)
        if isinstance(k, S): k = k.__index__()
        list.__setitem__(self, k, v)

    def __getitem__(self, k):
        if self.has_seg():
            return seg_getitem(self, k)
        if isinstance(k, S):
            v = ival(k)
            if v is None:
                if isinstance(k, S) and list.__len__(self) and all(isinstance(x, (int, float, S)) for x in self):
                    return A.from_list(list(self))[k]
                raise Unsupported('symbolic list index')
            k = v
        r = list.__getitem__(self, k)
        return MList(r) if isinstance(k, slice) else r

    def __add__(self, o): return MList(list.__add__(self, list(o) if not isinstance(o, list) else o))
    def __radd__(self, o): return MList(list.__add__(list(o), self))
    def __mul__(self, n):
        if isinstance(n, S) and ival(n) is None and list.__len__(self) == 1 and (
                self[0] is None or isinstance(self[0], (int, float, str, S))):
            N = C.toint(n)
            if not CTX.known(N >= 0): N = z3.If(N > 0, N, z3.IntVal(0))
            return MList([Seg(dim(S(z3.simplify(N))), CTX.index_var('rep'), self[0])])
        if isinstance(n, S): n = n.__index__()
        return MList(list.__mul__(self, n))
    __rmul__ = __mul__
    def copy(self): return MList(self)
    __hash__ = None


class Seg:
    """n consecutive list items fn(0..n-1)"""

    def __init__(self, n, i, item):
        self.n, self.i, self.item = n, i, item     # n dim; i generic z3 var; item value in terms of i

    def at(self, e):
        return subst_value(self.item, self.i, e)


def item_of(v):
    """an item of a symbolic sequence is a copy made for this use: a change made to it would be lost, so it may not be changed"""
    if isinstance(v, SArr): v.buf.item = True
    elif isinstance(v, tuple):
        for x in v: item_of(x)
    elif isinstance(v, MList):
        v._item = True
        for x in list.__iter__(v):
            if not isinstance(x, Seg): item_of(x)
    elif is_user(v):
        CTX.item_objs[id(v)] = v
        for x in v.__dict__.values(): item_of(x)
    else:
        from .ghost import GhostMap
        if isinstance(v, GhostMap): v.item = True
    return v


ITEM = 'change of an item of a symbolic sequence'


def seg_len(l):
    n = 0
    for x in list.__iter__(l):
        m = x.n if isinstance(x, Seg) else 1
        n = n + m if isinstance(n, int) and isinstance(m, int) else z3.simplify(dz(n) + dz(m))
    return dimS(n)


def seg_getitem(l, k):
    items = list(list.__iter__(l))
    if isinstance(k, slice):
        if len(items) != 1 or k.step not in (None, 1): raise Unsupported('slice of a symbolic list')
        g, n = items[0], dz(items[0].n)

        def bound(b, dflt):
            if b is None: return dflt
            b = C.toint(S(lift(b)))
            if not CTX.known(b >= 0) and not CTX.branch(b >= 0): b = b + n
            b = z3.simplify(b)
            if not CTX.known(b >= 0) and not CTX.branch(b >= 0): return z3.IntVal(0)
            return b if CTX.known(b <= n) or CTX.branch(b <= n) else n
        a, e = bound(k.start, z3.IntVal(0)), bound(k.stop, n)
        m = z3.simplify(e - a)
        if not CTX.known(m >= 0) and not CTX.branch(m >= 0): m = z3.IntVal(0)
        if z3.is_int_value(m) and m.as_long() == 0: return MList()
        i2 = CTX.index_var('sl')
        return MList([Seg(dim(S(m)), i2, g.at(z3.simplify(i2 + a)))])
    v = ival(k)
    if len(items) == 1:
        e = A.norm_index(k, items[0].n)
        return item_of(items[0].at(e))
    if v is not None and v >= 0:
        for x in items:
            if isinstance(x, Seg): break
            if v == 0: return x
            v -= 1
    if v == -1 and not isinstance(items[-1], Seg):
        return items[-1]
    e = A.norm_index(k, seg_n(l))
    x, o = locate_seg(items, e)
    return item_of(items[x].at(o)) if isinstance(items[x], Seg) else items[x]


def seg_n(l):
    n = seg_len(l)
    return dim(n) if isinstance(n, S) else n


def locate_seg(items, e):
    """position of the item that holds index e (in range), and the offset inside it"""
    o = z3.IntVal(e) if isinstance(e, int) else e
    for x, it in enumerate(items):
        n = dz(it.n) if isinstance(it, Seg) else z3.IntVal(1)
        if x == len(items) - 1 or CTX.branch(o < n): return x, z3.simplify(o)
        o = o - n
    raise IndexError('list index out of range')


def seg_setitem(l, k, v):
    e = A.norm_index(k, seg_n(l))
    items = list(list.__iter__(l))
    x, o = locate_seg(items, e)
    if not isinstance(items[x], Seg):
        list.__setitem__(l, x, v)
        return
    s = items[x]
    if hasattr(v, '__pv_ite__') and type(v) is type(s.item) or isinstance(v, S) and isinstance(s.item, S) and v.k == s.item.k:
        new = S(z3.If(s.i == o, v.e, s.item.e)) if isinstance(v, S) else v.__pv_ite__(s.i == o, s.item)
        list.__setitem__(l, x, Seg(s.n, s.i, new))
        return
    rest = z3.simplify(dz(s.n) - o - 1)
    i2 = z3.Int(CTX.fresh_name('$seg'))
    CTX.idx_vars[i2.get_id()] = i2
    tail = Seg(dim(S(rest)), i2, subst_value(s.item, s.i, i2 + o + 1))
    new = items[:x] + [Seg(dim(S(o)), s.i, s.item), v, tail] + items[x + 1:]
    list.__setitem__(l, slice(None), new)


def subst_value(v, i, e):
    e = z3.IntVal(e) if isinstance(e, int) else e
    if isinstance(v, S):
        return S(z3.substitute(v.e, (i, e)), v.k)
    if isinstance(v, SArr):
        f = v.snap()
        shape = tuple(dim(S(z3.substitute(d, (i, e)))) if not isinstance(d, int) else d for d in v._shape)
        r = new_arr(shape, v.dt, lambda idx: z3.substitute(f(idx), (i, e)))
        r.buf.tag = v.buf.tag
        return r
    if isinstance(v, z3.ExprRef):
        return z3.substitute(v, (i, e))
    if isinstance(v, tuple):
        return tuple(subst_value(x, i, e) for x in v)
    if isinstance(v, MList):
        return MList(Seg(dim(S(z3.substitute(dz(x.n), (i, e)))), x.i, subst_value(x.item, i, e)) if isinstance(x, Seg)
                     else subst_value(x, i, e) for x in list.__iter__(v))
    if isinstance(v, list):
        return [subst_value(x, i, e) for x in v]
    if isinstance(v, dict):
        return {k: subst_value(x, i, e) for k, x in v.items()}
    if hasattr(v, '__pv_subst__'):
        return v.__pv_subst__(i, e)
    if is_user(v):
        o = object.__new__(type(v))
        o.__dict__.update({k: subst_value(x, i, e) for k, x in v.__dict__.items()})
        return o
    return v


def freeze_value(v):
    if isinstance(v, SArr):
        c = v.copy()
        c.buf.tag = v.buf.tag
        return c
    if isinstance(v, tuple):
        return tuple(freeze_value(x) for x in v)
    if type(v) in (list, MList):
        return MList(freeze_value(x) for x in list.__iter__(v))
    if isinstance(v, Seg):
        return Seg(v.n, v.i, freeze_value(v.item))
    if is_user(v) and v.__dict__ and born_in_loop(v):
        o = object.__new__(type(v))
        o.__dict__.update({k: freeze_value(x) for k, x in v.__dict__.items()})
        return o
    return v


def born_in_loop(v):
    return all(isinstance(x, (SArr, S, int, float, str, type(None))) for x in v.__dict__.values())


def merge(cvs):
    """[(cond, value)] exhaustive -> one value"""
    vals = [v for _, v in cvs]
    v0 = vals[0]
    if len(cvs) == 1:
        return v0
    if any(isinstance(v, SArr) and v.ndim == 0 for v in vals) and all(
            isinstance(v, (S, int, float, bool)) or isinstance(v, SArr) and v.ndim == 0 and v.k != 'o' for v in vals) and not all(
            isinstance(v, SArr) for v in vals):
        return merge([(c, v.__pv_scalar__() if isinstance(v, SArr) else v) for c, v in cvs])
    if all(isinstance(v, (S, int, float, bool)) for v in vals):
        if all(not isinstance(v, S) for v in vals) and all(type(v) is type(v0) and v == v0 for v in vals):
            return v0
        es = [C.lift(v) for v in vals]
        if any(e.sort() != es[0].sort() for e in es):
            es = [C.toreal(S(e)) if any(x.sort() == R for x in es) else C.num(S(e)) for e in es]
        out = es[-1]
        for (c, _), e in list(zip(cvs, es))[-2::-1]:
            out = z3.If(c, e, out) if not e.eq(out) else out
        return S(out)
    if all(isinstance(v, SArr) for v in vals):
        if any(v.ndim != v0.ndim for v in vals): raise Unsupported('merging arrays of different shapes')
        shape = list(v0._shape)
        for k in range(v0.ndim):
            if any(same_dim(v._shape[k], v0._shape[k]) is not True and not CTX.holds(dz(v._shape[k]) == dz(v0._shape[k])) for v in vals):
                shape[k] = dim(merge([(c, S(dz(v._shape[k]))) for c, v in cvs]))
        fs = [v.snap() for v in vals]
        cs = [c for c, _ in cvs]
        dt = max((v.dt for v in vals), key=lambda d: A.DTRANK.index(d.name) if d.name in A.DTRANK else 9)

        def base(idx):
            out = A.conv(fs[-1](idx), dt.k)
            for c, f in list(zip(cs, fs))[-2::-1]:
                e = A.conv(f(idx), dt.k)
                out = z3.If(c, e, out) if not e.eq(out) else out
            return out
        r = new_arr(tuple(shape), dt, base)
        r.buf.tag = next((v.buf.tag for v in vals if v.buf.tag is not None), None)
        return r
    if all(type(v) in (tuple, list, MList) and len(v) == len(v0) for v in vals) and not any(
            isinstance(x, Seg) for v in vals if isinstance(v, list) for x in list.__iter__(v)):
        items = [merge([(c, v[k]) for c, v in cvs]) for k in range(len(v0))]
        return tuple(items) if isinstance(v0, tuple) else MList(items)
    if all(v is v0 for v in vals):
        return v0
    if hasattr(v0, '__pv_ite__') and all(type(v) is type(v0) for v in vals):
        out = vals[-1]
        for (c, v) in cvs[-2::-1]: out = v.__pv_ite__(c, out)
        return out
    if all(v is None for v in vals):
        return None
    if all(is_user(v) or isinstance(v, Alt) for v in vals):
        return Alt(cvs)
    try:
        if all(type(v) is type(v0) and v == v0 for v in vals if isinstance(v0, (str, bytes))) and isinstance(v0, (str, bytes)):
            return v0
    except Exception:
        pass
    raise Unsupported('merging values of different paths')


class Alt:
    """one of several objects of the code under proof, depending on conditions; settled when it is used"""

    def __init__(self, cvs): object.__setattr__(self, '_cvs', cvs)

    def pick(self):
        for c, v in self._cvs[:-1]:
            if CTX.branch(c): return v.pick() if isinstance(v, Alt) else v
        v = self._cvs[-1][1]
        return v.pick() if isinstance(v, Alt) else v

    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        return getattr(self.pick(), k)

    def __setattr__(self, k, v): raise Unsupported('attribute assignment to one of several objects')
    def __getitem__(self, k): return self.pick()[k]
    def __setitem__(self, k, v): raise Unsupported('item assignment to one of several objects')
    def __pv_isinstance__(self, t):
        from .loader import isinstance_
        return isinstance_(self.pick(), t)
    def __pv_subst__(self, i, e): return Alt([(z3.substitute(c, (i, e)), subst_value(v, i, e)) for c, v in self._cvs])
    def _bad(self, *a): raise Unsupported('operation on one of several objects')
    __eq__ = __ne__ = __bool__ = __len__ = __iter__ = __call__ = __contains__ = __add__ = __lt__ = _bad
    __hash__ = object.__hash__


# ------------------------------------------------------------------ iterables
class SymIter:
    """symbolic iterable: n (dim) and item(i z3) -> value"""

    def __init__(self, n, item):
        self.n, self._item = n, item

    def item(self, i):
        return self._item(i)

    def __iter__(self):
        if isinstance(self.n, int): return iter(as_iter(self))
        raise Unsupported('native iteration over a symbolic sequence')
    def _bad(self, *a): raise Unsupported('operation on a symbolic sequence')
    __len__ = __getitem__ = __contains__ = __bool__ = __next__ = __add__ = __radd__ = _bad
    def __pv_len__(self): return dimS(self.n)


class SRange:
    def __init__(self, a, b, step=1):
        self.a, self.b, self.step = a, b, step

    def symiter(self):
        st = ival(self.step)
        if st is None or st == 0: raise Unsupported('symbolic range step')
        a, b = C.toint(S(lift(self.a))), C.toint(S(lift(self.b)))
        if st > 0:
            n = z3.simplify((b - a) if st == 1 else (b - a + (st - 1)) / st)
        else:
            n = z3.simplify((a - b) if st == -1 else (a - b + (-st - 1)) / (-st))
        if not CTX.known(n >= 0):
            n = z3.simplify(z3.If(n > 0, n, z3.IntVal(0)))
        return SymIter(dim(n), lambda i: S(z3.simplify(a + st * i)))

    def __iter__(self):
        it = self.symiter()
        if isinstance(it.n, int):
            return iter([it.item(z3.IntVal(j)) for j in range(it.n)])
        raise Unsupported('native iteration over a symbolic range')


def as_iter(x):
    """-> ('c', python iterable) or SymIter"""
    if isinstance(x, SymIter):
        return x if not isinstance(x.n, int) else [simp(x.item(z3.IntVal(j))) for j in range(x.n)]
    if isinstance(x, SRange):
        return as_iter(x.symiter())
    if isinstance(x, SArr):
        if x.ndim == 0: raise TypeError('iteration over a 0-d array')
        d = x._shape[0]
        if isinstance(d, int):
            return [x[j] for j in range(d)]
        return SymIter(d, lambda i: x[S(i)])
    if isinstance(x, MList) and x.has_seg():
        items = list(list.__iter__(x))
        if len(items) == 1:
            return SymIter(items[0].n, lambda i: item_of(items[0].at(i)))
        def item(i):
            k, o = locate_seg(items, i)
            return item_of(items[k].at(o)) if isinstance(items[k], Seg) else items[k]
        return SymIter(seg_n(x), item)
    if hasattr(x, '__pv_symiter__'):
        return as_iter(x.__pv_symiter__())
    if is_user(x) and hasattr(type(x), '__iter__') and '__next__' not in dir(type(x)):
        it = type(x).__iter__(x)
        return as_iter(it) if isinstance(it, SymIter) else it
    return x


def is_user(x):
    """instance of a class of the code under proof"""
    return getattr(type(x), '__module__', '').startswith('pyhipp') and hasattr(x, '__dict__')


def iter_builtin(x, *a):
    if a: return iter(x, *a)
    it = as_iter(x)
    return it if isinstance(it, SymIter) else iter(it)


def simp(v):
    if isinstance(v, S):
        e = z3.simplify(v.e)
        if v.k == 'i' and z3.is_int_value(e):
            return e.as_long()
        return S(e, v.k)
    return v


def enumerate_(x, start=0):
    it = as_iter(x)
    if isinstance(it, SymIter):
        return SymIter(it.n, lambda i: (simp(S(z3.simplify(lift(start) + i))), it.item(i)))
    return enumerate(it, start)


def zip_(*xs, strict=False):
    its = [as_iter(x) for x in xs]
    sy = [it for it in its if isinstance(it, SymIter)]
    if not sy:
        return zip(*its, strict=strict)
    n = sy[0].n
    for it in sy[1:]:
        if same_dim(n, it.n) is not True:
            n = z3.simplify(z3.If(dz(it.n) < dz(n), dz(it.n), dz(n))) if not CTX.known(dz(n) == dz(it.n)) else n
    conc = []
    for it in its:
        if not isinstance(it, SymIter):
            it = list(it)
            if not CTX.known(dz(n) <= len(it)):
                raise Unsupported('zip of symbolic and concrete sequences')
            conc.append(it)
    return SymIter(n, lambda i: tuple(it.item(i) if isinstance(it, SymIter) else MList(it)[S(i)] for it in its))


def reversed_(x):
    it = as_iter(x)
    if isinstance(it, SymIter):
        return SymIter(it.n, lambda i: it.item(z3.simplify(dz(it.n) - 1 - i)))
    return reversed(it if hasattr(it, '__reversed__') or hasattr(it, '__len__') else list(it))


# ------------------------------------------------------------------ summarised for loop
class Info:
    def __init__(self):
        self.carried = set()
        self.acc = set()
        self.real = set()
        self.inv = False
        self.bufs = set()
        self.alive = None
        self.removed = set()
        self.peel = False
        self.layers = None


def contains_fn(e, fn):
    return any(z3.is_app(t) and t.decl().eq(fn) for t in subterms([e]).values())


class ForLoop:
    def __init__(self, key, it, names, has_exit):
        occ = CTX.cnt.get('L' + key, 0)
        CTX.cnt['L' + key] = occ + 1
        self.key = (key, occ, tuple(l.key for l in CTX.loop_stack))
        self.it, self.names, self.has_exit = it, names, has_exit
        self.info = CTX.loopinfo.setdefault(self.key, Info())
        self.fins = {}
        self.state = {}
        self.mode = 'inv' if has_exit or self.info.inv else 'sum'
        self.plain = False
        self.done = False
        self.raised = False

    # names -----------------------------------------------------------------
    def has(self, n): return n in self.state
    def ld(self, n): return self.state[n]
    def fin(self, n): return self.done and n in self.fins
    def final(self, n): return self.fins[n]
    def item(self):
        return simp_tuple(self.it.item(self.cur))

    def exited(self, e):
        """exception e raised by the body"""
        if self.plain: raise e
        if isinstance(e, CarriedUse) and e.poison._l is self:
            self.info.carried.add(e.poison._n)
            self.redo = True
            return
        if isinstance(e, PathEnd) and self.mode == 'sum':
            self.dead = True
            return
        if isinstance(e, (Unsupported, Restart, CarriedUse, PathEnd)) or self.mode != 'sum':
            raise e
        if isinstance(e, (AttributeError, TypeError, NameError)) and not self.user_error(e):
            raise e
        # an exception of the code under proof in some iteration
        if self.phase == 0:
            self.dead = True
            return
        conds = [c for c in CTX.pc[self.npc:] if c.get_id() not in CTX.facts]
        self.restore()
        self.raised = True
        if CTX.choose():
            CTX.assume(z3.And(*conds))
            raise e
        self.dead = True
        self.restored = True

    def user_error(self, e):
        return isinstance(e, (ValueError, KeyError, AssertionError, IndexError, TypeError))

    def restore(self):
        """undo the effects of one body execution"""
        while len(CTX.journal) > self.mark:
            undo(CTX.journal.pop(), self.bufmark)
        CTX.pop(self.npc)
        CTX.recs.pop()
        CTX.loop_stack.pop()
        CTX.loop_depth -= 1

    def on_append(self, l, x): pass

    def arr_step(self, h, v):
        """increment of a rebound accumulator array at a generic index, None if it is not of that form"""
        if not hasattr(h, 'fresh_fn') or not isinstance(v, SArr) or v.ndim != h.ndim or v.k != h.k: return None
        if any(same_dim(x, y) is not True for x, y in zip(v._shape, h._shape)): return None
        d = z3.simplify(v.at(*h.fresh_ix) - h.at(*h.fresh_ix), som=True)
        return None if contains_fn(d, h.fresh_fn) else d

    def runs(self):
        frame = sys._getframe(1)
        if self.mode == 'inv':
            yield from self.runs_inv(frame)
        else:
            if self.info.peel:
                # the first iteration by itself, then the others
                if not CTX.branch(dz(self.it.n) > 0):
                    self.fins = {nm: frame.f_locals[nm] for nm in self.names if nm in frame.f_locals}
                    self.done = True
                    return
                self.cur, self.plain = z3.IntVal(0), True
                yield None
                self.plain = False
                it0 = self.it
                self.it = SymIter(dim(S(dz(it0.n) - 1)), lambda i: it0.item(z3.simplify(i + 1)))
            yield from self.runs_sum(frame)

    def runs_sum(self, frame):
        pre = dict(frame.f_locals)
        self.i = self.cur = CTX.index_var('i')
        n = self.n = self.it.n
        N = dz(n)
        known_writes = []          # [(buf, layer, conds)]
        csym, folds = {}, {}
        for self.phase in range(0, 8):
            again = False
            # carried names
            state = {}
            for nm in self.names:
                if nm in pre:
                    state[nm] = Poison(nm, self) if nm not in self.info.carried else csym.get(nm)
                    if nm in self.info.carried and state[nm] is None:
                        v = pre[nm]
                        if isinstance(v, Poison): v._bad()
                        if isinstance(v, SArr):
                            if nm not in self.info.acc:
                                csym[nm] = state[nm] = v        # assumed to be updated in place; checked below
                            else:
                                csym[nm] = state[nm] = A.fresh_like(v)
                            continue
                        if inplace(v):
                            csym[nm] = state[nm] = v        # assumed to be updated in place; checked below
                            continue
                        if v is None and not self.info.peel:
                            self.info.peel = True
                            raise Restart()
                        if hasattr(v, '__pv_same__'):
                            csym[nm], folds[nm] = fold_of(v, self.i, nm)
                            state[nm] = csym[nm]
                            continue
                        if not isinstance(v, (S, int, float, bool)):
                            raise Unsupported(f'loop-carried value of {nm}')
                        sort = R if (C.lift(v).sort() == R or nm in self.info.real) else I
                        cst = z3.Const(CTX.fresh_name('$c_' + nm), sort)
                        CTX.idx_vars[cst.get_id()] = cst
                        CTX.keep.append(cst)
                        csym[nm] = S(cst)
                        state[nm] = csym[nm]
                else:
                    # unbound before the loop: bound by the first iteration if a later one reads it
                    if nm in self.info.carried:
                        if self.info.peel: raise Unsupported(f'{nm} may be unbound in a loop')
                        self.info.peel = True
                        self.info.carried.discard(nm)
                        raise Restart()
                    state[nm] = Poison(nm, self)
            self.state = state
            paths, stack = [], [[]]
            maps = []
            saved_bases = []
            new_arrs = []
            if known_writes:
                for b in {id(b): b for b, _, _ in known_writes}.values():
                    saved_bases.append((b, b.base, b.layers))
                    guard_base(b, [(l, c) for bb, l, c in known_writes if bb is b], self, N)
            self.redo = False
            CTX.suppress += (self.phase == 0)
            npaths = 0
            while stack:
                CTX.check_deadline()
                npaths += 1
                if npaths > 600: raise Unsupported('too many paths in a loop body')
                prefix = stack.pop()
                self.mark = len(CTX.journal)
                self.bufmark = Buf.n
                self.npc = CTX.push()
                CTX.loop_depth += 1
                CTX.loop_stack.append(self)
                rec = Recorder(prefix)
                CTX.recs.append(rec)
                CTX.assume(z3.And(self.i >= 0, self.i < N))
                self.pc_body = list(CTX.pc)
                self.dead = False
                self.restored = False
                yield None
                if self.redo:
                    if not self.restored: self.restore()
                    again = True
                    break
                stack.extend(rec.alts)
                if self.restored:
                    continue
                if not self.dead:
                    loc = dict(frame.f_locals)
                    conds = [c for c in CTX.pc[self.npc + count_and(self.i, N):] if c.get_id() not in CTX.facts]
                    jr = CTX.journal[self.mark:]
                    writes, appends = [], []
                    perbuf = {}
                    gw, gr = {}, []
                    for ent in jr:
                        if ent[0] == 'buf' and ent[1].id <= self.bufmark:
                            perbuf.setdefault(id(ent[1]), (ent[1], len(ent[2])))
                        elif ent[0] == 'list' and ent[1]._born < CTX.loop_depth:
                            if not any(a[0] is ent[1] for a in appends):
                                appends.append([ent[1], ent[2]])
                        elif ent[0] == 'gmap' and ent[1]._born < CTX.loop_depth:
                            gw.setdefault(id(ent[1]), (ent[1], ent[2]))
                        elif ent[0] == 'gread' and ent[1]._born < CTX.loop_depth:
                            gr.append((ent[1], ent[2]))
                        elif ent[0] == 'attr':
                            raise Unsupported('attribute assignment on an outer object in a symbolic loop')
                    maps.append((z3.And(*conds) if conds else z3.BoolVal(True),
                                 [(m, [(w[0], freeze_value(w[1])) if isinstance(w, tuple) else w for w in m.w[n0:]]) for m, n0 in gw.values()], gr))
                    for b, n0 in perbuf.values():
                        writes.append((b, b.layers[n0:]))
                    appends = [(l, [freeze_value(x) for x in list.__getitem__(l, slice(n0, None))]) for l, n0 in appends]
                    vals = {}
                    for nm in self.names:
                        if nm in loc and not isinstance(loc[nm], Poison):
                            vals[nm] = loc[nm]
                    new_arrs.append((conds, {nm: (vals.get(nm) is csym[nm], self.arr_step(csym[nm], vals.get(nm))) for nm in self.info.carried
                                             if isinstance(csym.get(nm), SArr) or inplace(csym.get(nm))}))
                    vals = {k: freeze_value(v) for k, v in vals.items()} if self.phase else vals
                    paths.append((conds, writes, appends, vals))
                self.restore()
            CTX.suppress -= (self.phase == 0)
            for b, base, layers in saved_bases:
                b.base, b.layers = base, layers
            if again:
                continue
            if not paths and self.phase:
                # no iteration can complete: the loop is empty
                CTX.assume(N <= 0)
                if not CTX.feasible(z3.BoolVal(True)): raise PathEnd()
            # what was written
            nw = [(b, l, z3.And(*c) if c else z3.BoolVal(True)) for c, ws, _, _ in paths for b, ls in ws for l in ls]
            # carried scalars
            newc = {}
            for nm in sorted(self.info.carried):
                if nm in folds:
                    if self.phase: self.fins[nm] = fold_step(nm, folds[nm], paths, self.i, N)
                    continue
                if inplace(csym.get(nm)):
                    if not all(d[nm][0] for _, d in new_arrs): raise Unsupported(f'loop-carried value of {nm}')
                    self.fins[nm] = csym[nm]
                    continue
                if isinstance(csym.get(nm), SArr) and nm not in self.fins:
                    if nm not in self.info.acc:
                        if all(d[nm][0] for _, d in new_arrs):
                            self.fins[nm] = pre[nm]
                        else:
                            self.info.acc.add(nm); csym.pop(nm); again = True
                        continue
                    if any(d[nm][1] is None for _, d in new_arrs) or any(contains_fn(c, csym[nm].fresh_fn) for cs, _ in new_arrs for c in cs):
                        raise Unsupported(f'loop-carried array {nm}')
                    ix = csym[nm].fresh_ix
                    dm = merge([(z3.And(*cs) if cs else z3.BoolVal(True), S(d[nm][1])) for cs, d in new_arrs]).e if new_arrs else A.zero_of(csym[nm].sort)
                    v0 = pre[nm].snap()
                    mk = lambda hi, dm=dm, ix=ix, v0=v0, p=pre[nm]: A.new_arr(p._shape, p.dt, lambda idx: z3.simplify(v0(idx) + A.mk_sum(
                        lambda j: z3.substitute(dm, (self.i, j), *zip(ix, idx)), hi, dm.sort())))
                    csym[nm] = mk(self.i)
                    self.fins[nm] = mk(n)
                    again = True
                    continue
                if isinstance(csym.get(nm), SArr): continue
                if not isinstance(csym.get(nm), S) or not z3.is_const(csym[nm].e) or csym[nm].e.get_id() not in CTX.idx_vars:
                    continue
                h = csym[nm].e
                allc = [v.e for v in csym.values() if z3.is_const(v.e)]
                ds = []
                for conds, _, _, vals in paths:
                    v = vals.get(nm, S(h))
                    e = C.num(v)
                    if e.sort() != h.sort():
                        if h.sort() == I and e.sort() == R:
                            self.info.real.add(nm); csym.pop(nm); again = True; break
                        e = C.toreal(S(e))
                    d = z3.simplify(e - h, som=True)
                    if contains(d, allc) or any(contains(c, allc) for c in conds):
                        self.info.inv = True
                        raise Restart()
                    ds.append((z3.And(*conds) if conds else z3.BoolVal(True), S(d)))
                if again: break
                dm = merge(ds).e if ds else z3.IntVal(0)
                newc[nm] = dm
            if again:
                continue
            if newc:
                for nm, dm in newc.items():
                    v0 = C.toreal(S(C.lift(pre[nm]))) if dm.sort() == R else C.num(S(C.lift(pre[nm])))
                    f = (lambda dm: lambda j: z3.substitute(dm, (self.i, j)))(dm)
                    csym[nm] = S(z3.simplify(v0 + A.mk_sum(f, self.i, dm.sort())))
                    self.fins[nm] = S(z3.simplify(v0 + A.mk_sum(f, n, dm.sort())))
                known_writes = nw
                continue
            if self.phase == 0 or set((b.id, lsig(l)) for b, l, _ in nw) != set((b.id, lsig(l)) for b, l, _ in known_writes):
                known_writes = nw
                if self.phase == 0 or self.phase < 6:
                    continue
                raise Unsupported('unstable write set of a loop')
            break
        else:
            raise Unsupported('loop summary did not stabilise')
        if self.raised and not CTX.suppress:
            # the iterations that raise did not take place
            al = z3.simplify(z3.Or(*[z3.And(*c) if c else z3.BoolVal(True) for c, _, _, _ in paths]))
            if not contains(al, [v.e for v in csym.values() if isinstance(v, S)]):
                for t in [t for t in CTX.elem_hints if z3.is_expr(t) and t.sort() == I]:
                    CTX.assume(z3.Implies(z3.And(t >= 0, t < N), z3.substitute(al, (self.i, t))), True)
        self.summarise(paths, n, N, pre)
        if any(ws or rs for _, ws, rs in maps):
            from . import ghost
            for m in {id(m): m for _, ws, _ in maps for m, _ in ws}.values():
                ghost.summarise(self, m, [(g, [w for mm, l in ws if mm is m for w in l]) for g, ws, _ in maps],
                                [(g, e) for g, _, rs in maps for mm, e in rs if mm is m], N)
            for _, _, rs in maps:
                for m, e in rs:
                    if m.outer(): CTX.journal.append(('gread', m, e))
        self.done = True

    def summarise(self, paths, n, N, pre):
        i = self.i
        bufs = {}
        for pi, (conds, ws, _, _) in enumerate(paths):
            g = z3.And(*conds) if conds else z3.BoolVal(True)
            for b, ls in ws:
                for l in ls:
                    bufs.setdefault(b.id, (b, []))[1].append((pi, g, l))
        npaths = len(paths)
        for b, ls in bufs.values():
            self.sum_buf(b, ls, npaths, n, N)
        # appends
        lists = {}
        for pi, (conds, _, aps, _) in enumerate(paths):
            for l, items in aps:
                lists.setdefault(id(l), (l, {}))[1][pi] = items
        for l, d in lists.values():
            counts = {len(d.get(pi, ())) for pi in range(npaths)}
            if counts == {0, 1}:
                # a filtered list: the iterations that append, in order
                from . import npm
                use = [(z3.And(*paths[pi][0]) if paths[pi][0] else z3.BoolVal(True), x[0]) for pi, x in d.items() if len(x)]
                if any(isinstance(x, Seg) for _, x in use): raise Unsupported('conditional append of runs in a symbolic loop')
                g = z3.simplify(z3.Or(*[c for c, _ in use]))
                item = merge(use)
                mask = new_arr((n,), 'b1', lambda ix: z3.substitute(g, (i, ix[0])))
                rec, pv, _ = npm.compress_family(mask)
                cnt = z3.simplify(rec.cnt(pv))
                CTX.assume(z3.And(cnt >= 0, cnt <= N), True)
                CTX.compress_reg[cnt.get_id()] = (cnt, rec, pv, N)
                p = CTX.index_var('p')
                l.append(Seg(dim(S(cnt)), p, subst_value(item, i, rec.sigma(*pv, p))))
                continue
            if counts != {1}:
                raise Unsupported('conditional or multiple append in a symbolic loop')
            items = [d[pi][0] for pi in range(npaths)]
            if any(isinstance(x, Seg) for x in items):
                # every iteration appends a run of one common length
                if npaths != 1 or contains(dz(items[0].n), [i]): raise Unsupported('runs of varying length appended in a symbolic loop')
                g = items[0]
                p, m = CTX.index_var('p'), dz(g.n)
                item = subst_value(subst_value(g.item, g.i, C.pmodF(p, m) if ival(m) is None else p % m), i, C.pdivF(p, m) if ival(m) is None else p / m)
                l.append(Seg(dim(S(dz(n) * m)), p, item))
                continue
            item = merge([(z3.And(*paths[pi][0]) if paths[pi][0] else z3.BoolVal(True), d[pi][0]) for pi in range(npaths)])
            l.append(Seg(n, i, item))
        # finals
        nonempty = CTX.known(N > 0)
        for nm in self.names:
            if nm in self.fins: continue
            if nm in self.info.carried:
                continue
            vals = [(z3.And(*c) if c else z3.BoolVal(True), v[nm]) for c, _, _, v in paths if nm in v]
            if not vals:
                if nm in pre: self.fins[nm] = pre[nm]
                continue
            ok = nonempty and len(vals) == len(paths)
            if ok:
                try:
                    self.fins[nm] = subst_value(merge(vals), i, z3.simplify(N - 1))
                    continue
                except Unsupported:
                    pass
            self.fins[nm] = Poison(nm)
        for nm in list(self.fins):
            if isinstance(self.fins[nm], Poison) and nm in pre and isinstance(pre[nm], (SArr,)):
                # rebinding to the same array object (in-place update)
                pass

    def sum_buf(self, b, ls, npaths, n, N):
        i = self.i
        if all(l.acc in ('+', '-') for _, _, l in ls):
            isr = b.dt.k == 'r'

            def val(idx):
                def body(j):
                    out = None
                    for _, g, l in ls:
                        v = A.conv(l.val(idx), b.dt.k)
                        if l.acc == '-': v = -v
                        t = z3.If(z3.And(g, l.hit(idx)), v, A.zero_of(v.sort()))
                        out = t if out is None else out + t
                    return z3.substitute(z3.simplify(out), (i, j))
                return A.mk_sum(body, n, R if isr else I)
            b.push(Layer(lambda idx: z3.BoolVal(True), val, '+', [('any',)] * len(b.shape)))
            return
        if any(l.acc for _, _, l in ls):
            raise Unsupported('mixture of stores and accumulations in a loop')
        dep, free = [], []
        for t in ls:
            l = t[2]
            if l.sels is None:
                raise Unsupported('masked store in a symbolic loop')
            ax = None
            for k, s in enumerate(l.sels):
                if s[0] == 'pt' and contains(s[1], [i]):
                    x = z3.Int('%idx')
                    sol = A.solve_for(z3.simplify(s[1]), x, i)
                    if sol is None:
                        raise Unsupported('store at a non-affine index in a symbolic loop')
                    ax = (k, sol, x); break
            if ax is None and any(contains(e, [i]) for s in l.sels for e in s[1:] if isinstance(e, z3.ExprRef)):
                raise Unsupported('store to an iteration-dependent range')
            (free if ax is None else dep).append((t, ax))
        if dep:
            k0, sol0, x0 = dep[0][1]
            for t, (k, sol, x) in dep[1:]:
                if k != k0 or not z3.simplify(sol).eq(z3.simplify(sol0)):
                    raise Unsupported('stores at different offsets in a symbolic loop')
        if dep and free:
            raise Unsupported('iteration-dependent and -independent stores to one array in a loop')
        if dep:
            for (pi, g, l), (k, sol, x) in dep:
                def jj(idx, sol=sol, k=k, x=x):
                    return z3.simplify(z3.substitute(sol, (x, idx[k])))

                def hit(idx, l=l, g=g, jj=jj):
                    j = jj(idx)
                    return z3.And(j >= 0, j < N, z3.substitute(z3.And(g, l.hit(idx)), (i, j)))

                def val(idx, l=l, jj=jj):
                    return z3.substitute(l.val(idx), (i, jj(idx)))
                sels = [s if q != k else ('any',) for q, s in enumerate(l.sels)]
                b.push(Layer(hit, val, None, sels))
            return
        last = z3.simplify(N - 1)
        single = npaths == 1
        writers = {t[0] for t, _ in free}
        exhaustive = len(writers) == npaths
        locs = {}
        for (pi, g, l), _ in free:
            locs.setdefault(pi, []).append(tuple(str(s) for s in l.sels))
        if exhaustive and npaths > 1:
            exhaustive = len({tuple(sorted(set(v))) for v in locs.values()}) == 1
        for (pi, g, l), _ in free:
            def hit(idx, l=l, g=g):
                return z3.And(N > 0, z3.substitute(z3.And(g, l.hit(idx)), (i, last)))

            def val(idx, l=l):
                if not exhaustive:
                    raise Unsupported('conditionally written scratch location read after a loop')
                return z3.substitute(l.val(idx), (i, last))
            if not exhaustive:
                hit = lambda idx, l=l: l.hit(idx)
            b.push(Layer(hit, val, None, l.sels))

    # ---------------------------------------------------------------- invariants
    def runs_inv(self, frame):
        pre = dict(frame.f_locals)
        n = self.it.n
        N = dz(n)
        self.i = self.cur = CTX.index_var('i')
        yield from run_invariant(self, frame, pre, [('index', self.i)], z3.And(self.i >= 0, self.i <= N),
                                 z3.IntVal(0), N)
        self.done = True


def fold_of(v, i, nm):
    """a carried opaque value that starts as one of the chains named by the specification: its value at iteration i"""
    for f in CTX.folds:
        for off in (0, 1):
            w = f.at(z3.IntVal(off))
            if type(w) is type(v) and CTX.holds(v.__pv_same__(w)): return f.at(z3.simplify(i + off)), (f, off)
    raise Unsupported(f'loop-carried value of {nm}')


def fold_step(nm, fo, paths, i, N):
    """the chain is kept by every iteration (an obligation of the loop rule), hence its value after the loop"""
    f, off = fo
    alive = []
    for conds, _, _, vals in paths:
        v, w = vals.get(nm, f.at(z3.simplify(i + off))), f.at(z3.simplify(i + off + 1))
        n0 = CTX.push()
        for c in [i >= 0, i < N] + list(conds): CTX.assume(c)
        ok = type(w) is type(v) and CTX.holds(v.__pv_same__(w))
        CTX.pop(n0)
        if not ok: raise Unsupported(f'loop-carried value of {nm}')
        alive.append(z3.And(*conds) if conds else z3.BoolVal(True))
    al = z3.simplify(z3.Or(*alive)) if alive else z3.BoolVal(False)
    if not z3.is_true(al) and not CTX.suppress:
        # every iteration was completed
        def ax(t):
            j = z3.simplify(t.arg(0) - off)
            return [z3.Implies(z3.And(j >= 0, j < N), z3.substitute(al, (i, j)))]
        C.add_templ(f.decl, ax)
    return f.at(z3.simplify(N + off))


def inplace(v):
    """a mutable object a loop may update in place"""
    from .ghost import GhostMap
    return isinstance(v, (GhostMap, MList)) or is_user(v)


def simp_tuple(v):
    if isinstance(v, tuple):
        return tuple(simp_tuple(x) for x in v)
    return simp(v)


def lsig(l):
    return (l.acc, str(l.sels))


def count_and(i, N):
    """number of pc entries added by assuming 0<=i<N"""
    n = 0
    for c in (i >= 0, i < N):
        if not z3.is_true(c): n += 1
    return n


def undo(ent, bufmark):
    if ent[0] == 'buf':
        if ent[1].id <= bufmark:
            ent[1].layers = ent[2]
    elif ent[0] == 'list':
        l, n0 = ent[1], ent[2]
        if len(l) > n0:
            list.__delitem__(l, slice(n0, None))
    elif ent[0] == 'gmap':
        del ent[1].w[ent[2]:]
    elif ent[0] == 'attr':
        pass


def guard_base(b, layers, loop, N):
    """inside the body: contents at the start of the iteration"""
    old_base, old_layers = b.base, b.layers
    i = loop.i
    cache = {}
    acc = all(l.acc for l, _ in layers)

    def base(idx):
        key = tuple(x.get_id() for x in idx)
        if key in cache:
            return cache[key][0]
        ip = z3.Int('%prev')
        pc = loop.pc_body
        ok = True
        for l, g in layers:
            h = z3.And(z3.substitute(z3.And(g, l.hit(idx)), (i, ip)), ip >= 0, ip < i) if not any(contains(x, [i]) for x in idx) \
                else prev_hit(l, g, idx, i, ip)
            r, _ = C.z3_check(pc + [h], 1500)
            if r != z3.unsat:
                ok = False
                break
        if not ok:
            raise Unsupported('loop-carried array contents')
        v = b.read(idx, old_layers) if False else read_with(b, idx, old_base, old_layers)
        cache[key] = (v, idx)
        return v
    b.base = base
    b.layers = ()


def prev_hit(l, g, idx, i, ip):
    """hit of layer l by iteration ip at idx, where idx may mention the present iteration i"""
    ph = [z3.Const(f'%ix{k}', I) for k in range(len(idx))]
    h = z3.And(g, l.hit(tuple(ph)))
    h = z3.substitute(h, (i, ip))
    h = z3.substitute(h, *[(p, x) for p, x in zip(ph, idx)])
    return z3.And(h, ip >= 0, ip < i)


def read_with(b, idx, base, layers):
    sb = b.base
    b.base = base
    try:
        return b.read(idx, layers)
    finally:
        b.base = sb


# ------------------------------------------------------------------ while loops
class WhileLoop:
    def __init__(self, key, names):
        occ = CTX.cnt.get('L' + key, 0)
        CTX.cnt['L' + key] = occ + 1
        self.key = (key, occ, tuple(l.key for l in CTX.loop_stack))
        self.info = CTX.loopinfo.setdefault(self.key, Info())
        self.names = names
        self.state = {}
        self.native = True
        self.retry = False
        self.count = 0

    def has(self, n): return n in self.state
    def ld(self, n): return self.state[n]

    def on_append(self, l, x): pass

    def cond(self, c):
        if self.native:
            if isinstance(c, SArr): c = c.__pv_scalar__()
            if not isinstance(c, S):
                return bool(c)
            e = z3.simplify(C.tobool(c))
            if z3.is_true(e): return True
            if z3.is_false(e): return False
            self.retry = True
            return None
        return bool(c)

    def runs(self):
        frame = sys._getframe(1)
        while self.native:
            self.count += 1
            if self.count > 5000: raise Unsupported('concrete while loop too long')
            yield None
            if self.retry:
                self.native = False
        pre = dict(frame.f_locals)
        yield from run_invariant(self, frame, pre, [], z3.BoolVal(True), None, None)


def run_invariant(loop, frame, pre, extra, dom, i0, N):
    """one arbitrary iteration from a havoced state that satisfies the invariants"""
    info = loop.info
    names = [nm for nm in loop.names if nm in pre and isinstance(pre[nm], (S, int, float, bool))
             and not isinstance(pre[nm], str)]
    other = [nm for nm in loop.names if nm in pre and nm not in names and not isinstance(pre[nm], Poison)]
    hav = {}
    for nm in names:
        e = C.lift(pre[nm])
        sort = e.sort() if nm not in info.real else R
        hav[nm] = S(CTX.skolem('h_' + nm, sort))
    stat = {k: v for k, v in pre.items() if k not in loop.names and k not in (info.layers or {})}
    entry = {nm: S(C.toreal(S(C.lift(pre[nm])))) if nm in info.real else S(C.lift(pre[nm])) for nm in names}
    cands = make_candidates(hav, stat, extra, loop, N)
    if info.alive is None:
        info.alive = set(c[0] for c in cands)

    def evaluate(state, idx, which):
        out = []
        for lab, fn in cands:
            if lab not in info.alive: continue
            st = dict(state)
            if idx is not None: st['@i'] = S(idx)
            try:
                g = fn(st)
            except Unsupported:
                info.alive.discard(lab); continue
            if g is None: info.alive.discard(lab); continue
            out.append((lab, g))
        return out
    # initiation
    bad = CTX.filter_candidates(evaluate(entry, i0, 'entry'))
    if bad:
        info.alive -= set(bad)
        if getattr(info, 'used', False):
            raise Restart()
    # buffers written by the body
    bufs = [b for b in info.bufs]
    for bid in bufs:
        raise Unsupported('array written in a loop that needs invariants')
    info.used = True
    loop.state = {nm: Poison(nm) for nm in other}
    loop.state.update(hav)
    bufmark = Buf.n
    mark = len(CTX.journal)
    idx = loop.i if i0 is not None else None
    if i0 is not None:
        # choose between an arbitrary iteration and the exit
        it = CTX.choose()
        CTX.assume(dom)
        for lab, g in evaluate(hav, idx, 'assume'):
            CTX.assume(g)
        if not it:
            CTX.assume(idx == N)
            loop.fins = {nm: hav[nm] for nm in hav}
            for nm in loop.names:
                if nm not in loop.fins: loop.fins[nm] = Poison(nm) if nm not in pre or nm in other else pre[nm]
            if info.layers: written_under_invariant(loop, info, pre, hav, evaluate, idx, N)
            if not CTX.feasible(z3.BoolVal(True)): raise PathEnd()
            return
        CTX.assume(idx < N)
        if not CTX.feasible(z3.BoolVal(True)): raise PathEnd()
        for nm in info.layers or ():
            def unknown(ix): raise Unsupported('array read and written in a loop that needs invariants')
            pre[nm].buf.base, pre[nm].buf.layers = unknown, ()
    else:
        for lab, g in evaluate(hav, None, 'assume'):
            CTX.assume(g)
    yield None
    # preservation
    loc = dict(frame.f_locals)
    first = {}
    for ent in CTX.journal[mark:]:
        if ent[0] == 'buf' and ent[1].id <= bufmark:
            if i0 is None or CTX.loop_stack: raise Unsupported('array written in a loop that needs invariants')
            first.setdefault(id(ent[1]), (ent[1], ent[2]))
        if ent[0] == 'list':
            raise Unsupported('list changed in a loop that needs invariants')
        if ent[0] == 'attr':
            raise Unsupported('attribute changed in a loop that needs invariants')
    post = {}
    for nm in names:
        v = loc.get(nm)
        if isinstance(v, Poison) or not isinstance(v, (S, int, float, bool)):
            raise Unsupported(f'loop variable {nm} is not a scalar')
        e = C.lift(v)
        if e.sort() == R and hav[nm].e.sort() == I:
            info.real.add(nm); info.alive = None
            raise Restart()
        post[nm] = S(C.toreal(S(e))) if hav[nm].e.sort() == R else S(e)
    if first or info.layers:
        rec = iteration_writes(first.values(), pre, stat, hav, post, idx)
        if info.layers is None:
            info.layers, info.alive = rec, None
            raise Restart()
        if {k: str(v) for k, v in rec.items()} != {k: str(v) for k, v in info.layers.items()}:
            raise Unsupported('array written differently by the iterations of a loop that needs invariants')
    bad = CTX.filter_candidates(evaluate(post, idx + 1 if idx is not None else None, 'post'))
    if bad:
        info.alive -= set(bad)
        raise Restart()
    for lab, g in evaluate(post, idx + 1 if idx is not None else None, 'post'):
        CTX.obls.append(Obligation(f'{CTX.current_fn()}: loop invariant preserved [{lab}]', 'proved', 'z3', 0.))
        CTX.backends['z3'] = CTX.backends.get('z3', 0) + 1
    raise PathEnd()


LOOPIX = z3.Int('%loopix')


def iteration_writes(bufs, pre, stat, hav, post, idx):
    """what one iteration stores, in terms of its index and of the loop variables at its start and end"""
    ok = {idx.get_id()}
    for v in stat.values():
        es = [v.e] if isinstance(v, S) else [d for d in v._shape if not isinstance(d, int)] if isinstance(v, SArr) else []
        for e in es:
            for t in subterms([e]).values():
                if z3.is_const(t): ok.add(t.get_id())

    def plain(e):
        return all(not (z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED) or t.get_id() in ok for t in subterms([e]).values()) \
            and all(not z3.is_app(t) or t.num_args() == 0 or t.decl().kind() != z3.Z3_OP_UNINTERPRETED for t in subterms([e]).values())
    rec = {}
    for b, old in bufs:
        nm = next((k for k, v in pre.items() if isinstance(v, SArr) and v.buf is b), None)
        new = b.layers[len(old):]
        if nm is None or tuple(b.layers[:len(old)]) != tuple(old): raise Unsupported('array written in a loop that needs invariants')
        out = []
        for l in new:
            if l.acc or l.sels is None or l.guard is not None: raise Unsupported('array updated in a loop that needs invariants')
            sels = []
            for s in l.sels:
                if s[0] != 'pt' or not plain(z3.simplify(s[1])): raise Unsupported('array location in a loop that needs invariants')
                sels.append(('pt', z3.simplify(z3.substitute(z3.simplify(s[1]), (idx, LOOPIX)))))
            at_ = tuple(s[1] for s in l.sels)
            v = z3.simplify(l.val(at_))
            tag = None
            if plain(v): tag = ('expr', z3.substitute(v, (idx, LOOPIX)))
            for kind, st in (('next', post), ('cur', hav)):
                for k, x in st.items():
                    if tag is None and x.e.sort() == v.sort() and CTX.holds(v == x.e): tag = (kind, k)
            if tag is None: raise Unsupported('array contents in a loop that needs invariants')
            out.append((tuple(sels), tag))
        rec[nm] = out
    return rec


def written_under_invariant(loop, info, pre, hav, evaluate, idx, N):
    """after the loop: the loop variables as functions of the iteration (invariants at every iteration), and the arrays written"""
    B = {nm: z3.Function(CTX.fresh_name('at_' + nm), I, hav[nm].e.sort()) for nm in hav}

    def facts(t):
        k = t.arg(0)
        st = {nm: S(B[nm](k)) for nm in B}
        return [z3.Implies(z3.And(k >= 0, k <= N), g) for lab, g in evaluate(st, k, 'assume')]
    for nm in B:
        C.add_templ(B[nm], facts)
        CTX.assume(hav[nm].e == B[nm](N), True)
    for nm, ls in info.layers.items():
        for sels, tag in ls:
            val = {'next': lambda t: B[t](LOOPIX + 1), 'cur': lambda t: B[t](LOOPIX), 'expr': lambda t: t}[tag[0]](tag[1])
            val = z3.substitute(val, (LOOPIX, loop.i))
            sl = tuple(('pt', z3.substitute(s[1], (LOOPIX, loop.i))) for s in sels)
            hit = lambda ix, sl=sl: z3.And(*[x == s[1] for x, s in zip(ix, sl)])
            i0 = loop.i
            loop.sum_buf(pre[nm].buf, [(0, z3.BoolVal(True), A.Layer(hit, lambda ix, val=val: val, None, sl))], 1, dim(S(N)), N)


def make_candidates(hav, stat, extra, loop, N):
    """templates over the loop's integer variables, the visible integers and the visible 1-d arrays"""
    out = []
    ints = [nm for nm, v in hav.items() if v.k == 'i']
    consts = {'0': z3.IntVal(0)}
    arrs, reals = {}, {}
    for nm, v in stat.items():
        if isinstance(v, S) and v.k == 'i': consts[nm] = v.e
        elif isinstance(v, bool): pass
        elif isinstance(v, int): consts[nm] = z3.IntVal(v)
        elif isinstance(v, SArr):
            if v.ndim >= 1 and not isinstance(v._shape[0], int):
                consts.setdefault(f'len({nm})', v._shape[0])
            if v.ndim == 1 and v.k in 'ri': arrs[nm] = v
        if isinstance(v, S) and v.k in 'ri' or isinstance(v, float): reals[nm] = v
    seen = set()
    cs = {}
    for k, e in consts.items():
        s = z3.simplify(e).sexpr()
        if s not in seen:
            seen.add(s); cs[k] = e
    vs = list(ints) + (['@i'] if extra else [])
    for a in vs:
        for k, e in cs.items():
            out.append((f'{k}<={a}', lambda s, a=a, e=e: e <= s[a].e))
            out.append((f'{a}<={k}', lambda s, a=a, e=e: s[a].e <= e))
            out.append((f'{a}<{k}', lambda s, a=a, e=e: s[a].e < e))
        for b in vs:
            if a != b:
                out.append((f'{a}<{b}', lambda s, a=a, b=b: s[a].e < s[b].e))
                out.append((f'{a}<={b}', lambda s, a=a, b=b: s[a].e <= s[b].e))
                out.append((f'{a}=={b}', lambda s, a=a, b=b: s[a].e == s[b].e))
        for an, av in arrs.items():
            n = dz(av._shape[0])
            for rn, rv in reals.items():
                r = C.toreal(rv) if av.k == 'r' or C.lift(rv).sort() == R else C.lift(rv)

                def el(s, off, av=av, a=a, r=r):
                    e = av.at(z3.simplify(s[a].e + off))
                    return C.toreal(S(e)) if r.sort() == R and e.sort() == I else e
                for off in (0, -1, 1):
                    def inr(s, off, n=n, a=a): return z3.And(s[a].e + off >= 0, s[a].e + off < n)
                    for opn, op in (('<=', lambda x, y: x <= y), ('<', lambda x, y: x < y), ('>=', lambda x, y: x >= y),
                                    ('>', lambda x, y: x > y)):
                        out.append((f'{an}[{a}{off:+d}]{opn}{rn}',
                                    lambda s, off=off, op=op, el=el, inr=inr, r=r: z3.Implies(inr(s, off), op(el(s, off), r))))
            for b in vs:
                if a == b or av.k != 'i': continue
                for off in (0, -1):
                    for opn, op in (('<=', lambda x, y: x <= y), ('<', lambda x, y: x < y), ('>=', lambda x, y: x >= y), ('>', lambda x, y: x > y)):
                        out.append((f'{an}[{a}{off:+d}]{opn}{b}', lambda s, off=off, op=op, av=av, n=n, a=a, b=b:
                                    z3.Implies(z3.And(s[a].e + off >= 0, s[a].e + off < n), op(av.at(z3.simplify(s[a].e + off)), s[b].e))))
    for h in CTX.hints:
        try:
            out += h(hav, stat, vs)
        except Exception:
            pass
    return out


# ------------------------------------------------------------------ comprehension
def listcomp(fn, it, cond=None, key='lc'):
    it = as_iter(it)
    if not isinstance(it, SymIter):
        out = MList()
        for x in it:
            if cond is None or cond(x):
                list.append(out, fn(x))
        return out
    out = MList()
    L = ForLoop(key, it, (), False)

    def body():
        x = L.item()
        if cond is None or cond(x): out.append(fn(x))
    drv(L, body)
    return out


def drv(L, body):
    for _ in L.runs():
        try:
            body()
        except BaseException as e:
            L.exited(e)
