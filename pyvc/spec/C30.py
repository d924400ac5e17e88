"""C30: caches compute once per key, parameter lists stay in step.

The caches are proved step by step from an arbitrary state (GhostMap: any keys, any values, including false, empty and None ones):
a hit returns the stored value, calls nothing and changes nothing; a miss calls the fallback once, stores and returns its value
and changes no other key; put replaces exactly its key.  Histories of any length follow by induction over these steps.
The parameter list is proved for any number of parameters with arbitrary names."""
from ..harness import *
from .. import ghost as G, loops as L
from ..ghost import GhostMap, Name, Obj, NameS, ObjS, materialise, obj_expr

suite = Suite()


class Fallback:
    def __init__(self):
        self.calls = 0
        self.e = z3.Const(CTX.fresh_name('fresh'), ObjS)

    def __call__(self):
        self.calls += 1
        self.v = materialise(self.e)
        return self.v


def same(h, name, v, e):
    h.prove(name, obj_expr(v) == e)


def nm(s): return z3.Const(CTX.fresh_name(s), NameS)


def frame(h, m, k, P0, V0):
    """another key keeps its presence and value"""
    o = nm('other')
    h.assume(o != k)
    h.prove('another key is present exactly as before', m.has(o) == P0(o))
    if CTX.branch(P0(o)):
        same(h, 'another key keeps its value', m[Name(o)], V0(o))


def cache(h):
    m = h.mod('core.abc')
    c = m.HasCache()
    h.prove('a new cache is empty', z3.BoolVal(len(c.cache) == 0))
    g = c.cache = GhostMap('cache')
    return c, g


@suite.case('cache hit')
def _(h):
    c, g = cache(h)
    k = nm('key')
    f = Fallback()
    h.assume(g.P(k))
    out = c.get_cache_or(Name(k), f)
    h.prove('a stored key computes nothing', z3.BoolVal(f.calls == 0))
    same(h, 'the stored value is returned', out, g.vf(k))
    h.prove('the key stays stored', g.has(k))
    same(h, 'the stored value stays', g[Name(k)], g.vf(k))
    frame(h, g, k, g.P, g.vf)


@suite.case('cache miss')
def _(h):
    c, g = cache(h)
    k = nm('key')
    f = Fallback()
    h.assume(S(z3.Not(g.P(k))))
    out = c.get_cache_or(Name(k), f)
    h.prove('a missing key is computed once', z3.BoolVal(f.calls == 1))
    same(h, 'the computed value is returned', out, f.e)
    h.prove('the key is stored', g.has(k))
    same(h, 'the computed value is stored', g[Name(k)], f.e)
    f2 = Fallback()
    out2 = c.get_cache_or(Name(k), f2)
    h.prove('the next request computes nothing', z3.BoolVal(f2.calls == 0))
    same(h, 'the next request returns the same value', out2, f.e)
    frame(h, g, k, g.P, g.vf)


@suite.case('cache replacement')
def _(h):
    c, g = cache(h)
    k, e = nm('key'), z3.Const('new', ObjS)
    c.put_cache(Name(k), materialise(e))
    h.prove('the key is stored', g.has(k))
    f = Fallback()
    same(h, 'the replacing value is returned afterwards', c.get_cache_or(Name(k), f), e)
    h.prove('nothing is computed for it', z3.BoolVal(f.calls == 0))
    frame(h, g, k, g.P, g.vf)


@suite.case('caches are separate')
def _(h):
    m = h.mod('core.abc')
    for K in (m.HasCache, m.HasMultiCache):
        h.prove('two caches share no storage', z3.BoolVal(K().cache is not K().cache))


P2 = z3.Function('has2', NameS, NameS, B)
V2 = z3.Function('val2', NameS, NameS, ObjS)


def multi(h):
    m = h.mod('core.abc')
    c = m.HasMultiCache()
    h.prove('a new cache is empty', z3.BoolVal(len(c.cache) == 0))
    c.cache = GhostMap('cache', V=lambda k: GhostMap('inner', P=lambda s: P2(k, s), V=lambda s: materialise(V2(k, s))))
    return c, c.cache


def has2(g, k, s):
    return z3.And(g.P(k), P2(k, s))


def now2(g, k, s):
    """(key, subkey) is present now; forks"""
    if Name(k) not in g: return False
    return Name(s) in g[Name(k)]


def get2(g, k, s): return g[Name(k)][Name(s)]


def frame2(h, g, k, s):
    k2, s2 = nm('other'), nm('othersub')
    h.assume(z3.Or(k2 != k, s2 != s))
    p = now2(g, k2, s2)
    h.prove('another entry is present exactly as before', has2(g, k2, s2) == z3.BoolVal(p))
    if p: same(h, 'another entry keeps its value', get2(g, k2, s2), V2(k2, s2))


@suite.case('two-level cache hit')
def _(h):
    c, g = multi(h)
    k, s = nm('key'), nm('sub')
    h.assume(has2(g, k, s))
    f = Fallback()
    out = c.get_cache_or(Name(k), Name(s), f)
    h.prove('a stored entry computes nothing', z3.BoolVal(f.calls == 0))
    same(h, 'the stored value is returned', out, V2(k, s))
    h.prove('the entry stays stored', z3.BoolVal(now2(g, k, s)))
    same(h, 'the stored value stays', get2(g, k, s), V2(k, s))
    frame2(h, g, k, s)


@suite.case('two-level cache miss')
def _(h):
    c, g = multi(h)
    k, s = nm('key'), nm('sub')
    h.assume(z3.Not(has2(g, k, s)))
    f = Fallback()
    out = c.get_cache_or(Name(k), Name(s), f)
    h.prove('a missing entry is computed once', z3.BoolVal(f.calls == 1))
    same(h, 'the computed value is returned', out, f.e)
    h.prove('the entry is stored', z3.BoolVal(now2(g, k, s)))
    same(h, 'the computed value is stored', get2(g, k, s), f.e)
    f2 = Fallback()
    out2 = c.get_cache_or(Name(k), Name(s), f2)
    h.prove('the next request computes nothing', z3.BoolVal(f2.calls == 0))
    same(h, 'the next request returns the same value', out2, f.e)
    frame2(h, g, k, s)


@suite.case('two misses of new keys')
def _(h):
    """from an arbitrary state: entries created for two different keys stay apart (the dictionaries of two keys are never shared)"""
    c, g = multi(h)
    k, s, k2, s2 = nm('key'), nm('sub'), nm('key2'), nm('sub2')
    h.assume(z3.Not(has2(g, k, s)))
    h.assume(z3.Not(has2(g, k2, s2)))
    h.assume(z3.Or(k != k2, s != s2))
    f, f2, f3 = Fallback(), Fallback(), Fallback()
    c.get_cache_or(Name(k), Name(s), f)
    out = c.get_cache_or(Name(k2), Name(s2), f2)
    same(h, 'the second key gets its own value', out, f2.e)
    h.prove('computed once', z3.BoolVal(f2.calls == 1))
    same(h, 'the first key keeps its value', c.get_cache_or(Name(k), Name(s), f3), f.e)
    h.prove('and is not computed again', z3.BoolVal(f3.calls == 0))


# ---------------------------------------------------------------- parameters
@suite.case('value storage')
def _(h):
    """HasValue: an own copy by default, set_value writes into the same storage"""
    m = h.mod('core.abc')
    n = h.size('n')
    a = h.array('a', n)
    s0 = a.snap()
    v = m.HasValue(a)
    h.independent('the value is a copy', v.value, a)
    h.eqarr('of the given value', v.value, a)
    x = h.array('x', n)
    st = v.value
    v.set_value(x)
    h.same_object('the storage object stays', v.value, st)
    h.eqarr('and holds the new value', v.value, x)
    h.unchanged('the caller array is untouched', a, s0)
    v.set_value(1.5)
    j = h.idx(n)
    h.eq('a scalar fills the storage', at(v.value, j), 1.5)


nameF = z3.Function('name_of', I, NameS)


class ParamObj:
    """parameter number e: an arbitrary name and a value cell of its own (HasValue contract: set_value writes the cell)"""
    store = None

    def __init__(self, e): self.e = e
    @property
    def name(self): return Name(nameF(self.e))
    @property
    def value(self): return ParamObj.store[S(self.e)]
    def set_value(self, v): ParamObj.store[S(self.e)] = v
    def __pv_subst__(self, i, e): return ParamObj(z3.substitute(self.e, (i, e)))
    def __pv_ite__(self, c, o): return ParamObj(z3.If(c, self.e, o.e))


class Params:
    """n parameters; the parameter at position i is parameter number i"""

    def __init__(self, n): self.n = n
    def __pv_symiter__(self): return L.SymIter(self.n.e, lambda i: ParamObj(i))
    def __pv_len__(self): return self.n


def plist(h):
    m = h.mod('astro.cosmology.param')
    n = h.size('n', lo=1)
    M = h.size('M')
    h.assume(M > n)
    ParamObj.store = h.array('store', M)
    CTX.used_contracts.add('Param.set_value: writes the parameter\'s own storage (proved for HasValue in "value storage")')
    p = m.ParamList(Params(n))
    return m, n, M, p


def distinct_names(h, n, idx=None, new=None):
    """names of the positions are pairwise different"""
    C.add_pair(nameF, lambda a, c: [z3.Implies(z3.And(a.arg(0) >= 0, a.arg(0) < n.e, c.arg(0) >= 0, c.arg(0) < n.e, a.arg(0) != c.arg(0)),
                                               a != c)])


@suite.case('lookup in a parameter list')
def _(h):
    m, n, M, p = plist(h)
    distinct_names(h, n)
    h.eq('length', LD.len_(p), n)
    j = h.idx(n)
    h.prove('a number gives the parameter at that position', p[j].e == j.e)
    h.prove('a name gives the parameter that carries it', p[Name(nameF(j.e))].e == j.e)
    it = L.as_iter(p)
    h.eq('iteration visits every parameter', S(A.dz(it.n)), n)
    h.prove('in order', it.item(j.e).e == j.e)
    h.eq('values in order', p.values[j], ParamObj.store[j])
    x = nm('unknown')
    h.assume_rows(j, nameF(j.e), nameF(j.e) != x)
    h.raises('an unknown name is a KeyError', KeyError, lambda: p[Name(x)])


@suite.case('replacing a parameter')
def _(h):
    m, n, M, p = plist(h)
    distinct_names(h, n)
    idx, j = h.idx(n, 'idx'), h.idx(n, 'j')
    new = S(z3.Int('new'))
    h.assume(new >= n); h.assume(new < M)
    old = nameF(idx.e)
    # the new name is not carried by another parameter of the list
    C.add_templ(nameF, lambda a: [z3.Implies(z3.And(a.arg(0) >= 0, a.arg(0) < n.e, a.arg(0) != idx.e), a != nameF(new.e))])
    p[idx] = ParamObj(new.e)
    h.eq('length unchanged', LD.len_(p), n)
    h.prove('the position holds the new parameter', p[idx].e == new.e)
    h.prove('the new name finds it', p[Name(nameF(new.e))].e == new.e)
    if CTX.branch(j.e != idx.e):
        h.prove('another position keeps its parameter', p[j].e == j.e)
        h.prove('another name still finds its parameter', p[Name(nameF(j.e))].e == j.e)
    if CTX.branch(nameF(new.e) != old):
        h.raises('the old name is gone', KeyError, lambda: p[Name(old)])


@suite.case('setting all values')
def _(h):
    m, n, M, p = plist(h)
    vals = h.array('vals', n)
    s0 = ParamObj.store.snap()
    p.set_values(vals)
    j = h.idx(n)
    h.eq('each parameter gets its own value, in order', ParamObj.store[j], at(vals, j))
    q = h.idx(M, 'q')
    h.assume(q >= n)
    h.eq('other parameters are untouched', ParamObj.store[q], S(s0((q.e,))))


@suite.case('setting values of a wrong count')
def _(h):
    m, n, M, p = plist(h)
    k = h.size('k')
    h.assume(k != n)
    vals = h.array('vals', k)
    s0 = ParamObj.store.snap()
    h.raises('refused', AssertionError, lambda: p.set_values(vals))
    h.unchanged('nothing is set', ParamObj.store, s0)
