"""Executable contracts: caches and parameter lists."""
import numpy as np
from dyn.fw import *
from pyhipp.core import abc
from pyhipp.astro.cosmology.param import Param, ParamList

VALUES = [0, 0., False, None, '', (), [], {}, np.zeros(0), np.zeros(2), 1, 'x', float('nan')]
KEYS = ['a', 'b', '', 0, 1, (1, 2), ('a',), None, 2.5]


def value(r):
    v = r.pick(VALUES)
    return v if r.bool() else [v]


@contract('cache history')
def _(r):
    c, ref = abc.HasCache(), {}
    other = abc.HasCache()
    log = []
    for _ in range(r.int(1, 12)):
        k = r.pick(KEYS)
        if r.bool(.7):
            v, n = value(r), []
            log.append(('get', k)); r.note(log=log)
            out = c.get_cache_or(k, lambda: (n.append(1), v)[1])
            if k in ref: ensure(not n, 'computed again', k); ensure(out is ref[k], 'stored value returned', k)
            else: ensure(len(n) == 1, 'computed exactly once', k, len(n)); ensure(out is v, 'computed value returned', k); ref[k] = v
        else:
            v = value(r)
            log.append(('put', k)); r.note(log=log)
            c.put_cache(k, v); ref[k] = v
    ensure(len(c.cache) == len(ref), 'entries', len(c.cache), len(ref))
    for k in ref:
        def bad(): raise Fail('computed again')
        ensure(c.get_cache_or(k, bad) is ref[k], 'kept', k)
    ensure(len(other.cache) == 0, 'caches are separate')


@contract('two-level cache history')
def _(r):
    c, ref = abc.HasMultiCache(), {}
    log = []
    for _ in range(r.int(1, 14)):
        k, s = r.pick(KEYS[:6]), r.pick(KEYS[:6])
        v, n = value(r), []
        log.append((k, s)); r.note(log=log)
        out = c.get_cache_or(k, s, lambda: (n.append(1), v)[1])
        if (k, s) in ref: ensure(not n, 'computed again', k, s); ensure(out is ref[k, s], 'stored value returned', k, s)
        else: ensure(len(n) == 1, 'computed exactly once', k, s, len(n)); ensure(out is v, 'computed value returned'); ref[k, s] = v
    for k, s in ref:
        def bad(): raise Fail('computed again')
        ensure(c.get_cache_or(k, s, bad) is ref[k, s], 'kept', k, s)
    ensure(len(abc.HasMultiCache().cache) == 0, 'caches are separate')


@contract('failing computation', .3)
def _(r):
    c, m = abc.HasCache(), abc.HasMultiCache()
    class E(Exception): pass
    def bad(): raise E()
    k = r.pick(KEYS); v = value(r); w = value(r)
    c.put_cache('z', w)
    ensure_raises(E, lambda: c.get_cache_or(k, bad), 'error passed on'); ensure_raises(E, lambda: m.get_cache_or(k, 's', bad), 'error passed on')
    ensure(c.get_cache_or(k, lambda: v) is v, 'computed later'); ensure(m.get_cache_or(k, 's', lambda: v) is v, 'computed later')
    ensure(c.get_cache_or('z', bad) is w, 'other key unaffected')


@contract('value', .5)
def _(r):
    a = r.arr(r.shape(None, 0, 4)); a0 = a.copy(); x = r.arr(a.shape)
    p = Param(a, name='p'); st = p.value
    ensure(not np.shares_memory(st, a), 'own copy'); ensure_eq(st, a0, 'value')
    x0 = x.copy()
    p.set_value(x)
    ensure(p.value is st, 'own storage'); ensure_eq(st, x0, 'set'); ensure_eq(a, a0, 'caller array')
    x[...] = 7; ensure_eq(p.value, x0, 'not linked to the given array')
    ensure(Param(a).name == 'Param', 'default name')


@contract('parameter list history')
def _(r):
    names = [f'p{i}' for i in range(12)]
    order = list(r.perm(12)); n = r.int(1, 6)
    if r.bool(.25):      # parameters may share a name
        order = [order[r.int(0, i)] for i in range(12)]
    ps = [Param(r.arr(()) if r.bool() else r.arr((r.int(1, 3),)), name=names[order[i]]) for i in range(n)]
    r.note(names=[p.name for p in ps])
    src = iter(ps) if r.bool(.3) else ps
    pl = ParamList(src); ref = list(ps); log = []

    def check():
        ensure(len(pl) == len(ref), 'length'); ensure([id(p) for p in pl] == [id(p) for p in ref], 'order')
        for i, p in enumerate(ref):
            ensure(pl[i] is p, 'by number', i); ensure(pl[i - n] is p, 'by number from the end', i); ensure(pl[p.name] is p if [q.name for q in ref].count(p.name) == 1 else any(pl[p.name] is q for q in ref if q.name == p.name), 'by name', p.name)
        live = {p.name for p in ref}
        for m in names:
            if m not in live: ensure_raises(KeyError, lambda: pl[m], 'name no longer carried ' + m)
        vs = pl.values
        ensure(isinstance(vs, tuple) and len(vs) == n and all(v is p.value for v, p in zip(vs, ref)), 'values')
    check()
    for _ in range(r.int(1, 6)):
        if r.bool(.6):
            i = r.int(-n, n - 1) if r.bool(.3) else r.int(0, n - 1)
            free = [m for m in names if m not in {p.name for k, p in enumerate(ref) if k != i % n}]
            q = Param(r.arr((2,)), name=r.pick(free))
            log.append(('replace', i, q.name)); r.note(names=[p.name for p in ref], log=log)
            if i < 0 and r.bool(): i %= n
            pl[i] = q; ref[i] = q
        else:
            vals = [r.arr(p.value.shape) for p in ref]; keep = [v.copy() for v in vals]; st = [p.value for p in ref]
            log.append(('set',)); r.note(log=log)
            pl.set_values(vals if r.bool() else tuple(vals))
            for p, v, s in zip(ref, keep, st): ensure(p.value is s, 'own storage'); ensure_eq(p.value, v, 'value set')
            for v in vals: v[...] = 99
            for p, v in zip(ref, keep): ensure_eq(p.value, v, 'own copy of the value')
        check()
    keep = [p.value.copy() for p in ref]
    for m in (n - 1, n + 1):
        ensure_raises(AssertionError, lambda: pl.set_values([np.float64(3)] * m), 'wrong count')
        for p, v in zip(ref, keep): ensure_eq(p.value, v, 'nothing set on a wrong count')
    try: q = ParamList([]); ensure(len(q) == 0 and q.values == (), 'empty list')
    except Fail: raise
