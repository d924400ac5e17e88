"""Executable contracts: tables."""
import numpy as np
from dyn.fw import *
from pyhipp.core.containers.data_table import DataTable

NAMES = ['a', 'b', 'x', 'pos', 'id', 'B', 'a b', 'mass']


def col(r, n, rank=None):
    rank = rank or r.pick([1, 1, 1, 2, 2, 3])
    shape = (n,) + tuple(r.int(1, 3) for _ in range(rank - 1))
    kind = r.pick(['f8', 'i8', 'b1', 'U3', 'i4', 'f4'])
    if kind == 'U3': return r.g.choice(np.array(['ab', 'c', 'xyz', '']), size=shape)
    if kind == 'b1': return r.g.integers(0, 2, shape).astype(bool)
    if kind[0] == 'i': return r.g.integers(-99, 99, shape).astype(kind)
    return r.g.normal(size=shape).astype(kind)


def cols(r, n=None, k=None, like=None):
    n = r.int(0, 7) if n is None else n
    names = [NAMES[j] for j in r.perm(len(NAMES))[:r.int(0, 5) if k is None else k]]
    return {x: col(r, n) for x in names}


def eq(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and bool(np.all(a == b))


def check(t, want, msg, rest=()):
    """t holds exactly `want`, in order; its storage is shared with nothing in `rest`"""
    ensure(type(t) is DataTable, msg, 'a table')
    ensure(list(t) == list(want) and list(t.keys()) == list(want) and len(t) == len(want), msg, 'columns and their order', list(t), list(want))
    for k in want:
        ensure(isinstance(t[k], np.ndarray) and eq(t[k], want[k]), msg, 'values of', k, t[k], want[k])
        for o in rest:
            for q in o: ensure(not np.shares_memory(t[k], o[q]), msg, 'the values are independent', k, q)


def frozen(m): return {k: np.array(m[k]) for k in m}


def overwrite(m, r):
    for k in m:
        a = m[k]
        if isinstance(a, np.ndarray) and a.size and a.flags.writeable: a[...] = a.dtype.type() if a.dtype.kind in 'US' else ~a if a.dtype.kind == 'b' else -a - 1


@contract('building, storing, copying, updating', 2)
def _(r):
    src = cols(r)
    ref = frozen(src)
    r.note(src=src)
    give = src if r.bool(.7) else {k: v.tolist() for k, v in src.items()} if not any(v.size == 0 for v in src.values()) else src
    t = DataTable(give if r.bool() else DataTable(give))
    ref = {k: np.array(v) for k, v in give.items()}
    check(t, ref, 'built', [src])
    log = []
    for _ in range(r.int(1, 6)):
        act = r.pick(['set', 'tuple', 'copy', 'update', 'ior', 'or', 'del', 'write', 'dict'])
        before = frozen(t)
        log.append(act); r.note(log=log)
        if act == 'set':
            k, v = r.pick(NAMES), col(r, r.int(0, 4))
            t[k] = v
            want = {**before, k: v.copy()}
            check(t, want, 'stored', [{'v': v}])
            overwrite({'v': v}, r)
            check(t, want, 'after a write to the original')
        elif act == 'tuple':
            ks = tuple(NAMES[j] for j in r.perm(len(NAMES))[:r.int(0, 3)])
            vs = tuple(col(r, 3) for _ in ks)
            t[ks] = vs
            want = dict(before)
            for k, v in zip(ks, vs): want[k] = v.copy()
            check(t, want, 'stored', [dict(enumerate(vs))])
            got = t[ks]
            ensure(type(got) is tuple and all(g is t[k] for g, k in zip(got, ks)), 'read together')
            ensure_raises((AssertionError, ValueError), lambda: t.__setitem__(ks + ('a',), vs), 'unequal counts')
            check(t, want, 'after the refusal')
        elif act in ('copy', 'or', 'ior', 'update'):
            b = cols(r)
            rb = frozen(b)
            o = DataTable(b) if r.bool() else b
            if act == 'copy': u, want = t.copy(), before
            elif act == 'or': u, want = t | o, {**before, **rb}
            elif act == 'ior':
                u = t; u |= o; want = {**before, **rb}
                ensure(u is t, 'in place')
            else: t.update(o); u, want = t, {**before, **rb}
            check(u, want, act, [o] + ([t] if u is not t else []))
            if u is not t:
                check(t, before, 'the original')
                overwrite(u, r)
                check(t, before, 'the original after a write to the new one')
                u = t | o if act == 'or' else t.copy()
                overwrite(t, r)
                check(u, want, 'the new one after a write to the original')
            overwrite(o, r)
            if u is not t: check(u, want, 'after a write to the operand')
            else: check(t, want, 'after a write to the operand')
        elif act == 'del' and len(t):
            k = r.pick(list(t))
            if r.bool(): del t[k]
            else: del t[k,]
            before.pop(k)
            check(t, before, 'deleted')
        elif act == 'write': overwrite(t, r)
        elif act == 'dict':
            d = t.to_dict()
            ensure(type(d) is dict and list(d) == list(before) and all(eq(d[k], before[k]) for k in d), 'to_dict', d, before)
            overwrite(d, r)
            check(t, before, 'after a write to the dictionary')


@contract('rows and columns', 2)
def _(r):
    n = r.int(0, 7)
    src = cols(r, n)
    t = DataTable(src)
    kind = r.pick(['slice', 'mask', 'ids', 'all', 'step', 'list', 'ellipsis', 'int'])
    if kind == 'mask': a = r.mask(n)
    elif kind in ('ids', 'list'):
        a = np.array([r.int(-n, n - 1) for _ in range(r.int(0, 6))] if n else [], dtype=int)
        if kind == 'list' and len(a): a = a.tolist()
    elif kind == 'all': a = slice(None)
    elif kind == 'ellipsis': a = ...
    elif kind == 'int': a = r.int(-n, n - 1) if n else slice(0)
    elif kind == 'step': a = slice(None, None, r.pick([-1, 2, -2]))
    else:
        lo = r.int(0, n); a = slice(lo, r.int(lo, n))
    if r.bool(.2): a = (a,) if r.bool(.6) or kind != 'slice' else (a, ...)
    r.note(src=src, args=a)
    want = {k: np.array(v[a]) for k, v in src.items()}
    s = t.iloc[a] if r.bool() else t.subset(a)
    check(s, want, 'row selection', [t, src])
    overwrite(s, r)
    check(t, src, 'the table after a write to the selection')
    s = t.subset(a)
    overwrite(t, r)
    check(s, want, 'the selection after a write to the table')
    t = DataTable(src)
    ks = [k for k in r.perm(len(src)) if r.bool(.7)]
    ks = [list(src)[k] for k in ks]
    ks = tuple(ks) if r.bool() else ks
    s = t.subcol(ks)
    check(s, {k: src[k] for k in ks}, 'column selection', [t, src])
    overwrite(s, r)
    check(t, src, 'the table after a write to the column selection')


@contract('concatenation', 1.5)
def _(r):
    names = [NAMES[j] for j in r.perm(len(NAMES))[:r.int(1, 4)]]
    proto = {k: col(r, 2) for k in names}

    def make():
        n = r.int(0, 4)
        d = {k: np.array(v)[r.g.integers(0, 2, n)] for k, v in proto.items()}
        return d
    parts = [make() for _ in range(r.int(1, 5))]
    r.note(parts=parts)
    t = DataTable(parts[0])
    others = []
    for p in parts[1:]:
        if r.bool(.3): p = dict(reversed(list(p.items())))
        if r.bool(.2): p = {**p, 'other': np.zeros(3)}
        others.append(DataTable(p) if r.bool(.7) else p)
    if r.bool(.15): others = [t] * len(others)
    allp = [t] + others
    want = {k: np.concatenate([np.array(p[k]) for p in allp]) for k in names}
    if others and r.bool(.08):
        # no rows of that column to take from one of them
        gone = r.pick(names)
        short = {k: np.array(others[-1][k]) for k in names if k != gone}
        try: v = t.concat(*others[:-1], DataTable(short))
        except Exception: v = None
        ensure(v is None, 'concatenation with a table that lacks a column', v if v is None else list(v))
    u = t.concat(*others)
    check(u, want, 'concatenation', allp)
    overwrite(u, r)
    check(t, parts[0], 'the table after a write to the result')


@contract('exports', 1)
def _(r):
    n, k = r.int(1, 5), r.int(1, 4)
    src = {NAMES[j]: r.g.normal(size=n) for j in range(k)}
    t = DataTable(src)
    r.note(src=src)
    c, w = t.col_stacked(), t.row_stacked()
    ensure(c.shape == (n, k) and w.shape == (k, n), 'shapes', c.shape, w.shape)
    for j, x in enumerate(src):
        ensure(eq(c[:, j], src[x]) and eq(w[j], src[x]), 'stacked', x)
    overwrite({'c': c, 'w': w}, r)
    check(t, src, 'after a write to the stacked arrays')
    src = cols(r)
    t = DataTable(src)
    l = t.to_dict_of_list()
    ensure(list(l) == list(src) and all(type(l[x]) is list and l[x] == src[x].tolist() for x in src), 'lists')
    for x in src: ensure(t[x] is t._data[x] if hasattr(t, '_data') else True, 'reference')
