"""Executable contracts: nested and tuple keys of data dictionaries."""
import copy
from dyn.fw import *
from pyhipp.core.containers.data_dict import DataDict

NAMES = ['a', 'b', 'c', 'ab', 'a b', '0', 'a_b', 'B', '.', '..', 'é']


def build(r, depth, log=None):
    d = DataDict() if r.bool() else {}
    for k in r.pick([0, 1, 2, 3]) * [0]:
        n = r.pick(NAMES[:5])
        d[n] = build(r, depth - 1) if depth and r.bool(.6) else r.pick([1, 'x', None, 0, (1, 2), '', 2.5, [1]])
    return d


def ref(d):
    """plain nested dictionaries"""
    return {k: ref(v) if isinstance(v, (dict, DataDict)) else v for k, v in d.items()}


def spell(r, names):
    """a key that spells the names: single or repeated slashes, perhaps at the ends"""
    s = '/'.join(names) if r.bool(.6) else '//'.join(names)
    if r.bool(.2): s = '/' + s
    if r.bool(.2): s = s + '/'
    return s if len(names) > 1 or '/' in s else s


def path(r, d):
    names = []
    x = d
    while True:
        n = r.pick(list(x)) if len(x) and r.bool(.8) else r.pick(NAMES)
        names.append(n)
        if n in x and isinstance(x[n], dict) and r.bool(.75) and len(names) < 5: x = x[n]; continue
        return names


def walk(d, names):
    for n in names:
        if not isinstance(d, dict): raise Skip()
        d = d[n]
    return d


def do(f):
    try: return ('value', f())
    except KeyError: return ('KeyError',)
    except Skip: raise
    except Exception as e: return (type(e).__name__,)


def same(a, b): return ref({'x': a}) == ref({'x': b})


def top(r):
    d = DataDict()
    for _ in range(r.int(0, 4)):
        d[r.pick(NAMES)] = build(r, 3) if r.bool(.7) else r.int(0, 9)
    return d


def operation(r, d, m, log):
    """one operation on the dictionary d and its model m; the outcomes have to agree"""
    kind = r.pick(['get', 'set', 'del', 'in', 'get', 'set'])
    if kind == 'in':
        k = r.pick(NAMES) if r.bool(.6) else spell(r, path(r, m))
        log.append((kind, k)); r.note(log=log)
        ensure((k in d) == (k in m), 'membership looks at the top level only', k)
        return
    many = r.bool(.3)
    paths = [path(r, m) for _ in range(r.int(0, 4) if many else 1)]
    keys = [spell(r, p) for p in paths]
    key = tuple(keys) if many else keys[0]
    vals = [r.int(100, 199) if r.bool(.7) else {'new': r.int(0, 9)} for _ in paths]
    log.append((kind, key, vals)); r.note(log=log)
    if kind == 'get':
        want = do(lambda: [walk(m, p) for p in paths])
        got = do(lambda: d[key])
        ensure(want[0] == got[0], 'outcome of reading', key, want[0], got[0])
        if want[0] == 'value':
            if many: ensure(type(got[1]) is tuple and len(got[1]) == len(keys), 'one value per key', got[1])
            ensure(same(list(got[1]) if many else [got[1]], want[1]) and all(same(a, b) for a, b in zip(got[1] if many else [got[1]], want[1])),
                   'the stored values', key, got[1], want[1])
        return
    if kind == 'set':
        if many and r.bool(.15):
            bad = tuple(vals) + (1,) if r.bool() or not vals else tuple(vals[:-1])
            got = do(lambda: d.__setitem__(key, bad))
            ensure(got[0] in ('AssertionError', 'ValueError'), 'unequal counts are refused', key, bad, got)
            return

        def mset():
            for p, v in zip(paths, vals):
                q = walk(m, p[:-1])
                if not isinstance(q, dict): raise Skip()
                q[p[-1]] = copy.deepcopy(v)
        want = do(mset)
        got = do(lambda: d.__setitem__(key, tuple(vals) if many else vals[0]))
    else:
        def mdel():
            for p in paths:
                q = walk(m, p[:-1])
                if not isinstance(q, dict): raise Skip()
                del q[p[-1]]
        want = do(mdel)
        got = do(lambda: d.__delitem__(key))
    ensure(want[0] == got[0], 'outcome', kind, key, want[0], got)


@contract('history of operations', 3)
def _(r):
    d = top(r)
    log = [('start', ref(d))]
    m = ref(d)
    for _ in range(r.int(1, 8)):
        try:
            operation(r, d, m, log)
        except Skip:
            return
        ensure(ref(d) == m, 'every entry at every level', ref(d), m)
        ensure(list(d.keys()) == list(m) and len(d) == len(m) and list(iter(d)) == list(m), 'top-level names', list(d.keys()), list(m))


@contract('copies and unions', 2)
def _(r):
    a, b = top(r), top(r)
    ra, rb = ref(a), ref(b)
    other = b if r.bool() else (dict(b.items()))
    kind = r.pick(['copy', 'or', 'ior', 'update', 'init', 'or-self'])
    r.note(a=ra, b=rb, kind=kind)
    if kind == 'copy': u, want = a.copy(), ra
    elif kind == 'init': u, want = DataDict(a if r.bool() else dict(a.items())), ra
    elif kind == 'or': u, want = a | other, {**ra, **rb}
    elif kind == 'or-self': u, want, other = a | a, ra, a
    elif kind == 'ior':
        u = a; u |= other; want = {**ra, **rb}
        ensure(u is a, 'updated in place')
    else:
        a.update(other); u, want = a, {**ra, **rb}
    ensure(type(u) is DataDict, 'a data dictionary', type(u))
    ensure(ref(u) == want and list(u) == list(want), 'the entries of both, the right one winning', ref(u), want)
    for k in list(u):
        src = other if kind in ('or', 'ior', 'update') and k in rb else a
        if kind in ('copy', 'init', 'or'): ensure(u[k] is src[k], 'the very values', k)
    x, y = ref(a), ref(b)
    for _ in range(r.int(1, 4)):
        which = r.pick([0, 1, 2])
        t = (u, a, b)[which]
        n = r.pick(NAMES)
        act = r.pick(['set', 'del', 'clear', 'tuple', 'pop'])
        before = [ref(z) for z in (u, a, b)]
        if act == 'set': t[n] = 777
        elif act == 'tuple': t['a', 'b'] = 1, 2
        elif act == 'clear': t.clear()
        elif act == 'pop': t.pop(n, None)
        elif n in t: del t[n]
        r.note(act=(which, act, n))
        for z, bz in zip((u, a, b), before):
            if z is t: continue
            ensure(ref(z) == bz, 'a top-level write to one changes no other', which, act)
        if isinstance(other, dict): ensure(ref(other) == rb, 'the operand')


@contract('empty and refused', .5)
def _(r):
    ensure(len(DataDict()) == 0 and list(DataDict({})) == [], 'empty')
    d, e = DataDict(), DataDict()
    d['a'] = 1
    ensure('a' not in e and 'a' not in DataDict(), 'new dictionaries share nothing')
    ensure_raises(KeyError, lambda: d['b'], 'missing name')
    ensure_raises(KeyError, lambda: e['a', ], 'missing name in a tuple')
    ensure(d[()] == (), 'no keys, no values')
    del d['a', ]
    ensure(len(d) == 0, 'deleted')
