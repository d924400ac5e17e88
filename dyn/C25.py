"""Executable contracts: nested dictionaries dumped to HDF5 files and loaded back."""
import io as _io, os, re, tempfile
import h5py
from dyn.fw import *
from pyhipp.core import DataDict
from pyhipp.io import h5

POOL = ['a', 'b', 'c', 'x y', 'pos', 'Mass0', 'aa', 'ab', '0', 'ü']
PATTERNS = ['a', 'a.', '.*b', '[ab]$', '', 'zzz', 'ab|x', '^p', '0', r'\w+$', 's$']
ATTR_OK = (str, bytes)


def scratch(): return tempfile.TemporaryDirectory(prefix='c25-')


def leaf(r):
    k = r.int(0, 11)
    if k == 0: return r.int(-10 ** 12, 10 ** 12)
    if k == 1: return r.real()
    if k == 2: return bool(r.bool(.5))
    if k == 3: return complex(r.int(-9, 9), r.int(-9, 9))
    if k == 4: return r.pick(['', 'text', 'two words', 'grün', 'a/b'])
    if k == 5: return r.pick([b'bytes', b'x', b'\xff\xfe'])
    if k == 6: return r.g.normal(size=tuple(r.int(0, 3) for _ in range(r.int(1, 3))))
    if k == 7: return r.g.integers(-99, 99, size=r.int(0, 4)).astype(r.pick(['i1', 'i4', 'i8', 'f4', '>f8', 'u2']) if r.bool(.9) else 'c16')
    if k == 8: return np.array(r.int(0, 9))
    if k == 9: return r.pick([np.float32, np.int16, np.uint8, np.bool_])(r.int(0, 1))
    if k == 10: return np.array([b'ab', b'c'])[:r.int(1, 2)]
    a = np.zeros(r.int(0, 2), dtype=[('u', 'i4'), ('v', 'f8', (2,))]); a['u'] = r.int(0, 9); a['v'] = r.real()
    return a


def nested(r, depth):
    d = {}
    for k in POOL:
        if r.bool(.3): d[k] = nested(r, depth - 1) if depth and r.bool(.35) else leaf(r)
    ks = list(d); r.g.shuffle(ks)
    d = {k: d[k] for k in ks}
    return DataDict(d) if r.bool(.2) else d


def plain(d): return d._dict if hasattr(d, '_dict') else d


def items(d): return list(d.items())


def same(got, want, path):
    """what a dataset gives back for a stored value"""
    if isinstance(want, str): ensure(isinstance(got, bytes) and got == want.encode(), f'{path}: {got!r} for the string {want!r}'); return
    if isinstance(want, bytes): ensure(isinstance(got, bytes) and got == want, f'{path}: {got!r} for {want!r}'); return
    w, g = np.asarray(want), np.asarray(got)
    ensure(g.shape == w.shape and g.dtype == w.dtype and g.tobytes() == w.tobytes(), f'{path}: {got!r} ({g.dtype}) for {want!r} ({w.dtype})')
    if not isinstance(want, np.ndarray): ensure(not isinstance(got, np.ndarray), f'{path}: an array for the scalar {want!r}')


def tree(got, want, path=''):
    ensure(isinstance(got, DataDict), f'{path or "/"}: {type(got)} for a mapping')
    ensure(sorted(got.keys()) == sorted(want.keys()), f'{path or "/"}: names {sorted(got.keys())}, dumped {sorted(want.keys())}')
    for k, v in want.items():
        g = got[(k,)][0] if '/' in k else got[k]
        if hasattr(v, 'items'): tree(g, v, f'{path}/{k}')
        else: same(g, v, f'{path}/{k}')


def spell(r, ks):
    """a key with the given names, with slashes that do not matter"""
    s = '/' * r.pick([0, 0, 1, 2])
    s += ''.join(k + '/' * r.pick([1, 1, 2, 3]) for k in ks[:-1])
    return s + (ks[-1] if ks else r.pick(['', '/', '//'])) + '/' * r.pick([0, 0, 1])


def bytes_of(p):
    if not os.path.exists(p): return None
    with h5py.File(p, 'r') as f: return image(f)


def image(o):
    if isinstance(o, h5py.Dataset): return ('dataset', o.dtype.str, o.shape, np.asarray(o[()]).tobytes() if o.dtype.kind != 'O' else str(o[()]))
    return {k: image(o[k]) for k in o}


@contract('dump and load of a file, whole and by path', 5)
def _(r):
    d = nested(r, 3)
    pre = [r.pick(POOL) for _ in range(r.int(0, 3))]
    key = None if not pre and r.bool(.5) else spell(r, pre)
    r.note(data=repr(d), key=key)
    with scratch() as t:
        p = os.path.join(t, 'f.h5')
        h5.File.dump_to(p, d, **({} if key is None else {'key': key}))
        want = d
        for k in reversed(pre): want = {k: want}
        got = h5.File.load_from(p)
        tree(got, want)
        tree(h5.File.load_from(p, '/'), want)
        # any object by its path
        ks, o = [], want
        while hasattr(o, 'items') and len(o) and r.bool(.8):
            k = r.pick(list(o.keys())); ks.append(k); o = o[k]
        if ks:
            g = h5.File.load_from(p, '/'.join(ks))
            if hasattr(o, 'items'): tree(g, o, '/'.join(ks))
            else: same(g, o, '/'.join(ks))
            ensure_raises(KeyError, lambda: h5.File.load_from(p, '/'.join(ks) + 'missing'), 'a missing path was loaded')
        # listings agree with what is stored
        with h5.File(p) as f:
            g = f['/'.join(ks)] if ks and hasattr(o, 'items') else f
            w = o if ks and hasattr(o, 'items') else want
            ensure(sorted(g.keys()) == sorted(w.keys()) and len(g) == len(w), f'listing {list(g.keys())} of {list(w.keys())}')
            ensure(len(g.keys()) == len(w) and [g.keys()[i] for i in range(len(w))] == list(g.keys()) and list(reversed(g.keys())) == list(g.keys())[::-1], 'key list')
            for k in POOL: ensure((k in g) == (k in w) and (k in g.keys()) == (k in w), f'membership of {k}')
            ensure([k for k, _ in g.items()] == list(g.keys()) and len(list(g.values())) == len(w), 'items, values')
            for k, v in g.items():
                ensure(isinstance(v, h5.Group) == hasattr(w[k], 'items'), f'kind of {k}')
                if isinstance(v, h5.Group): tree(v.load(), w[k], k)
                else: same(v[()], w[k], k)
            sets = {k: v for k, v in w.items() if not hasattr(v, 'items')}
            m = g.datasets
            ensure(sorted(m.keys()) == sorted(sets), f'datasets {list(m.keys())} of {sorted(sets)}')
            for k in POOL: ensure((k in m) == (k in sets), f'membership of dataset {k}')
            for k, v in m.items(): same(v, sets[k], k)
            for k, v in zip(m.keys(), m.values()): same(v, sets[k], k)
            pat = r.pick(PATTERNS)
            tree(m.load(pat), {k: v for k, v in sets.items() if re.match(pat, k)})
            tree(m.load(), sets)
            sub = [k for k in sets if r.bool(.5)]
            tree(m.load(keys=sub), {k: sets[k] for k in sub})
            tree(m.load(pat, keys=sub), {k: sets[k] for k in sub if re.match(pat, k)})
            ensure(list(g.keys().matched(pat)) == [k for k in g.keys() if re.match(pat, k)], 'matched keys')
            if sub:
                for a, k in zip(m[tuple(sub)], sub): same(a, sets[k], k)
                for a, k in zip(g[tuple(sub)], sub): same(a[()], sets[k], k)
            wh = g.what()
            ensure(wh.count('├─') + wh.count('└─') == count(w), f'description of {w!r}: {wh}')
            s = _io.StringIO(); g.ls(file=s)
            ensure(s.getvalue().rstrip('\n') == wh.rstrip('\n'), 'ls')
            mw = m.what()
            ensure(mw == ('[' + ', '.join(m.keys()) + ']' if sets else ''), f'datasets: {mw}')


def count(w): return sum(1 + (count(v) if hasattr(v, 'items') else 0) for v in w.values())


class Odd:
    pass


@contract('unsupported entries are refused before anything is written', 2)
def _(r):
    d = nested(r, 3)
    here, at = d, []
    while r.bool(.6):
        subs = [k for k, v in here.items() if hasattr(v, 'items')]
        if not subs: break
        k = r.pick(subs); at.append(k); here = here[k]
    bad = r.pick([('bad', None), ('bad', [1, 2]), ('bad', (1, 2)), ('bad', Odd()), (3, 1.0), (None, 1), (b'key', 1), ('bad', {1, 2}), (('a', 'b'), 1), ('bad', []), (7, {}), ('bad', {'deep': None})])
    if r.bool(.5): here = plain(here); rest = dict(here); here.clear(); here[bad[0]] = bad[1]; here.update(rest)
    else: plain(here)[bad[0]] = bad[1]
    base = nested(r, 1)
    r.note(data=repr(d), under=at, bad=repr(bad), file=repr(base))
    with scratch() as t:
        p = os.path.join(t, 'f.h5')
        h5.File.dump_to(p, base)
        before = bytes_of(p)
        ensure_raises(TypeError, lambda: h5.File.dump_to(p, d, dump_flag=r.pick(['x', 'ac'])), 'accepted')
        ensure(bytes_of(p) == before, 'something was written before the refusal')
        with h5.File(p, 'a') as f:
            g = f.create_group('new')
            ensure_raises(TypeError, lambda: g.dump(d), 'accepted in a group')
            ensure(len(g) == 0, 'something was written before the refusal')


@contract('parents: created on request, required otherwise, groups in any case', 2)
def _(r):
    base, d = nested(r, 2), r.pick([lambda: nested(r, 1), lambda: leaf(r)])()
    ks = [r.pick(POOL) for _ in range(r.int(1, 3))]
    create = r.pick([None, True, False])
    gf, df = r.pick(['x', 'ac', 'ca', 'x']), r.pick(['x', 'ac', 'ca'])
    key = spell(r, ks)
    r.note(file=repr(base), data=repr(d), key=key, create_parent=create, g_flag=gf, dump_flag=df)
    with scratch() as t:
        p = os.path.join(t, 'f.h5')
        h5.File.dump_to(p, base)
        before = bytes_of(p)
        o, missing, blocked = base, False, False
        for k in ks[:-1]:
            if k not in o: missing = True; break
            o = o[k]
            if not hasattr(o, 'items'): blocked = True; break
        go = lambda: h5.File.dump_to(p, d, key=key, g_flag=gf, dump_flag=df, **({} if create is None else {'create_parent': create}))
        if blocked or missing and create is False:
            try: go()
            except (KeyError, ValueError, TypeError): pass
            else: raise Fail(f'accepted under a {"missing" if missing else "non-group"} parent')
            ensure(bytes_of(p) == before, 'something was written')
            return
        if missing: o = {}
        old = o.get(ks[-1]) if ks[-1] in o else None
        if old is None:
            go()
            want = to_dict(base)
            w = want
            for k in ks[:-1]: w = w.setdefault(k, {})
            w[ks[-1]] = d
            tree(h5.File.load_from(p), want)
            g = h5.File.load_from(p, key)
            if hasattr(d, 'items'): tree(g, d)
            else: same(g, d, key)
        elif hasattr(d, 'items') and (gf == 'x' or not hasattr(old, 'items')) or not hasattr(d, 'items') and (df == 'x' or hasattr(old, 'items')):
            ensure_raises(ValueError, go, 'an existing object was in the way')
            ensure(bytes_of(p) == before, 'something was written')
        elif hasattr(d, 'items'):
            new = {k + '_new': v for k, v in d.items()}
            h5.File.dump_to(p, new, key=key, g_flag=gf, dump_flag=df)
            want = to_dict(base)
            w = want
            for k in ks: w = w[k]
            w.update(new)
            tree(h5.File.load_from(p), want)


def to_dict(d): return {k: to_dict(v) if hasattr(v, 'items') else v for k, v in d.items()}


@contract('attributes under their names', 2)
def _(r):
    d = {k: leaf(r) for k in POOL if r.bool(.5)}
    d = {k: v for k, v in d.items() if not (isinstance(v, np.ndarray) and v.dtype.names) and not (isinstance(v, bytes) and v == b'\xff\xfe')}
    pat = r.pick(PATTERNS)
    r.note(attrs=repr(d), pattern=pat)
    with scratch() as t:
        p = os.path.join(t, 'f.h5')
        with h5.File(p, 'x') as f:
            where = r.pick([lambda: f, lambda: f.create_group('g'), lambda: f.datasets.create('d', 1.0)])()
            where.attrs.dump(d)
            a = where.attrs

            def check(got, want):
                ensure(isinstance(got, DataDict) and sorted(got.keys()) == sorted(want), f'names {sorted(got.keys())}, dumped {sorted(want)}')
                for k, v in want.items(): one(got[k], v, k)

            def one(g, v, k):
                if isinstance(v, (str, bytes)): ensure(g == v or isinstance(v, bytes) and g == v.decode(), f'{k}: {g!r} for {v!r}')
                else: same(g, v, k)
            check(a.load(), d)
            check(a.load(pat), {k: v for k, v in d.items() if re.match(pat, k)})
            sub = [k for k in d if r.bool(.5)]
            check(a.load(keys=sub), {k: d[k] for k in sub})
            ensure(len(a) == len(d) and sorted(a.keys()) == sorted(d), f'listing {list(a.keys())}')
            for k in POOL:
                ensure((k in a) == (k in d), f'membership of {k}')
                if k in d: one(a[k], d[k], k)
                else: ensure_raises(KeyError, lambda: a[k], f'missing attribute {k}')
            for k, v in a.items(): one(v, d[k], k)
            for k, v in zip(a.keys(), a.values()): one(v, d[k], k)
            if sub:
                for g, k in zip(a[tuple(sub)], sub): one(g, d[k], k)


