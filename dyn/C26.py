"""Executable contracts: what the creation and opening flags do to existing and missing objects."""
import os, tempfile
import h5py
from dyn.fw import *
from pyhipp.io import h5
from pyhipp.io.h5 import shortcuts

NAMES = ['a', 'b', 'c', 'd']
FLAGS = ['x', 'ac', 'ca']


def scratch(): return tempfile.TemporaryDirectory(prefix='c26-')


def dump(o):
    """everything a file holds, as plain values"""
    if isinstance(o, h5py.Dataset): body = ('dataset', o.dtype.str, o.shape, np.asarray(o[()]).tobytes() if o.dtype.kind != 'O' else str(o[()]))
    elif isinstance(o, h5py.Group):
        body = ('group', {})
        for k in o:
            l = o.get(k, getlink=True)
            body[1][k] = ('soft', l.path) if isinstance(l, h5py.SoftLink) else ('external', l.filename, l.path) if isinstance(l, h5py.ExternalLink) else dump(o[k])
    else: body = ('type', str(o.dtype))
    return body, {k: (np.asarray(v).dtype.str, np.shape(v), np.asarray(v).tobytes()) for k, v in o.attrs.items()}


def value(r, like=None):
    if like is None:
        return r.pick([lambda: np.arange(float(r.int(1, 4))), lambda: np.arange(r.int(1, 4)), lambda: float(r.int(0, 9)), lambda: np.ones((2, 2)) * r.int(0, 9),
                       lambda: np.float32(r.int(0, 9))])()
    a = np.asarray(like)
    return np.full(a.shape, r.int(10, 99)).astype(a.dtype if r.bool() else r.pick(['i4', 'f4', 'f8', 'i8', 'u1']))


def kind(g, k):
    if k not in g: return None
    return 'dataset' if isinstance(g[k], h5py.Dataset) else 'group' if isinstance(g[k], h5py.Group) else 'type'


def populate(r, g):
    for k in NAMES:
        what = r.pick([None, 'dataset', 'group', 'type', 'dataset'])
        if what == 'dataset': g[k] = value(r)
        if what == 'group': g.create_group(k)['inner'] = value(r)
        if what == 'type': g[k] = np.dtype('f8')
    for k in NAMES:
        if r.bool(.4): g.attrs[k] = value(r)
    for k in g:
        if kind(g, k) != 'type' and r.bool(.3): g[k].attrs['note'] = r.int(0, 9)


def patch(d, k, new):
    body, at = d
    return (body[0], dict(body[1], **{k: new})), at


def check(raw, g, r, log):
    op = r.pick(['dataset', 'empty dataset', 'group', 'soft', 'external', 'attr', 'empty attr', 'set dataset', 'set attr', 'dataset', 'attr'])
    k = r.pick(NAMES)
    flag = r.pick(FLAGS + FLAGS + ['bad', 'w', ''])
    before = dump(raw)
    ex = kind(raw, k)
    at = k in raw.attrs
    v = value(r)
    if op in ('dataset', 'set dataset') and ex == 'dataset': v = value(r, raw[k][()])
    if op in ('attr', 'set attr') and at: v = value(r, raw.attrs[k])
    log.append((op, k, flag, ex, at, repr(v))); r.note(log=log)
    go = {'dataset': lambda: g.datasets.create(k, v, flag=flag), 'empty dataset': lambda: g.datasets.create_empty(k, (2,), 'i4', flag=flag),
          'group': lambda: g.create_group(k, flag=flag), 'soft': lambda: g.create_soft_link(k, '/', flag=flag),
          'external': lambda: g.create_external_link(k, raw.file.filename, '/', flag=flag),
          'attr': lambda: g.attrs.create(k, v, flag=flag), 'empty attr': lambda: g.attrs.create_empty(k, (2,), 'i4', flag=flag),
          'set dataset': lambda: g.datasets.__setitem__(k, v), 'set attr': lambda: g.attrs.__setitem__(k, v)}[op]
    if op == 'set dataset': bad = KeyError if ex != 'dataset' else None
    elif op == 'set attr': bad = None if at else KeyError
    elif flag not in FLAGS: bad = ValueError
    elif 'attr' in op: bad = ValueError if at and flag == 'x' else None
    elif ex is None: bad = None
    elif flag == 'x': bad = ValueError
    elif op in ('dataset', 'empty dataset'): bad = None if ex == 'dataset' else ValueError
    elif op == 'group': bad = None if ex == 'group' else ValueError
    else: bad = None
    if bad:
        ensure_raises(bad, go, f'{op} {k} over {ex}, flag {flag}')
        ensure(dump(raw) == before, f'{op} {k} over {ex}, flag {flag}: refused, yet the file changed', before, dump(raw))
        return
    out = go()
    after = dump(raw)
    if 'attr' in op:
        same = dict(after[1]); same.pop(k, None)
        want = dict(before[1]); want.pop(k, None)
        ensure(after[0] == before[0] and same == want, f'{op} {k}: something else changed')
        new = after[1][k]
        if op == 'empty attr': ensure(new == before[1][k] if at else new[:2] == ('<i4', (2,)), f'{op} {k}', new)
        else:
            a = np.asarray(v)
            if at: a = a.astype(before[1][k][0])       # overwriting keeps the datatype
            ensure(new == (a.dtype.str, a.shape, a.tobytes()), f'{op} {k}: holds {new}', v)
        return
    new = after[0][1][k]
    rest = lambda d: ({q: w for q, w in d[0][1].items() if q != k}, d[1])
    ensure(rest(after) == rest(before), f'{op} {k}: something else changed')
    if op in ('dataset', 'set dataset'):
        a = np.asarray(v)
        if ex: a = a.astype(before[0][1][k][0][1])
        ensure(new[0] == ('dataset', a.dtype.str, a.shape, a.tobytes()), f'{op} {k}: holds {new}', v)
        if ex: ensure(new[1] == before[0][1][k][1], f'{op} {k}: the attributes of the dataset changed')
    elif ex is not None: ensure(new == before[0][1][k], f'{op} {k}: the existing object changed', new)
    elif op == 'empty dataset': ensure(new[0][:3] == ('dataset', '<i4', (2,)), f'{op}', new)
    elif op == 'group': ensure(new == (('group', {}), {}), f'{op}', new)
    elif op == 'soft': ensure(new == ('soft', '/'), f'{op}', new)
    elif op == 'external': ensure(new[0] == 'external' and new[2] == '/', f'{op}', new)
    if op in ('dataset', 'empty dataset'): ensure(type(out) is h5.Dataset and out._raw == raw[k], f'{op}: the dataset is returned')
    if op == 'group': ensure(type(out) is h5.Group and out._raw == raw[k], f'{op}: the group is returned')


@contract('histories of creations', 4)
def _(r):
    with scratch() as d:
        with h5.File(os.path.join(d, 'x.h5'), 'w') as f:
            populate(r, f._raw)
            raw = f._raw
            g = f
            if r.bool(.3):
                raw = f._raw.create_group('sub')
                populate(r, raw)
                g = f['sub']
            log = []
            for _ in range(r.int(1, 6)): check(raw, g, r, log)


@contract('exclusive flag by default', 1)
def _(r):
    with scratch() as d:
        with h5.File(os.path.join(d, 'x.h5'), 'w') as f:
            raw = f._raw
            raw['a'] = 1.; raw.attrs['a'] = 2.
            before = dump(raw)
            for fn in (lambda: f.datasets.create('a', 3.), lambda: f.datasets.create_empty('a', (1,), 'f8'), lambda: f.create_group('a'),
                       lambda: f.create_soft_link('a', '/'), lambda: f.create_external_link('a', 'y.h5'), lambda: f.attrs.create('a', 3.),
                       lambda: f.attrs.create_empty('a', (1,), 'f8')):
                ensure_raises(ValueError, fn, 'default flag')
            ensure(dump(raw) == before, 'the file changed')


@contract('opening files', 2)
def _(r):
    with scratch() as d:
        p = os.path.join(d, 'x.h5')
        ex = r.bool()
        flag = r.pick(['r', 'a', 'x', 'ac', 'ca', 'w', None, 'bad', 'r+', ''])
        r.note(exists=ex, flag=flag)
        if ex:
            with h5py.File(p, 'w') as f: f['old'] = 1
        go = lambda: h5.File(p) if flag is None else h5.File(p, flag)
        if flag in ('bad', 'r+', ''):
            ensure_raises(ValueError, go, 'unknown flag')
            ensure(os.path.exists(p) == ex, 'unknown flag: the file')
            return
        fl = flag or 'r'
        if ex and fl == 'x' or not ex and fl in ('r', 'a'):
            ensure_raises(OSError, go, f'flag {fl}, file {"exists" if ex else "is missing"}')
            ensure(os.path.exists(p) == ex, 'refused, yet a file appeared or vanished')
        else:
            with go() as f:
                ensure(('old' in f) == (ex and fl != 'w'), f'flag {fl}: old contents')
                try: f.datasets.create('new', 1); wrote = True
                except Exception: wrote = False
                ensure(wrote == (fl != 'r'), f'flag {fl}: writable {wrote}')
            ensure(not f._raw, 'closed')
        if ex:
            with h5py.File(p) as f: ensure(('old' in f) == (fl != 'w'), f'flag {fl}: old contents afterwards')


@contract('text tables', 1)
def _(r):
    with scratch() as d:
        t, p = os.path.join(d, 't.txt'), os.path.join(d, 'x.h5')
        n = r.int(1, 4)
        rows = [(r.int(0, 9), r.int(0, 9)) for _ in range(n)]
        with open(t, 'w') as f: f.write('\n'.join(f'{a} {b}' for a, b in rows))
        ex, flag, ff, path = r.bool(), r.pick(FLAGS), r.pick(['ac', 'w']), r.bool()
        r.note(exists=ex, flag=flag, file_flag=ff, path=path)
        if ex:
            with h5py.File(p, 'w') as f: f['u'] = np.arange(n) + 50
        dt = np.dtype([('u', 'i8'), ('v', 'f8')])

        def go():
            if path: shortcuts.txt_to_h5(t, p, dt, d_flag=flag, f_flag=ff)
            else:
                with h5.File(p, ff) as f: shortcuts.txt_to_h5(t, f, dt, d_flag=flag)
        if ex and flag == 'x' and ff == 'ac':
            ensure_raises(ValueError, go, 'an existing dataset with the exclusive flag')
            with h5py.File(p) as f: ensure((f['u'][()] == np.arange(n) + 50).all(), 'the existing dataset changed')
            return
        go()
        with h5py.File(p) as f:
            ensure(f['u'][()].reshape(-1).tolist() == [a for a, _ in rows] and f['v'][()].reshape(-1).tolist() == [b for _, b in rows], 'the columns')
