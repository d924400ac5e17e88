"""Executable contracts: Fortran records, layered configuration files."""
import os, tempfile, struct
import yaml
from dyn.fw import *
from pyhipp.io.binary.fortran import BinaryFile
from pyhipp.io.yaml import ConfigFileParser

TYPES = [np.float64, np.float32, np.int32, np.int64, np.uint8, np.dtype('f8'), np.dtype('>i4'), '<i2', 'c16', 'S3',
         np.dtype([('a', 'i4'), ('b', 'f8')]), np.bool_]


def scratch(): return tempfile.TemporaryDirectory(prefix='c27-')


def payload(r, t, n):
    t = np.dtype(t)
    raw = bytes(r.int(0, 255) for _ in range(t.itemsize * n))
    if t.kind == 'b': raw = bytes(c & 1 for c in raw)
    return raw


def same(got, raw, t, n, what):
    want = np.frombuffer(raw, dtype=t)
    if n is None:
        ensure(np.asarray(got).tobytes() == want[0].tobytes(), f'{what}: {got!r}, stored {want[0]!r}')
        ensure(np.asarray(got).ndim == 0, f'{what}: a single item is no scalar')
    else:
        ensure(isinstance(got, np.ndarray) and got.shape == (n,), f'{what}: shape {np.shape(got)}, wanted {n} items')
        ensure(got.tobytes() == raw and got.dtype == np.dtype(t), f'{what}: {got!r}, stored {want!r}')


@contract('sequences of reads and skips', 3)
def _(r):
    steps, blob, head = [], b'', bytes(r.int(0, 9) for _ in range(r.pick([0, 0, 5])))
    for _ in range(r.int(1, 5)):
        t, n = r.pick(TYPES), r.pick([None, 0, 1, 2, 3, 7])
        raw = payload(r, t, 1 if n is None else n)
        op = r.pick(['load_rec', 'skip_rec', 'load_sect', 'skip_sect'])
        if 'sect' in op:
            a = r.pick([len(raw), 0, -1, 2 ** 31 - 1])
            blob += struct.pack('=i', a) + raw + struct.pack('=i', a)
        else: blob += raw
        steps.append((op, t, n, raw, len(head) + len(blob)))
    r.note(case=f'head {len(head)} bytes; ' + '; '.join(f'{o}({np.dtype(t)}, {n})' for o, t, n, *_ in steps))
    with scratch() as d:
        p = os.path.join(d, 'x.bin')
        with open(p, 'wb') as f: f.write(head + blob + b'tail' * 8)
        with BinaryFile(p) as f:
            f.seek(len(head))
            for o, t, n, raw, end in steps:
                kw = {} if n is None and r.bool() else {'n': n}
                got = getattr(f, o)(t, **kw)
                ensure(f._file.tell() == end, f'{o}({np.dtype(t)}, {n}): position {f._file.tell()}, wanted {end}')
                if o.startswith('load'): same(got, raw, t, n, o)


@contract('sections with unequal lengths', 1)
def _(r):
    t, n = r.pick(TYPES), r.pick([None, 0, 1, 3])
    raw = payload(r, t, 1 if n is None else n)
    a, c = r.pick([(1, 2), (len(raw), len(raw) + 1), (len(raw) - 1, len(raw)), (0, -1), (256, 1)])
    r.note(case=f'{np.dtype(t)}, {n}, {a}, {c}')
    with scratch() as d:
        p = os.path.join(d, 'x.bin')
        with open(p, 'wb') as f: f.write(struct.pack('=i', a) + raw + struct.pack('=i', c) + b'tail' * 8)
        with BinaryFile(p) as f:
            ensure_raises((AssertionError, ValueError, OSError), lambda: f.load_sect(t, n=n), 'reading')
            f.seek(0)
            ensure_raises((AssertionError, ValueError, OSError), lambda: f.skip_sect(t, n=n), 'skipping')


NAMES = ['a', 'b', 'c', 'd', 'e', 'ab']


def tree(r, depth):
    return {k: tree(r, depth - 1) if depth and r.bool(.7) else r.pick([0, 1, 'x', None, [1, 2], '', False, 2.5]) for k in NAMES if r.bool(.6)}


@contract('layered lookups', 3)
def _(r):
    t = tree(r, 4)
    path, x, ok = [], t, True
    while isinstance(x, dict) and x and len(path) < 5 and r.bool(.85):
        k = r.pick([k for k in x if isinstance(x[k], dict)] or [None])
        if k is None: break
        path.append(k); x = x[k]
    if r.bool(.15): path.append('missing'); ok = False
    c = r.int(0, len(path))
    init, nest = path[:c], path[c:]
    x, seen = t, []
    for i, k in enumerate([None] + path):
        if k is not None:
            if not isinstance(x, dict) or k not in x: ok = False; break
            x = x[k]
        if i >= c: seen.append(x)
    if any(not isinstance(s, dict) for s in seen): raise Skip()
    want = {}
    for s in seen: want.update(s)
    keys = [r.pick(list(want) if want and r.bool(.85) else NAMES) for _ in range(r.int(0, 4))]
    r.note(case=f'tree {t!r} init {init} nested {nest} keys {keys}')
    with scratch() as d:
        p = os.path.join(d, 'c.yaml')
        with open(p, 'w') as f: yaml.safe_dump(t, f)
        go = lambda: ConfigFileParser(p, init, nest).get(keys)
        if not ok or any(k not in want for k in keys):
            ensure_raises(KeyError, go, 'a name that is not there')
        else:
            out = go()
            ensure(set(out) == set(keys), f'keys {sorted(out)}, requested {sorted(set(keys))}')
            for k in keys: ensure(type(out[k]) is type(want[k]) and out[k] == want[k], f'{k}: {out[k]!r}, the deepest node defines {want[k]!r}')
