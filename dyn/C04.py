"""Executable contracts: offsets, chunks, masks, range filter."""
import numpy as np
from dyn.fw import *
from pyhipp.core.dataproc.data_structs import Array as D
from pyhipp.core.dataproc.iter import Chunks
from pyhipp.core.dataproc.mask import Mask
from pyhipp.core.dataproc.filter import Range


def counts(r):
    n = r.int(0, 7)
    dt = r.pick([np.int64, np.int64, np.int32, np.uint8, np.int16])
    c = r.iarr((n,), 0, r.pick([3, 5, 120])).astype(dt)
    return c


@contract('offsets', 2)
def _(r):
    c = counts(r); r.note(c=c, dt=str(c.dtype)); keep = c.copy()
    n = len(c); want = [sum(int(v) for v in c[:k]) for k in range(n + 1)]
    arg = c if r.bool(.7) else c.tolist()
    o = D.count_to_offset(arg)
    ensure(o.shape == (n + 1,), 'count'); ensure_eq(o, want, 'offsets'); ensure_eq(D.count_to_offset(arg, has_end=False), want[:-1], 'without end')
    p = D.count_to_offset_pairs(arg)
    ensure(p.shape == (n, 2), 'pairs'); ensure_eq(p[:, 0], want[:-1], 'begins'); ensure_eq(p[:, 1], want[1:], 'ends'); ensure_eq(c, keep, 'input')


@contract('chunks', 2)
def _(r):
    c = counts(r); want = np.concatenate(([0], np.cumsum(c.astype(int)))).astype(int)
    arg = r.pick([c, c.tolist(), tuple(c.tolist())])
    mk = lambda: iter(arg) if r.bool(.3) else arg
    r.note(c=c, dt=str(c.dtype), arg=str(type(arg)))
    got = [(int(b), int(e)) for b, e in Chunks.ranges_by_sizes(mk())]
    ensure(got == list(zip(want[:-1].tolist(), want[1:].tolist())), 'ranges', got)
    tot = int(want[-1])
    seqs = []
    for _ in range(r.int(1, 3)):
        m = tot + r.int(0, 3)
        seqs.append(r.pick([np.arange(m), np.arange(2 * m).reshape(m, 2), list(range(m)), ''.join(chr(65 + i % 50) for i in range(m))]))
    out = list(Chunks.slices_by_sizes(mk(), *seqs))
    ensure(len(out) == len(c), 'pieces', len(out))
    for k, p in enumerate(out):
        p = (p,) if len(seqs) == 1 else p
        ensure(isinstance(p, tuple) and len(p) == len(seqs), 'one per sequence')
        for q, s in zip(p, seqs):
            ensure(type(q) is type(s), 'kind kept'); w = s[want[k]:want[k + 1]]
            ensure(np.array_equal(q, w) if isinstance(w, np.ndarray) else q == w, 'piece', (k, q, w))
    ensure_raises(AssertionError, lambda: list(Chunks.slices_by_sizes(arg)), 'nothing')


@contract('masks', 2)
def _(r):
    n = r.int(0, 9); m = r.g.random(n) < r.pick([.1, .5, .9]); keep = m.copy()
    r.note(m=m)
    arg = m if r.bool(.7) or n == 0 else m.tolist()
    i = Mask.bool_to_idx(arg)
    ensure_eq(i, [k for k in range(n) if m[k]], 'positions'); b = Mask.idx_to_bool(n, i)
    ensure(b.dtype == bool and b.shape == (n,), 'mask kind'); ensure_eq(b, m, 'round trip'); ensure_eq(m, keep, 'input')
    j = r.iarr((r.int(0, 6) if n else 0,), 0, max(n - 1, 0)); ensure_eq(Mask.idx_to_bool(n, j), np.isin(np.arange(n), j), 'any indices')
    ensure_raises(AssertionError, lambda: Mask.bool_to_idx(np.ones((2, 2), bool)), 'matrix'); ensure_raises(AssertionError, lambda: Mask.idx_to_bool(3, np.ones((2, 2), int)), 'matrix')


@contract('merge', 2)
def _(r):
    n, q = r.int(0, 6), r.int(1, 4)
    ms = [r.g.random(n) < .5 for _ in range(q)]; xs = [r.arr(n) if r.bool() else r.iarr((n,), -3, 3) for _ in range(q)]
    d = r.pick([None, 0, 7., -1]); r.note(ms=ms, xs=xs, d=d)
    got = Mask.zip(ms, xs) if d is None else Mask.zip(ms, xs, d)
    want = [next((x[k] for m, x in zip(ms, xs) if m[k]), d or 0) for k in range(n)]
    ensure_eq(got, want, 'merge')


@contract('range', 2)
def _(r):
    n = r.int(0, 8); x = r.arr(n, special=(np.inf, -np.inf, 0., 1.), p=.3) if r.bool() else r.iarr((n,), -3, 3)
    lim = lambda: r.pick([None, 0, 0., 1, r.real(-5, 5), *(x.tolist() if n else [])])
    lo, hi = lim(), lim(); keep = x.copy()
    r.note(x=x, lo=lo, hi=hi)
    kw = {k: v for k, v in (('min', lo), ('max', hi)) if v is not None or r.bool()}
    arg = x if r.bool(.7) or n == 0 else x.tolist()
    got = Range(**kw)(arg)
    want = [v for v in x.tolist() if (lo is None or v >= lo) and (hi is None or v < hi)]
    ensure_eq(got, want, 'values inside'); ensure(np.array_equal(x, keep, equal_nan=x.dtype.kind == 'f'), 'input')
