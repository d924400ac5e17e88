"""Offsets, chunks, masks, range filter (core/dataproc)."""
from ..harness import *
from .. import arr as A, loops as L
from ..arr import mk_sum
suite = Suite()
DS, IT, MK, FL = ('core.dataproc.' + x for x in ('data_structs', 'iter', 'mask', 'filter'))


def prefix(c, k): return S(mk_sum(lambda i: at(c, S(i)).e, C.lift(k), I))


def counts(h):
    n = h.size('n')
    c = h.assume_all(h.array('count', n, 'i8'), lambda v, i: v >= 0)
    return n, c


for end in (True, False):
    @suite.case(f'offsets (has_end={end})')
    def _(h, end=end):
        n, c = counts(h)
        c0 = c.snap()
        D = h.mod(DS).Array
        off = D.count_to_offset(c) if end else D.count_to_offset(c, has_end=False)
        h.shape('one per count' + ' and the end' * end, off, (n + 1 if end else n,))
        k = h.idx(n)
        h.eq('sum of the counts before it', at(off, k), prefix(c, k))
        if end: h.eq('ends at the total', at(off, n), prefix(c, n))
        if CTX.branch(C.tobool(n >= 1)):
            h.eq('starts at zero', at(off, 0), 0)
            if end: h.eq('differences are the counts', at(off, k + 1) - at(off, k), at(c, k))
        elif end: h.eq('no counts: just the zero', at(off, 0), 0)
        h.unchanged('counts unchanged', c, c0)


@suite.case('offset pairs')
def _(h):
    n, c = counts(h)
    p = h.mod(DS).Array.count_to_offset_pairs(c)
    h.shape('one pair per count', p, (n, 2))
    k = h.idx(n)
    h.eq('begin', at(p, k, 0), prefix(c, k)); h.eq('end', at(p, k, 1), prefix(c, k) + at(c, k))


@suite.case('chunk ranges')
def _(h):
    n, c = counts(h)
    r = list(h.mod(IT).Chunks.ranges_by_sizes(c))
    k = h.idx(n)
    h.eq('one range per count', L.seg_len(r), n)
    b_, e_ = L.seg_getitem(r, k.e)
    h.eq('begin', b_, prefix(c, k)); h.eq('end', e_, prefix(c, k) + at(c, k))
    h.prove('a pair', len(L.seg_getitem(r, k.e)) == 2)


def piece(h, name, p, s, c, k, sh=()):
    ln = C.lift(p._shape[0])
    h.eq(name + ': size', S(ln), at(c, k))
    j = h.idx(S(ln)); ix = [h.idx(d) for d in sh]
    h.eq(name + ': elements', at(p, j, *ix), at(s, prefix(c, k) + j, *ix))


for kind in ('f8', 'i8', 'rows'):
    for ns in (1, 2, 3):
        @suite.case(f'chunks of {ns} sequences ({kind})')
        def _(h, kind=kind, ns=ns):
            n, c = counts(h)
            sh = (h.size('q'),) if kind == 'rows' else ()
            seqs = [h.array(f's{i}', (h.size(f'm{i}'),) + sh, 'f8' if kind == 'rows' else kind) for i in range(ns)]
            for s in seqs: h.assume(prefix(c, n) <= S(C.lift(s._shape[0])))
            r = list(h.mod(IT).Chunks.slices_by_sizes(c, *seqs))
            h.eq('one piece per count', L.seg_len(r), n)
            k = h.idx(n)
            h.lemma('piece inside', prefix(c, k + 1) <= prefix(c, n))
            h.lemma('begin not before the start', prefix(c, k) >= 0)
            h.lemma('one step', prefix(c, k + 1) == prefix(c, k) + at(c, k))
            got = L.seg_getitem(r, k.e)
            if ns == 1: piece(h, 'piece', got, seqs[0], c, k, sh)
            else:
                h.prove('one per sequence', isinstance(got, tuple) and len(got) == ns)
                for i, (p, s) in enumerate(zip(got, seqs)): piece(h, f'sequence {i}', p, s, c, k, sh)


@suite.case('chunks of nothing are refused')
def _(h):
    h.raises('refused', AssertionError, lambda: list(h.mod(IT).Chunks.slices_by_sizes([1, 2])))


# ------------------------------------------------------------------ masks
@suite.case('mask to indices')
def _(h):
    n = h.size('n'); m = h.array('m', n, 'b1'); m0 = m.snap()
    i = h.mod(MK).Mask.bool_to_idx(m)
    cnt = S(mk_sum(lambda j: z3.If(C.tobool(at(m, S(j))), z3.IntVal(1), z3.IntVal(0)), n.e, I))
    h.shape('one index per true entry', i, (cnt,))
    k, l = h.idx(cnt), h.idx(cnt)
    h.prove('valid positions', conj(at(i, k) >= 0, at(i, k) < n))
    h.prove('positions of true entries', at(m, at(i, k)))
    h.prove('in increasing order', imp(k < l, at(i, k) < at(i, l)))
    h.unchanged('mask unchanged', m, m0)


@suite.case('mask to indices and back')
def _(h):
    M = h.mod(MK).Mask
    n = h.size('n'); m = h.array('m', n, 'b1')
    r = M.idx_to_bool(n, M.bool_to_idx(m))
    h.shape('as long', r, (n,)); j = h.idx(n)
    h.prove('same mask', iff(at(r, j), at(m, j)))


@suite.case('indices to mask')
def _(h):
    M = h.mod(MK).Mask
    n, q = h.size('n'), h.size('q')
    i = h.array('i', q, 'i8'); h.assume_all(i, lambda v, k: conj(v >= 0, v < n)); i0 = i.snap()
    r = M.idx_to_bool(n, i)
    h.shape('as long as requested', r, (n,))
    k, j = h.idx(q), h.idx(n)
    h.prove('listed positions are true', at(r, at(i, k)))
    times = S(mk_sum(lambda t: z3.If(at(i, S(t)).e == j.e, z3.IntVal(1), z3.IntVal(0)), q.e, I))
    h.prove('true exactly where listed', iff(at(r, j), times > 0))
    h.unchanged('indices unchanged', i, i0)


@suite.case('matrices are refused')
def _(h):
    M = h.mod(MK).Mask
    h.raises('mask', AssertionError, lambda: M.bool_to_idx(h.array('m', (h.size('a'), h.size('b')), 'b1')))
    h.raises('indices', AssertionError, lambda: M.idx_to_bool(5, h.array('i', (h.size('a'), h.size('b')), 'i8')))


for nm in (1, 2, 3, 4):
    for dflt in (False, True):
        @suite.case(f'merge of {nm} (default={dflt})')
        def _(h, nm=nm, dflt=dflt):
            n = h.size('n')
            ms = [h.array(f'm{k}', n, 'b1') for k in range(nm)]; xs = [h.array(f'x{k}', n) for k in range(nm)]
            d = h.real('d')
            Z = h.mod(MK).Mask.zip
            r = Z(ms, xs, d) if dflt else Z(ms, xs)
            h.shape('as long', r, (n,)); j = h.idx(n)
            want = d if dflt else S(z3.RealVal(0))
            for m, x in reversed(list(zip(ms, xs))): want = ite(at(m, j), at(x, j), want)
            h.eq('first mask that holds, or the default', at(r, j), want)


# ------------------------------------------------------------------ range filter
for lo in (False, True):
    for hi in (False, True):
        for dt in ('f8', 'i8'):
            @suite.case(f'range filter (lower={lo}, upper={hi}, {dt})')
            def _(h, lo=lo, hi=hi, dt=dt):
                n = h.size('n'); x = h.array('x', n, dt); x0 = x.snap()
                a, c = h.real('a'), h.real('c')
                kw = dict(([('min', a)] if lo else []) + ([('max', c)] if hi else []))
                r = h.mod(FL).Range(**kw)(x)
                inside = lambda v: conj(*([v >= a] if lo else []), *([v < c] if hi else []))
                src = getattr(r, 'compress_of', None)
                if src is not None:
                    j = h.idx(n)
                    h.prove('exactly the values inside the limits', iff(S(src[1]((j.e,))), inside(at(x, j))))
                    h.eq('of the input, in order', S(src[0]((j.e,))), at(x, j))
                else: h.eqarr('exactly the values inside the limits, in order', r, x[A.elementwise(inside, [x], 'b1')])
                h.unchanged('input unchanged', x, x0)


@suite.case('no counts at all')
def _(h):
    D = h.mod(DS).Array
    c = h.array('count', 0, 'i8')
    o = D.count_to_offset(c); h.shape('only the end', o, (1,)); h.eq('zero', at(o, 0), 0)
    h.shape('nothing', D.count_to_offset(c, has_end=False), (0,)); h.shape('no pairs', D.count_to_offset_pairs(c), (0, 2))
    h.prove('no ranges', len(list(h.mod(IT).Chunks.ranges_by_sizes([]))) == 0)
