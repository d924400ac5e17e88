"""Tabulation on grids (core/dataproc/grid.py GridMd.at, from_data_range, applied)."""
from ..harness import *
from .. import arr as A
suite = Suite()
GR = 'core.dataproc.grid'


def axes(h, d):
    out = []
    for a in range(d):
        n = h.size(f'n{a}', lo=1)
        e = h.array(f'e{a}', n); h.ascending(e)
        out.append((e, n))
    return out


class Fn:
    """the caller's function: any function of the coordinates; as many rows of values as locations, in their order"""

    def __init__(self, d, stacked, outs, rank):
        self.d, self.stacked, self.outs, self.rank, self.calls = d, stacked, outs, rank, 0
        self.F = [z3.Function(CTX.fresh_name('f'), *[R] * d, *[I] * rank, R) for _ in range(max(outs, 1))]

    def __call__(self, *args):
        self.calls += 1
        if self.stacked:
            if len(args) != 1: raise TypeError('one array of locations')
            X = args[0]
            CTX.side('one column per axis', z3.And(z3.BoolVal(X.ndim == 2), A.dz(X._shape[1]) == self.d))
            f = X.snap()
            n, get = X._shape[0], (lambda q: [f((q, z3.IntVal(a))) for a in range(self.d)])
        else:
            if len(args) != self.d: raise TypeError('one argument per axis')
            for a in args: CTX.side('flat coordinates', z3.And(z3.BoolVal(a.ndim == 1), A.dz(a._shape[0]) == A.dz(args[0]._shape[0])))
            fs = [a.snap() for a in args]
            n, get = args[0]._shape[0], (lambda q: [f((q,)) for f in fs])
        self.w = [CTX_size(self.rank, k) for k in range(len(self.F))]
        out = [A.new_arr((n,) + tuple(A.dim(x) for x in w), 'f8', lambda ix, F=F: F(*[C.toreal(S(v)) for v in get(ix[0])], *ix[1:])) for F, w in zip(self.F, self.w)]
        return tuple(out) if self.outs else out[0]


def CTX_size(rank, k):
    w = [S(z3.Int(f'width{k}_{r}')) for r in range(rank)]
    for x in w: CTX.assume(x.e >= 0)
    return w


for d in (1, 2, 3):
    for xy in (True, False):
        for stacked in (True, False):
            for outs, rank in ((0, 0), (0, 1), (2, 0)):
                if d == 3 and rank: continue
                @suite.case(f'{d}-d, xy={xy}, stacked={stacked}, outputs={outs or "one"} of rank {rank}')
                def _(h, d=d, xy=xy, stacked=stacked, outs=outs, rank=rank):
                    ax = axes(h, d)
                    g = h.mod(GR).GridMd(*[e for e, _ in ax])
                    fn = Fn(d, stacked, outs, rank)
                    kw = {}
                    if not xy: kw['xy_indexing'] = False
                    if not stacked: kw['stack_input'] = False
                    r = g.applied(fn, **kw)
                    h.prove('the function is evaluated once', z3.BoolVal(fn.calls == 1))
                    order = [1, 0, 2][:d] if xy and d > 1 else list(range(d))
                    vals = r.values if outs else [r.values]
                    h.prove('one table per output', z3.BoolVal(len(vals) == max(outs, 1)))
                    ix = [h.idx(n) for _, n in ax]
                    at_ = [ix[a] for a in order]
                    coords = [at(e, i) for (e, _), i in zip(ax, ix)]
                    for k, v in enumerate(vals):
                        h.shape(f'shape of output {k}', v, tuple(ax[a][1] for a in order) + tuple(fn.w[k]))
                        c = [h.idx(w) for w in fn.w[k]]
                        h.eq(f'output {k} at a location', at(v, *at_, *c), S(fn.F[k](*[C.toreal(S(C.lift(x))) for x in coords], *[x.e for x in c])))
                    h.prove('coordinates per axis', z3.BoolVal(len(r.locs) == d and len(r.locs_1d) == d))
                    for a, (e, n) in enumerate(ax):
                        h.shape(f'locations along axis {a}: shape', r.locs[a], tuple(ax[q][1] for q in order))
                        h.eq(f'location along axis {a}', at(r.locs[a], *at_), coords[a])
                        h.shape(f'axis {a}: shape', r.locs_1d[a], (n,))
                        h.eq(f'axis {a}', at(r.locs_1d[a], ix[a]), coords[a])


@suite.case('positions outside an integer-valued function')
def _(h):
    ax = axes(h, 2)
    g = h.mod(GR).GridMd(*[e for e, _ in ax])
    r = g.applied(lambda X: X[:, 0] + 2 * X[:, 1])
    i, j = h.idx(ax[0][1]), h.idx(ax[1][1])
    h.eq('value', at(r.values, j, i), at(ax[0][0], i) + 2 * at(ax[1][0], j))


for d in (1, 2):
    @suite.case(f'grids by slices: numbers of points ({d}-d)')
    def _(h, d=d):
        G_ = h.mod(GR).GridMd
        lims = [(h.real(f'lo{a}'), h.real(f'hi{a}')) for a in range(d)]
        for lo, hi in lims: h.assume(lo < hi)
        ns = [4, 7][:d]
        sl = tuple(slice(lo, hi, complex(0, n)) for (lo, hi), n in zip(lims, ns))
        g = G_.at[sl if d > 1 else sl[0]]
        h.prove('a grid', z3.BoolVal(type(g) is G_ and g.n_dims == d))
        for a, ((lo, hi), n) in enumerate(zip(lims, ns)):
            e = g.locs_1d[a]
            h.shape(f'axis {a}: as many points', e, (S(z3.IntVal(n)),))
            for i in range(n): h.eq(f'axis {a}: point {i}', at(e, i), lo + (hi - lo) * i / (n - 1))


@suite.case('grids by given locations')
def _(h):
    ax = axes(h, 2)
    G_ = h.mod(GR).GridMd
    g = G_.at[ax[0][0], ax[1][0]]
    i, j = h.idx(ax[0][1]), h.idx(ax[1][1])
    h.eq('first axis', at(g.locs_1d[0], i), at(ax[0][0], i)); h.eq('second axis', at(g.locs_1d[1], j), at(ax[1][0], j))
    h.independent('own storage', g.locs_1d[0], ax[0][0])
    one = G_.at[ax[0][0]]
    h.prove('one axis', z3.BoolVal(one.n_dims == 1))
    h.eq('its locations', at(one.locs_1d[0], i), at(ax[0][0], i))


for given in ('number', 'numbers', 'default'):
    for p in (None, (.1, .8)):
        @suite.case(f'grids over the range of data ({given}, quantiles={p})')
        def _(h, given=given, p=p):
            np = h.ld.models['numpy']
            n, m = h.size('n', lo=1), h.size('m', lo=1)
            xs = [h.array('x', n), h.array('y', m)]
            a, c = h.int('a', lo=2), h.int('c', lo=2)
            kw = {} if p is None else dict(p_lo=p[0], p_hi=p[1])
            if given == 'number': kw['n'] = a; want = (a, a)
            elif given == 'numbers': kw['n'] = (a, c); want = (a, c)
            else: want = (32, 32)
            g = h.mod(GR).GridMd.from_data_range(*xs, **kw)
            h.prove('one axis per variable', z3.BoolVal(g.n_dims == 2))
            for k, (x, w) in enumerate(zip(xs, want)):
                q = np.quantile(x, p or (0., 1.))
                lo, hi = at(q, 0), at(q, 1)
                e = g.locs_1d[k]
                w = S(C.lift(w))
                h.shape(f'axis {k}: points', e, (w,))
                i = h.idx(w)
                h.eq(f'axis {k}: equally spaced from quantile to quantile', at(e, i) * S(C.toreal(w - 1)), lo * S(C.toreal(w - 1)) + (hi - lo) * S(C.toreal(i)))
