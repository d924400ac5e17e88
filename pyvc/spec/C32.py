"""Binned number densities (astro/stats/lss.py BinnedVolumeDensity).

Bootstrap.resampled_call is used through its contract (proved under C19): every resample draws rows of the given data set, the same rows for
every column, and calls the statistic with those columns and the fixed arguments.  The histogram is the one of Hist1D.from_overlapped_bins
(proved under C07), evaluated on the values and weights the property names."""
from ..harness import *
from .. import arr as A
suite = Suite()
LS, BN = 'astro.stats.lss', 'stats.binning'


class Call:
    """contract of Bootstrap.resampled_call for one resample of any number"""

    def __init__(self, h): self.h, self.n = h, 0

    def __call__(self, stats_fn, dsets_in, keys_out, stats_kw=None, n_resample=10, rng=0, keep_samples=False, dsets_max_sizes=None):
        CTX.used_contracts.add('stats.sampling:Bootstrap.resampled_call')
        self.n += 1
        h = self.h
        dsets = list(dsets_in)
        self.keys, self.n_resample, self.rng, self.keep, self.max = tuple(keys_out), n_resample, rng, keep_samples, dsets_max_sizes
        kw = {}
        self.rows = []
        for d in dsets:
            ids, m = None, None
            for k, v in d.items():
                if ids is None:
                    m = v._shape[0]
                    ids = z3.Function(CTX.fresh_name('drawn'), I, I)
                    C.add_templ(ids, lambda t, m=m: [z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < A.dz(m)), z3.And(t >= 0, t < A.dz(m)))])
                    self.rows.append(ids)
                else: CTX.side('columns of one length', A.dz(v._shape[0]) == A.dz(m))
                f = v.snap()
                kw[k] = A.new_arr((m,), v.dt, lambda ix, f=f, ids=ids: f((ids(ix[0]),)))
        self.m = m
        self.kw = dict(kw)
        if stats_kw is not None: kw.update(dict(stats_kw.items()))
        self.out = stats_fn(**kw)
        self.result = h.mod('core.containers.data_dict').DataDict({'result': 'of the resampling'})
        return self.result


class Noise:
    def __init__(self, h): self.h, self.seen = h, []

    def add_to(self, x, n_repeats=1):
        CTX.used_contracts.add('stats.sampling:RandomNoise.add_to')
        CTX.side('one repeat', S(C.lift(n_repeats)).e == 1)
        f = x.snap()
        d = z3.Function(CTX.fresh_name('noise'), I, R)
        y = A.new_arr(x._shape, 'f8', lambda ix: f(ix) + d(*ix))
        self.seen.append((x, y))
        return y


def spec(h, how):
    """bins, sub_bins and range arguments, and the expected refined bins and range"""
    B = h.mod(BN).Bin
    sub = h.int('sub', lo=1)
    if how == 'edges':
        m = h.size('m', lo=2)
        e = h.array('edges', m); h.ascending(e, strict=True)
        sub = 3
        fine = B.insert_sub_bins_into_edges(e, sub)
        return dict(bins=e, sub_bins=sub), fine, sub, None, (at(fine, 0), at(fine, (m - 1) * sub))
    nb = h.int('nb', lo=1)
    return dict(bins=nb, sub_bins=sub), nb * sub, sub, 'range', None


def same(h, lab, got, want):
    h.shape(f'{lab}: shape', got, want._shape)
    i = h.idx(S(A.dz(want._shape[0])))
    h.eq(f'{lab}: values', at(got, i), at(want, i))


def case(name, how, weighted, noisy=False, rng_spec='range'):
    @suite.case(f'{name} (bins={how}, weights={weighted}, noise={noisy}, range={rng_spec})', deadline=200)
    def _(h):
        L, M = h.mod(LS), h.mod(BN)
        n, V = h.size('n', lo=1), h.real('volume')
        h.assume(V > 0)
        x, w = h.array('x', n), h.array('w', n)
        x0, w0 = x.snap(), w.snap()
        kw, fine, sub, need, span = spec(h, how)
        if need:
            lo, hi = h.real('lo'), h.real('hi'); h.assume(lo < hi)
            if rng_spec == 'range': kw['range'] = (lo, hi)
            if rng_spec == 'both': kw['range'], kw['p_range'] = (lo, hi), (.1, .9)
            span = M.Bin.parse_p_range_spec(x, kw.get('range'), kw.get('p_range'))
            h.assume(S(C.lift(span[0])) < S(C.lift(span[1])))
        if weighted: kw['weights'] = w
        nz = Noise(h) if noisy else None
        if noisy: kw['noise'] = nz
        pad = h.real('pad', gt=0)
        if weighted: kw['policy'] = L.BinnedVolumeDensity.Policy(lg_y_pad=pad)
        nr = h.int('n_resample', lo=1)
        call = Call(h)
        h.replace(LS, 'Bootstrap', type('Bootstrap', (), dict(resampled_call=staticmethod(call))))
        got = L.BinnedVolumeDensity.from_raw(x, volume=V, n_bootstrap=nr, rng=17, **kw)
        h.prove('what the resampling returns', z3.BoolVal(call.n == 1 and got is call.result))
        h.eq('resamples', call.n_resample, nr)
        h.prove('random source and sizes', z3.BoolVal(call.rng == 17 and call.max is None and bool(call.keep)))
        h.prove('summarised outputs', z3.BoolVal(sorted(call.keys) == ['h', 'lg_y', 'y']))
        h.prove('one data set of values and weights', z3.BoolVal(len(call.rows) == 1))
        # the rows drawn from: those inside the range
        a, b_ = span
        sel = (x >= a) & (x < b_)
        xs, ws = x[sel], w[sel]
        ids, m = call.rows[0], call.m
        h.eq('drawn from the samples inside the range', S(A.dz(m)), S(A.dz(xs._shape[0])))
        f, g = xs.snap(), ws.snap()
        rx = A.new_arr((m,), 'f8', lambda ix: f((ids(ix[0]),)))
        rw = A.new_arr((m,), 'f8', lambda ix: g((ids(ix[0]),)))
        if noisy:
            h.prove('noise is added once', z3.BoolVal(len(nz.seen) == 1))
            same(h, 'noise is added to the drawn values', nz.seen[0][0], rx)
            rx = nz.seen[0][1]
        want = M.Hist1D.from_overlapped_bins(rx, fine, sub, span if need else None, rw if weighted else None)
        out = call.out
        for k in ('x', 'dx', 'sub_e', 'h'): same(h, {'x': 'centers', 'dx': 'widths', 'sub_e': 'refined edges', 'h': 'contents'}[k], out[k], want[k])
        nb = want['h']._shape[0]
        h.shape('y: shape', out['y'], (S(A.dz(nb)),)); h.shape('lg_y: shape', out['lg_y'], (S(A.dz(nb)),))
        j = h.idx(S(A.dz(nb)))
        y = at(want['h'], j) / (V * at(want['dx'], j))
        h.eq('content per volume and width', at(out['y'], j), y)
        p = pad if weighted else 1.0e-8
        h.eq('logarithm of the padded density', at(out['lg_y'], j), S(C.log10F(C.toreal(S(ite(y < p, S(C.lift(p)), y).e)))))
        h.unchanged('samples unchanged', x, x0); h.unchanged('weights unchanged', w, w0)


case('density', 'number', False)
case('density', 'number', True)
case('density', 'number', True, True)
case('density', 'number', False, False, 'data')
case('density', 'number', False, False, 'both')
case('density', 'edges', True, False, None)
case('density', 'edges', False, True, None)


@suite.case('bad specifications are refused')
def _(h):
    L = h.mod(LS)
    x = h.array('x', h.size('n', lo=1))
    e = h.array('edges', h.size('m', lo=2)); h.ascending(e, strict=True)
    lo, hi = h.real('lo'), h.real('hi'); h.assume(lo < hi)
    h.replace(LS, 'Bootstrap', type('Bootstrap', (), dict(resampled_call=staticmethod(Call(h)))))
    h.raises('a range beside edges', AssertionError, lambda: L.BinnedVolumeDensity.from_raw(x, bins=e, range=(lo, hi)))
    h.raises('no refinement factor', AssertionError, lambda: L.BinnedVolumeDensity.from_raw(x, bins=5, sub_bins=0, range=(lo, hi)))
