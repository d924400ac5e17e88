"""C19: bootstrap and noise (stats/sampling.py, stats/stacking.py).

Data sets, columns, fixed arguments and requested outputs are arbitrary in number and names (maps with arbitrary contents; names are
opaque).  numpy's Generator is an assumed contract: choice(n, size) yields that many row numbers of 0..n-1, standard_normal(size)
yields that many draws; which numbers is left open."""
from collections.abc import Mapping
from ..harness import *
from .. import arr as A, loops as L, npm, ghost as G
from ..ghost import GhostMap, Name, NameS
from ..arr import mk_sum, dz, dim
suite = Suite()
SM = 'stats.sampling'
MAXN = 2 ** 60


class Gen:
    """numpy.random.Generator"""
    made = []

    def __init__(self, seed=None):
        self.seed = seed
        self.calls = []
        Gen.made.append(self)

    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True):
        npm.trust('numpy Generator.choice(n, size): that many integers of 0..n-1')
        if isinstance(a, A.SArr): raise Unsupported('choice among array elements')
        CTX.side('rows are drawn with replacement and equal weights', z3.BoolVal(replace is True and p is None))
        n, m = C.toint(S(C.lift(a))), C.toint(S(C.lift(size)))
        CTX.side('something to draw from', z3.Or(n > 0, m == 0))
        vs = [l.i for l in CTX.loop_stack]
        f = z3.Function(CTX.fresh_name('chosen'), *[I] * (len(vs) + 1), I)
        guard = z3.BoolVal(True)
        def t(app):
            sub = list(zip(vs, app.children()[:-1]))
            nn, mm = (z3.substitute(n, *sub), z3.substitute(m, *sub)) if sub else (n, m)
            x = app.children()[-1]
            return [z3.Implies(z3.And(x >= 0, x < mm, nn > 0), z3.And(app >= 0, app < nn))]
        C.add_templ(f, t)
        self.calls.append((f, tuple(l for l in CTX.loop_stack), n, m))
        return A.new_arr((dim(S(m)),), 'i8', lambda ix: f(*vs, ix[0]))

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)

    def standard_normal(self, size=None, dtype=None, out=None):
        npm.trust('numpy Generator.standard_normal(size): that many standard normal draws')
        if CTX.loop_depth > 0: raise Unsupported('draws in a symbolic loop')
        if size is None: size = ()
        if not isinstance(size, tuple): size = (size,)
        shape = tuple(dim(S(C.lift(s))) for s in size)
        z = A.sym_array('normal', shape, 'f8')
        self.calls.append((z, shape))
        return z


def setup(h):
    np = h.ld.models['numpy']
    Gen.made = []
    np.random.Generator, np.random.default_rng = Gen, Gen
    m = h.mod(SM)
    Gen.made = []
    CTX.ghost_dicts = True
    return m


def datasets(h, rank=1):
    nd = h.size('nd')
    F = lambda nm, *a: z3.Function(CTX.fresh_name(nm), *a)
    ncol, rows = F('ncol', I, I), F('rows', I, I)
    col = F('col', I, I, NameS)
    val = F('val', *[I] * (2 + rank), R)
    wid = F('width', I, I, I)
    for f in (ncol, rows, wid): C.add_templ(f, lambda t: [t >= 0])
    owner, place = F('owner', NameS, I), F('place', NameS, I)
    C.add_templ(col, lambda t: [z3.Not(G.slashF(t)), owner(t) == t.arg(0), place(t) == t.arg(1)])

    def dset(i):
        column = lambda j: A.new_arr((rows(i),) + ((wid(i, j),) if rank == 2 else ()), 'f8', lambda ix: val(i, j, *ix))
        def P(k): return z3.And(owner(k) == i, place(k) >= 0, place(k) < ncol(i), col(i, place(k)) == k)
        return GhostMap('dset', P=P, V=lambda k: column(place(k)), seq=(ncol(i), lambda j: Name(col(i, j)), lambda j: column(j)))
    i = CTX.index_var('ds')
    ds = L.MList([L.Seg(nd.e, i, dset(i))])
    return nd, ncol, rows, col, val, wid, ds


class Once:
    """an iterator: what it yields can be read once"""

    def __init__(self, seq): self.seq, self.used = seq, False
    def __pv_symiter__(self):
        CTX.side('an iterator is read once', z3.BoolVal(not self.used and CTX.loop_depth == 0))
        self.used = True
        return L.as_iter(self.seq)


class Stat:
    """the caller's statistic: any function; its outputs for resample b are out(b, name, index)"""

    def __init__(self, h, rank, check):
        self.out = z3.Function('out', *[I], NameS, *[I] * rank, R)
        self.no = z3.Int('n_outputs')
        CTX.assume(self.no >= 0)
        self.oname = z3.Function('out_name', I, NameS)
        self.dimf = z3.Function('out_len', NameS, I)
        C.add_templ(self.dimf, lambda t: [t >= 0])
        self.oplace = z3.Function('out_place', NameS, I)
        C.add_templ(self.oname, lambda t: [z3.Not(G.slashF(t)), self.oplace(t) == t.arg(0)])
        self.rank, self.check = rank, check
        self.calls = 0

    def value(self, b_, k):
        return A.new_arr((self.dimf(k),) * self.rank, 'f8', lambda ix: self.out(b_, k, *ix)) if self.rank else S(self.out(b_, k))

    def has(self, k): return z3.And(self.oplace(k) >= 0, self.oplace(k) < self.no, self.oname(self.oplace(k)) == k)

    def __call__(self, **kw):
        b_ = CTX.loop_stack[-1].i if CTX.loop_stack else z3.IntVal(0)
        if len(CTX.loop_stack) != 1: raise Unsupported('statistic called outside the resampling loop')
        kw = dict(kw)
        m = kw.pop('__pv_kw__', None)
        if m is None: m = GhostMap.empty('kw')
        elif kw: m = m.copy()
        for k_, v_ in kw.items(): m[k_] = v_
        self.calls += 1
        self.check(m, b_)
        return GhostMap('stat', P=lambda k: self.has(k), V=lambda k: self.value(b_, k),
                        seq=(self.no, lambda q: Name(self.oname(q)), lambda q: self.value(b_, self.oname(q))))


def same(v, w):
    """equality at a generic index, as one formula"""
    v, w = A.asarr(v), A.asarr(w)
    if v.ndim != w.ndim: return z3.BoolVal(False)
    ix = []
    shp = [dz(x) == dz(y) for x, y in zip(v._shape, w._shape)]
    n = CTX.push()
    for d in w._shape:
        j = z3.Int(CTX.fresh_name('gx'))
        ix.append((j, d))
    CTX.pop(n)
    rng = z3.And(*[z3.And(j >= 0, j < dz(d)) for j, d in ix])
    js = [j for j, _ in ix]
    a, c = v.at(*js), w.at(*js)
    if a.sort() != c.sort(): a, c = C.toreal(S(a)), C.toreal(S(c))
    return z3.And(*shp, z3.Implies(rng, a == c))


def entry(m, k, want):
    """the entry k of m is exactly want"""
    fs = [m.has(k)]
    for cond, v in m.alternatives(k):
        n = CTX.push()
        CTX.assume(cond, True)
        if callable(v) and not isinstance(v, A.SArr):
            v = v() if CTX.feasible(cond) else None
        CTX.pop(n)
        if v is None: fs.append(z3.Not(cond)); continue
        fs.append(z3.Implies(cond, same(v, want)))
    return z3.And(*fs)


def resampling(name, rank, kw_args, sizes, once=False):
    @suite.case(f'each resample: {name}', deadline=400)
    def _(h):
        M = setup(h)
        nd, ncol, rows, col, val, wid, ds = datasets(h, rank)
        C.add_templ(rows, lambda t: [t >= 1])
        nb = h.size('n_resample', lo=1)
        if kw_args:
            nk = h.size('n_kw'); kwname = z3.Function('kw_name', I, NameS); kwval = z3.Function('kw_val', I, R); kwplace = z3.Function('kw_place', NameS, I)
            C.add_templ(kwname, lambda t: [z3.Not(G.slashF(t)), kwplace(t) == t.arg(0)])
            kwhas = lambda k: z3.And(kwplace(k) >= 0, kwplace(k) < nk.e, kwname(kwplace(k)) == k)
            kw = GhostMap('kw', P=kwhas, V=lambda k: S(kwval(kwplace(k))), seq=(nk.e, lambda q: Name(kwname(q)), lambda q: S(kwval(q))))
        else:
            kw, kwhas = None, lambda k: z3.BoolVal(False)
        if sizes:
            mx = z3.Function('max_size', I, I)
            C.add_templ(mx, lambda t: [t >= 0])
            si = CTX.index_var('sz')
            ms = L.MList([L.Seg(nd.e, si, S(mx(si)))])
            size = lambda i: z3.If(rows(i) < mx(i), rows(i), mx(i))
        else:
            ms, size = None, lambda i: rows(i)
            C.add_templ(rows, lambda t: [t <= MAXN])
        i, j, q = h.idx(nd, 'i'), h.int('j', lo=0), h.int('q', lo=0)
        CTX.elem_hints += [j.e, q.e]
        h.assume(j < S(ncol(i.e)))
        if kw_args: h.assume(q < nk)
        stranger = z3.Const('stranger', NameS)
        C.add_templ(col, lambda t: [t != stranger])
        if kw_args: CTX.elem_hints.append(kwplace(stranger))

        def check(m, b_):
            g = Gen.made[0]
            if not g.calls: raise Unsupported('no draw')
            k = col(i.e, j.e)
            fs = {}
            calls = [c for c in g.calls if len(c[1]) == 2]
            # the draw of this execution for data set i: one function of (resample, data set, position)
            f, loops, n, m_ = calls[-1]
            def ids(t): return f(b_, i.e, t)
            CTX.side('rows are drawn among all rows of the data set', z3.substitute(n, (loops[1].i, i.e)) == rows(i.e))
            CTX.side('as many as the data set or its size limit has', z3.substitute(m_, (loops[1].i, i.e)) == size(i.e))
            want = A.new_arr((size(i.e),) + ((wid(i.e, j.e),) if rank == 2 else ()), 'f8', lambda ix: val(i.e, j.e, ids(ix[0]), *ix[1:]))
            CTX.side('every column arrives with the rows drawn for its data set', z3.Implies(z3.Not(kwhas(k)), entry(m, k, want)))
            if kw_args:
                e = kwname(q.e)
                CTX.side('every fixed argument arrives', entry(m, e, S(kwval(q.e))))
            CTX.side('nothing else arrives', m.has(stranger) == kwhas(stranger))
        st = Stat(h, 1, check)
        args = dict(stats_kw=kw, n_resample=nb, dsets_max_sizes=Once(ms) if once and ms is not None else ms, rng=h.int('seed'))
        out = M.Bootstrap.resampled_call(st, Once(ds) if once else ds, [], **args)
        h.prove('the statistic was called', z3.BoolVal(st.calls >= 1))
        h.prove('one generator, made from the seed', z3.BoolVal(len(Gen.made) == 1))
        h.eq('the given seed', Gen.made[0].seed, args['rng'])



resampling('columns only', 1, False, False)
resampling('two-dimensional columns', 2, False, False)
resampling('fixed arguments', 1, True, False)
resampling('size limits', 1, False, True)
resampling('iterators for the data sets and size limits', 1, False, True, once=True)


def summary(name, rank, keep, once=False):
    @suite.case(f'summary of the resamples: {name}', deadline=400)
    def _(h):
        M = setup(h)
        ds = []              # what goes into the statistic is the matter of the cases above
        nb = h.size('n_resample', lo=1)
        st = Stat(h, rank, lambda m, b_: None)
        # requested outputs: any list of different names the statistic reports
        nk = h.size('n_keys')
        req = z3.Function('requested', I, NameS); rplace = z3.Function('requested_place', NameS, I)
        q = h.idx(nk, 'q')
        sdname = lambda k: G.cat([Name(k), '_sd']).e
        smpname = lambda k: G.cat([Name(k), '_samples']).e
        # names of summaries differ from the names of outputs (there would be two meanings for one name)
        derived = z3.Function('derived', NameS, B)
        kind = z3.Function('kind', NameS, I)
        C.add_templ(req, lambda t: [z3.Not(G.slashF(t)), rplace(t) == t.arg(0), kind(t) == 0,
                                    z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < nk.e), st.has(t))])
        C.add_templ(st.oname, lambda t: [kind(t) == 0])
        for f_, n_ in ((sdname, 1), (smpname, 2)):
            C.add_templ(f_(z3.Const('probe', NameS)).decl(), lambda t, n_=n_: [kind(t) == n_])
        ki = CTX.index_var('rk')
        keys = L.MList([L.Seg(nk.e, ki, Name(req(ki)))])
        k = req(q.e)
        other = z3.Const('other', NameS)         # an output that was not requested
        CTX.assume(kind(other) == 0); CTX.assume(z3.Not(G.slashF(other)))
        C.add_templ(req, lambda t: [z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < nk.e), t != other)])
        CTX.elem_hints += [st.oplace(other), st.oplace(k)]
        out = M.Bootstrap.resampled_call(st, ds, Once(keys) if once else keys, n_resample=nb, keep_samples=keep, rng=h.int('seed'))
        m = out._dict
        ix = [h.idx(S(st.dimf(k)), f'x{a}') for a in range(rank)]
        N_ = nb.e
        tot = S(mk_sum(lambda b_: st.out(b_, k, *[x.e for x in ix]), N_, R))
        mean = tot / S(z3.ToReal(N_))
        def dev(b_): return S(st.out(b_, k, *[x.e for x in ix])) - mean
        sd = C.m_sqrt(S(mk_sum(lambda b_: (dev(b_) * dev(b_)).e, N_, R)) / S(z3.ToReal(N_)))
        def pick(name, key, want, shape):
            h.prove(f'{name} is reported', m.has(key))
            for cond, v in m.alternatives(key):
                n0 = CTX.push()
                CTX.assume(cond, True)
                if CTX.feasible(z3.BoolVal(True)):
                    if not isinstance(v, (A.SArr, S)): v = v()
                    v = A.asarr(v)
                    h.shape(f'{name}: shape', v, shape)
                    if v.ndim == len(shape): h.eq(f'{name}: value', at(v, *want[1]), want[0])
                CTX.pop(n0)
        dims = tuple(S(st.dimf(k)) for _ in range(rank))
        pick('mean over the resamples', k, (mean, ix), dims)
        pick('standard deviation over the resamples', sdname(k), (sd, ix), dims)
        smp = smpname(k)
        if keep:
            bb = h.idx(nb, 'b')
            pick('samples', smp, (S(st.out(bb.e, k, *[x.e for x in ix])), [bb] + ix), (nb,) + dims)
        else:
            h.prove('samples only on request', z3.Not(m.has(smp)))
        h.prove('other outputs are passed through, nothing is invented', m.has(other) == st.has(other))
        n0 = CTX.push()
        CTX.assume(st.has(other))
        oix = [h.idx(S(st.dimf(other)), f'o{a}') for a in range(rank)]
        pick('another output', other, (S(st.out(z3.IntVal(0), other, *[x.e for x in oix])), oix), tuple(S(st.dimf(other)) for _ in range(rank)))
        CTX.pop(n0)


summary('numbers', 0, False)
summary('vectors', 1, False)
summary('vectors, with the samples', 1, True)
summary('matrices, with the samples, requested through an iterator', 2, True, once=True)


@suite.case('resampling from a given generator or random source')
def _(h):
    M = setup(h)
    nd, ncol, rows, col, val, wid, ds = datasets(h)
    C.add_templ(rows, lambda t: [t >= 1])
    g = Gen(3)
    R_ = M.Rng
    for src in (g, R_(g)):
        Gen.made = [g]
        st = Stat(h, 0, lambda m, b_: None)
        M.Bootstrap.resampled_call(st, ds, [], n_resample=h.size('nb', lo=1), rng=src)
        h.prove('draws come from it', z3.BoolVal(len(Gen.made) == 1 and len(g.calls) > 0))


@suite.case('numbers of data sets and size limits must agree')
def _(h):
    M = setup(h)
    nd, ncol, rows, col, val, wid, ds = datasets(h)
    C.add_templ(rows, lambda t: [t >= 1])
    nm = h.size('nm'); h.assume(nm != nd)
    si = CTX.index_var('sz')
    ms = L.MList([L.Seg(nm.e, si, S(z3.Function('mx', I, I)(si)))])
    st = Stat(h, 0, lambda m, b_: None)
    h.raises('refused', AssertionError, lambda: M.Bootstrap.resampled_call(st, ds, [], n_resample=h.size('nb', lo=1), dsets_max_sizes=ms))


for lg in (False, True):
    for rep in ('one', 'many', 'default'):
        @suite.case(f'noise{" in logarithm" if lg else ""}, repeats: {rep}')
        def _(h, lg=lg, rep=rep):
            M = setup(h)
            sg, n = h.real('sigma'), h.size('n')
            x = h.array('x', (n,)); x0 = x.snap()
            seed = h.int('seed')
            rn = M.RandomNoise(sg, noise_in_lg=lg, rng=seed)
            h.prove('one generator, made from the seed', z3.BoolVal(len(Gen.made) == 1))
            h.eq('the given seed', Gen.made[0].seed, seed)
            g = Gen.made[0]
            for call_ in range(2):
                k = 1 if rep != 'many' else h.size('repeats', lo=2)
                y = rn.add_to(x, *(() if rep == 'default' else (k,)))
                h.prove('one draw per call', z3.BoolVal(len(g.calls) == call_ + 1))
                z, zs = g.calls[-1]
                h.shape('its own draws for every repeat and value', z, (k, n))
                j = h.idx(n)
                if rep == 'many':
                    r_ = h.idx(k, 'r')
                    h.shape('one row per repeat', y, (k, n)); got, d = at(y, r_, j), at(z, r_, j)
                else:
                    h.shape('as many values', y, (n,)); got, d = at(y, j), at(z, 0, j)
                if lg: h.eq('multiplied by ten to the scaled draw', got, at(x, j) * C.m_pow(S(z3.RealVal(10)), sg * d))
                else: h.eq('plus the scaled draw', got, at(x, j) + sg * d)
                h.unchanged('values untouched', x, x0)
                h.independent('result owns its memory', y, x)


@suite.case('mean and standard deviation over the first axis')
def _(h):
    M = h.mod('stats.stacking')
    n, k = h.size('n', lo=1), h.size('k')
    for shp, ixn in (((n,), 0), ((n, k), 1), ((n, k, 2), 2)):
        x = h.array('x', shp); x0 = x.snap()
        mu, sd = M.Stack.mean_and_sd(x)
        ix = [h.idx(d if isinstance(d, S) else S(z3.IntVal(d)), 'a') for d in shp[1:]]
        v = lambda b_: S(x0((b_,) + tuple(i.e for i in ix)))
        nn = S(z3.ToReal(n.e))
        mean = S(mk_sum(lambda b_: v(b_).e, n.e, R)) / nn
        h.shape('one per column', A.asarr(mu), shp[1:]); h.shape('one per column', A.asarr(sd), shp[1:])
        h.eq('mean', at(A.asarr(mu), *ix), mean)
        h.eq('standard deviation', at(A.asarr(sd), *ix), C.m_sqrt(S(mk_sum(lambda b_: ((v(b_) - mean) * (v(b_) - mean)).e, n.e, R)) / nn))
        h.unchanged('values untouched', x, x0)
