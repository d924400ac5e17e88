"""Random numbers (stats/random.py Rng, _Rng).

numpy's Generator is an assumed contract: every method returns draws of the requested shape, from the requested distribution, that depend on
the generator's state and the arguments only; uniform(low, high) lies in [low, high)."""
from ..harness import *
from .. import arr as A, npm
suite = Suite()
RN = 'stats.random'
SIZES = ('none', 'n', 'nm')
cosF, sinF = C.cosF, C.sinF


class Gen:
    """numpy.random.Generator: records what is asked and what it returns"""
    made = []

    def __init__(self, seed=None):
        self.seed, self.calls = seed, []
        Gen.made.append(self)

    def draw(self, name, args, size, rng=None):
        npm.trust(f'numpy Generator.{name}: draws of the requested shape and parameters')
        if size is None: shape = ()
        else: shape = tuple(size) if isinstance(size, (tuple, list)) else (size,)
        lo_hi = rng
        if size is None:
            v = S(z3.Real(CTX.fresh_name(name)))
            if lo_hi: CTX.assume(z3.And(v.e >= C.toreal(S(C.lift(lo_hi[0]))), v.e < C.toreal(S(C.lift(lo_hi[1])))))
        else:
            f = z3.Function(CTX.fresh_name(name), *[I] * len(shape), R)
            if lo_hi: C.add_templ(f, lambda t: [t >= C.toreal(S(C.lift(lo_hi[0]))), t < C.toreal(S(C.lift(lo_hi[1])))])
            v = A.new_arr(tuple(A.dim(S(C.lift(s))) for s in shape), 'f8', lambda ix: f(*ix))
        self.calls.append((name, args, size, v))
        return v

    def random(self, size=None, dtype=None, out=None): return self.draw('random', (), size, (0., 1.))
    def uniform(self, low=0.0, high=1.0, size=None): return self.draw('uniform', (low, high), size, (low, high))
    def standard_normal(self, size=None, dtype=None, out=None): return self.draw('standard_normal', (), size)
    def normal(self, loc=0.0, scale=1.0, size=None): return self.draw('normal', (loc, scale), size)
    def choice(self, a, size=None, replace=True, p=None, axis=0, shuffle=True): return self.draw('choice', (a, replace, p, axis, shuffle), size)

    def permutation(self, x, axis=0):
        npm.trust('numpy Generator.permutation: a permuted copy')
        out = A.new_arr(x._shape, x.dt, x.snap()) if isinstance(x, A.SArr) else object()
        self.calls.append(('permutation', (x, axis), None, out))
        return out

    def shuffle(self, x, axis=0):
        npm.trust('numpy Generator.shuffle: permutes its argument in place')
        self.calls.append(('shuffle', (x, axis), None, None))


def setup(h):
    np = h.ld.models['numpy']
    np.random.Generator, np.random.default_rng = Gen, Gen
    m = h.mod(RN)
    Gen.made = []
    return m


def source(h, cls):
    m = setup(h)
    g = Gen(1)
    return (m.Rng(g) if cls == 'Rng' else m._Rng(g)), g


def size_of(h, which): return {'none': lambda: None, 'n': lambda: h.int('n', lo=0), 'nm': lambda: (h.int('n', lo=0), h.int('m', lo=0))}[which]()
def shape_of(s): return () if s is None else tuple(s) if isinstance(s, tuple) else (s,)


def same(h, lab, got, want, size):
    sh = shape_of(size)
    if not sh: h.eq(lab, got, want); return
    h.shape(f'{lab}: shape', got, sh)
    i = [h.idx(d) for d in sh]
    h.eq(lab, at(got, *i), at(want, *i))


def eqv(a, c):
    if a is c: return z3.BoolVal(True)
    if isinstance(a, (S, int, float)) and isinstance(c, (S, int, float)) and not isinstance(a, bool):
        return C.toreal(S(C.lift(a))) == C.toreal(S(C.lift(c)))
    if isinstance(a, tuple) and isinstance(c, tuple) and len(a) == len(c): return z3.And(*[eqv(x, y) for x, y in zip(a, c)]) if a else z3.BoolVal(True)
    return z3.BoolVal(a == c) if type(a) is type(c) else z3.BoolVal(False)


def one_call(h, g, name, args, size):
    h.prove('drawn once', z3.BoolVal(len(g.calls) == 1 and g.calls[0][0] == name))
    for k, (a, c) in enumerate(zip(g.calls[0][1], args)): h.prove(f'parameter {k}', eqv(a, c))
    h.prove('number of draws', eqv(shape_of(g.calls[0][2]), shape_of(size)))
    return g.calls[0][3]


for cls in ('Rng', '_Rng'):
    for which in SIZES:
        @suite.case(f'{cls}: plain draws (size={which})')
        def _(h, cls=cls, which=which):
            size = size_of(h, which)
            lo, hi, sc = h.real('lo'), h.real('hi'), h.real('scale', gt=0)
            h.assume(lo < hi)
            for nm, args in (('random', ()), ('uniform', (lo, hi)), ('uniform', ()), ('standard_normal', ()), ('normal', (lo, sc)), ('normal', ())):
                r, g = source(h, cls)
                got = getattr(r, nm)(*args, size=size)
                want = args or dict(uniform=(0., 1.), normal=(0., 1.)).get(nm, ())
                same(h, f'{nm}{len(args)}: the draws', got, one_call(h, g, nm, want, size), size)


@suite.case('default sizes: one number')
def _(h):
    for cls in ('Rng', '_Rng'):
        for nm in ('random', 'uniform', 'standard_normal', 'normal'):
            r, g = source(h, cls)
            h.eq(f'{cls}.{nm}', getattr(r, nm)(), g.calls[0][3] if g.calls else 0)
            one_call(h, g, nm, (), None)


for which in SIZES:
    for given in (True, False):
        @suite.case(f'log-normal draws (size={which}, parameters given={given})')
        def _(h, which=which, given=given):
            size = size_of(h, which)
            r, g = source(h, '_Rng')
            mu, sd = (h.real('mu'), h.real('sd', gt=0)) if given else (0., 1.)
            got = r.lg_normal(mu, sd, size) if given else r.lg_normal(size=size)
            x = one_call(h, g, 'normal', (mu, sd), size)
            sh = shape_of(size)
            if sh:
                h.shape('shape', got, sh)
                i = [h.idx(d) for d in sh]
                got, x = at(got, *i), at(x, *i)
            h.eq('ten to the normal draw', got, 10. ** x)


def directions(h, g, size):
    """the two uniform draws"""
    h.prove('two draws', z3.BoolVal(len(g.calls) == 2 and all(c[0] == 'uniform' for c in g.calls)))
    c, p = g.calls if z3.is_true(z3.simplify(eqv(g.calls[0][1], (-1., 1.)))) else reversed(g.calls)
    h.prove('cosine in [-1, 1)', eqv(c[1], (-1., 1.)))
    h.eq('azimuth from 0', p[1][0], 0.); h.eq('azimuth to a full turn', p[1][1], S(2 * C.PI))
    for q in (c, p): h.prove('number of draws', eqv(shape_of(q[2]), shape_of(size)))
    sh = shape_of(size)
    i = [h.idx(d) for d in sh]
    u, phi = (at(c[3], *i), at(p[3], *i)) if sh else (c[3], p[3])
    return i, u, phi


def parts(h, lab, o, stack, k, sh):
    """component functions of a result"""
    if stack:
        h.shape(f'{lab}: shape', o, sh + (S(z3.IntVal(k)),))
        return lambda i: [at(o, *i, q) for q in range(k)]
    h.prove(f'{lab}: components', z3.BoolVal(isinstance(o, tuple) and len(o) == k))
    for q in range(k):
        if sh: h.shape(f'{lab}: shape of component {q}', o[q], sh)
    return lambda i: [at(v, *i) if i else v for v in o]


for which in SIZES:
    for stack in (True, False):
        @suite.case(f'directions on the sphere (size={which}, stacked={stack})')
        def _(h, which=which, stack=stack):
            size = size_of(h, which)
            sh = shape_of(size)
            r, g = source(h, 'Rng')
            o = r.uniform_sphere(size) if stack else r.uniform_sphere(size, stack=False)
            get = parts(h, 'vectors', o, stack, 3, sh)
            i, u, phi = directions(h, g, size)
            x, y, z = get(i)
            s = S(C.m_sqrt(1 - u * u).e)
            h.eq('height is the uniform draw', z, u)
            h.prove('unit length', x * x + y * y + z * z == 1)
            h.eq('x', x, s * S(cosF(C.toreal(phi)))); h.eq('y', y, s * S(sinF(C.toreal(phi))))
            r, g = source(h, 'Rng')
            o = r.uniform_sphere(size, stack=stack, cartesian=False)
            get = parts(h, 'angles', o, stack, 2, sh)
            i, u, phi = directions(h, g, size)
            th, ph = get(i)
            h.eq('cosine of the polar angle is the uniform draw', S(cosF(C.toreal(th))), u)
            h.prove('polar angle from 0 to half a turn', conj(th >= 0, th <= h.ld.models['numpy'].pi))
            h.eq('azimuth', ph, phi)

        @suite.case(f'directions on the circle (size={which}, stacked={stack})')
        def _(h, which=which, stack=stack):
            size = size_of(h, which)
            sh = shape_of(size)
            r, g = source(h, 'Rng')
            o = r.uniform_circle(size) if stack else r.uniform_circle(size, stack=False)
            get = parts(h, 'vectors', o, stack, 2, sh)
            t = one_call(h, g, 'uniform', (0., 2 * h.ld.models['numpy'].pi), size)
            i = [h.idx(d) for d in sh]
            x, y = get(i)
            t = at(t, *i) if i else t
            h.eq('x', x, S(cosF(C.toreal(t)))); h.eq('y', y, S(sinF(C.toreal(t))))
            r, g = source(h, 'Rng')
            same(h, 'angle', r.uniform_circle(size, cartesian=False), one_call(h, g, 'uniform', (0., 2 * h.ld.models['numpy'].pi), size) if g.calls else 0, size)

    @suite.case(f'compiled source: directions on the sphere (size={which})')
    def _(h, which=which):
        size = size_of(h, which)
        sh = shape_of(size)
        r, g = source(h, '_Rng')
        o = r.uniform_sphere_cart(size)
        get = parts(h, 'vectors', o, False, 3, sh)
        i, u, phi = directions(h, g, size)
        x, y, z = get(i)
        s = S(C.m_sqrt(1 - u * u).e)
        h.eq('height is the uniform draw', z, u)
        h.prove('unit length', x * x + y * y + z * z == 1)
        h.eq('x', x, s * S(cosF(C.toreal(phi)))); h.eq('y', y, s * S(sinF(C.toreal(phi))))
        r, g = source(h, '_Rng')
        o = r.uniform_sphere_polar(size)
        get = parts(h, 'angles', o, False, 2, sh)
        i, u, phi = directions(h, g, size)
        th, ph = get(i)
        h.eq('cosine of the polar angle is the uniform draw', S(cosF(C.toreal(th))), u)
        h.eq('azimuth', ph, phi)


@suite.case('choice, permutation and shuffling are those of the source')
def _(h):
    n, m = h.size('n', lo=1), h.size('m')
    p = h.array('p', n)
    for a in (n, h.array('a', n)):
        r, g = source(h, 'Rng')
        same(h, 'choice', r.choice(a, size=m), one_call(h, g, 'choice', (a, True, None, 0, True), m), m)
        r, g = source(h, 'Rng')
        same(h, 'choice with options', r.choice(a, m, False, p, 1, False), one_call(h, g, 'choice', (a, False, p, 1, False), m), m)
    x = h.array('x', (n, m))
    for ax in (0, 1):
        r, g = source(h, 'Rng')
        o = r.permutation(x, axis=ax) if ax else r.permutation(x)
        h.prove('permutation', z3.BoolVal(len(g.calls) == 1 and g.calls[0][0] == 'permutation' and o is g.calls[0][3] and g.calls[0][1][0] is x and g.calls[0][1][1] == ax))
        r, g = source(h, 'Rng')
        o = r.shuffle(x, axis=ax) if ax else r.shuffle(x)
        h.prove('shuffled in place', z3.BoolVal(len(g.calls) == 1 and g.calls[0][0] == 'shuffle' and g.calls[0][1][0] is x and g.calls[0][1][1] == ax))


@suite.case('sources: seeds, generators and other random sources')
def _(h):
    m = setup(h)
    for seed in (0, 7, None):
        Gen.made = []
        r = m.Rng(seed)
        h.prove(f'seeded with {seed}', z3.BoolVal(len(Gen.made) == 1 and Gen.made[0].seed == seed))
        r.random()
        h.prove('draws from that generator', z3.BoolVal(len(Gen.made) == 1 and len(Gen.made[0].calls) == 1))
    Gen.made = []
    m.Rng()
    h.prove('seed zero by default', z3.BoolVal(len(Gen.made) == 1 and Gen.made[0].seed == 0))
    g = Gen(3)
    Gen.made = []
    a = m.Rng(g)
    c = m.Rng(a)
    a.random(); c.random()
    h.prove('a given source is shared', z3.BoolVal(not Gen.made and len(g.calls) == 2))
    for bad in (1.5, 'seed', (1, 2)): h.raises(f'refuses {bad!r}', AssertionError, lambda bad=bad: m.Rng(bad))
