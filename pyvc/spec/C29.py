"""Angle conversions and direction vectors (astro/coords/cvt.py, core/dataproc/frame.py)."""
from ..harness import *
from .. import arr as A, npm
suite = Suite()
CV, FR = 'astro.coords.cvt', 'core.dataproc.frame'


class Num_(str):
    """text of a number: float(text) is the given value"""
    def __new__(cls, v, t='?'):
        o = str.__new__(cls, t); o.v = v
        return o

    def __pv_float__(self): return self.v
    def strip(self, *a): return self


class Text(str):
    """text of fields separated by colons"""
    def __new__(cls, fields):
        o = str.__new__(cls, ':'.join(fields)); o.fields = fields
        return o

    def split(self, sep=None, *a):
        if sep != ':' or a: raise Unsupported('split')
        return list(self.fields)


def sexa(h, sign=None):
    d, m, s = h.real('d'), h.real('m', lo=0), h.real('s', lo=0)
    sb = S(npm.signbit1(d))            # the sign of the leading field, also of a zero
    mag = ite(d >= 0, d, -d)
    v = mag + m / 60 + s / 3600
    return (d, m, s), ite(sb, -v, v), sb


for fn, f in (('dms_to_deg', 1), ('hms_to_deg', 15)):
    for how in ('tuple', 'text'):
        @suite.case(f'{fn} from a {how}')
        def _(h, fn=fn, f=f, how=how):
            g = getattr(h.mod(CV), fn)
            (d, m, s), want, sb = sexa(h)
            arg = (d, m, s) if how == 'tuple' else Text([Num_(x) for x in (d, m, s)])
            h.eq('sign times (d + m/60 + s/3600)', g(arg), want * f)

    @suite.case(f'{fn}: integers and lists')
    def _(h, fn=fn, f=f):
        g = getattr(h.mod(CV), fn)
        d, m, s = h.int('d'), h.int('m', lo=0), h.int('s', lo=0)
        v = S(C.toreal(ite(d >= 0, d, -d))) + S(C.toreal(m)) / 60 + S(C.toreal(s)) / 3600
        for arg in ((d, m, s), [d, m, s]):
            h.eq('sign times (d + m/60 + s/3600)', g(arg), ite(d < 0, -v, v) * f)


# ------------------------------------------------------------------ unit vectors
def trig(x): return C.m_uf(C.sinF)(x), C.m_uf(C.cosF)(x)


for shape in ('scalar', 'array', 'table'):
    for stack in (None, True, False):
        @suite.case(f'polar angles ({shape}, stack={stack})')
        def _(h, shape=shape, stack=stack):
            P = h.mod(FR).Polar
            n, m = h.size('n'), h.size('m')
            sh = {'scalar': (), 'array': (n,), 'table': (n, m)}[shape]
            t, p = (h.real('t'), h.real('p')) if shape == 'scalar' else (h.array('t', sh), h.array('p', sh))
            ix = [h.idx(q) for q in sh]
            val = lambda a: a if shape == 'scalar' else at(a, *ix)
            kw = {} if stack is None else {'stack': stack}
            (st, ct), (sp, cp) = trig(val(t)), trig(val(p))
            o = P.unit_vec_to_cart(t, p, **kw)
            get = (lambda k: at(o, *ix, k)) if stack is not False else (lambda k: val(o[k]) if shape != 'scalar' else o[k])
            if stack is not False: h.shape('components last', o, tuple(sh) + (3,))
            for k, w in enumerate((st * cp, st * sp, ct)): h.eq('component ' + 'xyz'[k], get(k), w)
            h.prove('three components', len(o) == 3 if stack is False else True)
            o2 = P.unit_vec_to_cart_2d(t, **kw)
            get = (lambda k: at(o2, *ix, k)) if stack is not False else (lambda k: val(o2[k]) if shape != 'scalar' else o2[k])
            if stack is not False: h.shape('2-d components last', o2, tuple(sh) + (2,))
            for k, w in enumerate((ct, st)): h.eq('2-d component ' + 'xy'[k], get(k), w)
            if shape == 'scalar' and stack is not False:
                x, y, z, a, c, e, g = [h.real(q) for q in ('x', 'y', 'z', 'a', 'c', 'e', 'g')]
                h.assume(conj(a == st, c == ct, e == sp, g == cp))
                h.lemma('sine and cosine', conj(a * a + c * c == 1, e * e + g * g == 1))
                for v, k, w in ((x, 0, a * g), (y, 1, a * e), (z, 2, c)):
                    h.assume(v == get0(o, k)); h.lemma('component', v == w)
                h.derive('of unit length', [x == a * g, y == a * e, z == c, conj(a * a + c * c == 1, e * e + g * g == 1)], x * x + y * y + z * z == 1)


def get0(o, k): return at(o, k)


# ------------------------------------------------------------------ radial-tangential frame
def normalize_contract(log, lo0=1e-10):
    """Num.normalize on the last axis: proved for the real code under C03 (vectors longer than the floor: unit length, direction kept)"""
    def normalize(x, axis=-1, lo=lo0, inplace=False):
        CTX.used_contracts.add('core.dataproc.num:Num.normalize')
        if not isinstance(x, SArr) or x.ndim != 2 or axis not in (-1, 1) or x._shape[1] != 3: raise Unsupported('normalize call')
        if inplace: CTX.side('in-place normalisation needs a floating-point array', z3.BoolVal(x.k == 'r'))
        k = len(log)
        N = z3.Function(f'norm{k}', I, R)
        f = x.snap()
        us = [z3.Function(f'unit{k}_{c}', I, R) for c in range(3)]
        z = [z3.IntVal(c) for c in range(3)]

        def facts(t):
            p = t.arg(0)
            v = [C.toreal(S(f((p, c)))) for c in z]
            u = [g(p) for g in us]
            return [N(p) >= 0, N(p) * N(p) == v[0] * v[0] + v[1] * v[1] + v[2] * v[2]] + \
                [z3.Implies(N(p) >= C.toreal(lo), z3.And(u[0] * u[0] + u[1] * u[1] + u[2] * u[2] == 1, *[a * N(p) == w for a, w in zip(u, v)]))]
        C.add_templ(N, facts)
        log.append((N, us, f))
        r = A.new_arr(x._shape, 'f8', lambda ix: z3.If(ix[1] == 0, us[0](ix[0]), z3.If(ix[1] == 1, us[1](ix[0]), us[2](ix[0]))))
        if inplace:
            x[...] = r
            return x
        return r
    return normalize


def frame(h, dt, v_of, dtv='f8'):
    M = h.mod(FR)
    log = []
    M.Num.normalize = staticmethod(normalize_contract(log))
    n = h.size('n')
    x = h.array('x', (n, 3), dt); x0 = x.snap()
    p = h.idx(n)
    v = v_of(n)
    v0 = v.snap()
    o = M.Polar.rt_to_cart(x, v)
    h.shape('one vector per row', o, (n, 3)); h.unchanged('positions unchanged', x, x0); h.unchanged('vectors unchanged', v, v0)
    return log, x, v, o, p


for dt in ('f8', 'i8'):
    @suite.case(f'radial-tangential frame ({dt} positions)')
    def _(h, dt=dt):
        log, x, v, o, p = frame(h, dt, lambda n: h.array('v', (n, 3)))
        if not h.prove('three normalisations', len(log) == 3): return
        # real names for the row
        a = [h.real(f'a{k}') for k in range(3)]
        for k in range(3): h.assume(a[k] == S(C.toreal(at(x, p, k))))
        lo = 1e-10
        rho, r = h.real('rho', lo=0), h.real('r', lo=lo)
        h.assume(conj(rho * rho == a[0] * a[0] + a[1] * a[1], r * r == a[0] * a[0] + a[1] * a[1] + a[2] * a[2], rho >= lo * r))
        names = []
        for q, (N, us, f) in enumerate(log):
            nn = h.real(f'n{q}'); uu = [h.real(f'u{q}{k}') for k in range(3)]; ff = [h.real(f'f{q}{k}') for k in range(3)]
            h.assume(nn == S(N(p.e)))
            for k in range(3):
                h.assume(uu[k] == S(us[k](p.e))); h.assume(ff[k] == S(C.toreal(S(f((p.e, z3.IntVal(k)))))))
            h.lemma(f'length {q}', conj(nn >= 0, nn * nn == ff[0] * ff[0] + ff[1] * ff[1] + ff[2] * ff[2]))
            names.append((nn, uu, ff))
        (n0, z, f0), (n1, e1, f1), (n2, e2, f2) = names
        fl = lambda q: conj(names[q][0] >= 0, names[q][0] * names[q][0] == add([t * t for t in names[q][2]]))
        unit = lambda q: conj(add([t * t for t in names[q][1]]) == 1, *[t * names[q][0] == w for t, w in zip(names[q][1], names[q][2])])
        h.lemma('first: the position', conj(*[f0[k] == a[k] for k in range(3)]))
        pos = conj(*[f0[k] == a[k] for k in range(3)])
        R2 = [conj(rho * rho == a[0] * a[0] + a[1] * a[1], r * r == a[0] * a[0] + a[1] * a[1] + a[2] * a[2], rho >= lo * r), r >= lo, rho >= 0]
        h.derive('distance', [pos, fl(0), R2[0], r >= lo], n0 == r)
        h.lemma('longer than the floor', n0 >= lo)
        h.lemma('radial unit vector', unit(0))
        h.lemma('second: polar axis times radial', conj(f1[0] == -z[1], f1[1] == z[0], f1[2] == 0))
        sec = conj(f1[0] == -z[1], f1[1] == z[0], f1[2] == 0)
        h.derive('sine of the polar angle', [sec, fl(1), unit(0), pos, n0 == r] + R2, n1 * r == rho)
        h.derive('longer than the floor, too', [n1 * r == rho, R2[0], r >= lo], n1 >= lo)
        h.lemma('first tangential unit vector', unit(1))
        cr = [z[1] * e1[2] - z[2] * e1[1], z[2] * e1[0] - z[0] * e1[2], z[0] * e1[1] - z[1] * e1[0]]
        h.lemma('third: radial times tangential', conj(*[f2[k] == cr[k] for k in range(3)]))
        thr = conj(*[f2[k] == cr[k] for k in range(3)])
        dot = lambda u, w: add([s_ * t for s_, t in zip(u, w)])
        h.derive('orthogonal before scaling', [sec], dot(z, f1) == 0)
        h.derive('scaled', [unit(1), n1 >= lo, dot(z, f1) == 0], dot(z, e1) * n1 == 0)
        zd = h.real('zd'); h.assume(zd == dot(z, e1))
        h.derive('scaled ', [dot(z, e1) * n1 == 0, zd == dot(z, e1)], zd * n1 == 0)
        h.derive('radial and tangential are orthogonal', [zd * n1 == 0, n1 >= lo], zd == 0)
        h.derive('radial and tangential are orthogonal ', [zd == 0, zd == dot(z, e1)], dot(z, e1) == 0)
        h.derive('Lagrange', [thr], add([t * t for t in f2]) == dot(z, z) * dot(e1, e1) - dot(z, e1) * dot(z, e1))
        q1, q2, q3, q4 = [h.real(f'q{k}') for k in range(4)]
        h.assume(conj(q1 == dot(z, z), q2 == dot(e1, e1), q3 == dot(z, e1), q4 == add([t * t for t in f2])))
        h.lemma('inner products', conj(q1 == 1, q2 == 1, q3 == 0))
        h.derive('unit cross product', [conj(q1 == dot(z, z), q2 == dot(e1, e1), q3 == dot(z, e1), q4 == add([t * t for t in f2])), add([t * t for t in f2]) == dot(z, z) * dot(e1, e1) - dot(z, e1) * dot(z, e1)], q4 == q1 * q2 - q3 * q3)
        h.derive('already of unit length', [q4 == q1 * q2 - q3 * q3, conj(q1 == 1, q2 == 1, q3 == 0)], q4 == 1)
        h.lemma('square of its length', n2 * n2 == q4)
        h.derive('length one', [n2 * n2 == q4, q4 == 1, n2 >= 0], n2 == 1)
        h.lemma('above the floor', n2 >= lo)
        h.lemma('second tangential unit vector', unit(2))
        h.derive('second tangential is radial times first', [unit(2), n2 == 1, thr], conj(*[e2[k] == cr[k] for k in range(3)]))
        sect = conj(*[e2[k] == cr[k] for k in range(3)])
        h.derive('orthogonal to the radial axis', [sect], dot(z, e2) == 0)
        h.derive('orthogonal to the first tangential axis', [sect], dot(e1, e2) == 0)
        # conversion
        w = [h.real(f'v{k}') for k in range(3)]
        for k in range(3): h.assume(w[k] == at(v, p, k))
        oo = [h.real(f'o{k}') for k in range(3)]
        eqs = []
        for k in range(3):
            h.assume(oo[k] == at(o, p, k))
            g = oo[k] == e1[k] * w[0] + e2[k] * w[1] + z[k] * w[2]
            h.lemma(f'component {k} in the frame', g); eqs.append(g)
        # right-handed: first x second = radial
        xy = [e1[1] * e2[2] - e1[2] * e2[1], e1[2] * e2[0] - e1[0] * e2[2], e1[0] * e2[1] - e1[1] * e2[0]]
        for k in range(3):
            h.derive(f'expanded cross product {k}', [sect], xy[k] == z[k] * dot(e1, e1) - e1[k] * dot(z, e1))
            t1, t2, t3 = h.real(f't1{k}'), h.real(f't2{k}'), h.real(f't3{k}')
            dd = conj(q1 == dot(z, z), q2 == dot(e1, e1), q3 == dot(z, e1), q4 == add([t * t for t in f2]))
            h.assume(t1 == xy[k])
            h.derive('named', [t1 == xy[k], xy[k] == z[k] * dot(e1, e1) - e1[k] * dot(z, e1), dd], t1 == z[k] * q2 - e1[k] * q3)
            h.derive(f'right-handed: component {k} of first x second is that of the radial axis', [t1 == z[k] * q2 - e1[k] * q3, conj(q1 == 1, q2 == 1, q3 == 0)], t1 == z[k])
        for k in range(3):
            h.derive(f'radial axis along the position ({k})', [unit(0), pos, n0 == r], z[k] * r == a[k])
        # length: Gram expansion
        G = {}
        for nm, u, s_ in (('11', e1, e1), ('12', e1, e2), ('13', e1, z), ('22', e2, e2), ('23', e2, z), ('33', z, z)):
            g = h.real('g' + nm); h.assume(g == dot(u, s_)); G[nm] = g
            val = 1 if nm[0] == nm[1] else 0
            src = {'11': [unit(1)], '22': [unit(2)], '33': [unit(0)], '12': [dot(e1, e2) == 0], '13': [dot(z, e1) == 0], '23': [dot(z, e2) == 0]}[nm]
            h.derive(f'inner product {nm}', [g == dot(u, s_)] + src, g == val)
        quad = G['11'] * w[0] * w[0] + G['22'] * w[1] * w[1] + G['33'] * w[2] * w[2] + 2 * G['12'] * w[0] * w[1] + 2 * G['13'] * w[0] * w[2] + 2 * G['23'] * w[1] * w[2]
        defs = [G[nm] == dot(u, s_) for nm, u, s_ in (('11', e1, e1), ('12', e1, e2), ('13', e1, z), ('22', e2, e2), ('23', e2, z), ('33', z, z))]
        h.derive('square of the length in the frame', eqs + defs, dot(oo, oo) == quad)
        vals = [G[nm] == (1 if nm[0] == nm[1] else 0) for nm in G]
        h.derive('length preserved', [dot(oo, oo) == quad] + vals, dot(oo, oo) == dot(w, w))
        h.derive('component along the radial axis', eqs + [G['13'] == dot(e1, z), G['23'] == dot(e2, z), G['33'] == dot(z, z)], dot(oo, z) == w[0] * G['13'] + w[1] * G['23'] + w[2] * G['33'])
        h.derive('is the radial component of the vector', [dot(oo, z) == w[0] * G['13'] + w[1] * G['23'] + w[2] * G['33']] + vals, dot(oo, z) == w[2])


def add(xs):
    t = xs[0]
    for x in xs[1:]: t = t + x
    return t
