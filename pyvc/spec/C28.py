"""Symmetry groups (group_theory/point_group.py)."""
from ..harness import *
from .. import arr as A, loops as L
from fractions import Fraction
suite = Suite()
PG = 'group_theory.point_group'


def num(v):
    e = z3.simplify(C.toreal(v))
    return Fraction(e.numerator_as_long(), e.denominator_as_long()) if z3.is_rational_value(e) else None


def matrix(m):
    """exact entries of a concrete matrix; None if it is not one"""
    if len(m.shape) != 2 or any(not isinstance(d, int) for d in m._shape): return None
    r = tuple(tuple(num(at(m, i, j)) for j in range(m._shape[1])) for i in range(m._shape[0]))
    return None if any(v is None for row in r for v in row) else r


def mul(a, c):
    n = range(len(a))
    return tuple(tuple(sum(a[i][k] * c[k][j] for k in n) for j in n) for i in n)


def tr(a): return tuple(zip(*a))


def eye(d): return tuple(tuple(Fraction(int(i == j)) for j in range(d)) for i in range(d))


for name, size, d in (('cubic', 48, 3), ('3d', 48, 3), ('square', 8, 2), ('2d', 8, 2)):
    @suite.case(f'the {name} group', deadline=300)
    def _(h, name=name, size=size, d=d):
        M = h.mod(PG)
        g = M.Group.create(name)
        ms = [matrix(op.mat) for op in g]
        h.prove(f'{size} operations', len(ms) == size and all(m is not None and len(m) == d for m in ms))
        h.eq('its length', M.__builtins__['len'](g) if isinstance(M.__builtins__, dict) else type(g).__len__(g), size)
        h.prove('in order', all(matrix(g[i].mat) == m for i, m in enumerate(ms)))
        s = set(ms)
        h.prove('pairwise distinct', len(s) == len(ms))
        h.prove('integer entries', all(v.denominator == 1 for m in ms for r in m for v in r))
        h.prove('orthogonal', all(mul(m, tr(m)) == eye(d) for m in ms))
        h.prove('contains the identity', eye(d) in s)
        h.prove('closed under composition', all(mul(a, c) in s for a in ms for c in ms))
        h.prove('closed under inversion', all(tr(m) in s for m in ms))


@suite.case('unknown groups are refused')
def _(h):
    M = h.mod(PG)
    for nm in ('', 'cube', 'Cubic', '4d'):
        h.raises(f'{nm!r}', KeyError, lambda: M.Group.create(nm))


for cls in ('RotationXY', 'RotationOther', 'ReflectionX', 'Rotation2DXY', 'Reflection2DX'):
    @suite.case(f'{cls}: every operation is created from its own matrix')
    def _(h, cls=cls):
        M = h.mod(PG)
        c = getattr(M, cls)
        tab = [matrix(m) for m in c.mats]
        ops = [c.create(i) for i in range(len(tab))]
        h.prove('created operation', all(matrix(o.mat) == m for o, m in zip(ops, tab)))
        h.prove('own storage', all(o.mat.buf is not m.buf for o in ops for m in c.mats))
        h.prove('all orthogonal integer matrices', all(m is not None and mul(m, tr(m)) == eye(len(m)) and all(v.denominator == 1 for r in m for v in r) for m in tab))
        g = c.group()
        h.prove('its group holds each once', [matrix(o.mat) for o in g.ops] == tab and len(set(tab)) == len(tab))


# ------------------------------------------------------------------ operations with arbitrary matrices
def op_of(h, M, d, name, cls=None):
    T = cls or type('AnyOp', (M.Op,), {'n_dims': d, 'group_size': 1, '__module__': M.Op.__module__})
    o = T()
    m = h.array(name, (d, d))
    o.mat[...] = m
    return o, m


def prod(ms):
    """entry function of the product of matrices (readers), left to right"""
    f, d = ms[0]
    for g, _ in ms[1:]:
        f = (lambda f, g: lambda i, j: S(mk(lambda k: f(i, k) * g(k, j), d)))(f, g)
    return f


def mk(fn, d):
    if isinstance(d, int):
        t = None
        for k in range(d): t = fn(k) if t is None else t + fn(k)
        return C.toreal(t)
    return A.mk_sum(lambda k: C.toreal(fn(S(k))), C.lift(d), R)


for d in (2, 3, None):
    for k in (0, 1, 2, 3):
        if d is None and k > 1: continue

        @suite.case(f'combining an operation with {k} others ({d or "any"}-d)')
        def _(h, d=d, k=k):
            M = h.mod(PG)
            d = d or h.int('d', lo=1)
            ops = [op_of(h, M, d, f'm{q}') for q in range(k + 1)]
            s = [m.snap() for _, m in ops]; keep = [o.mat for o, _ in ops]; k0 = [o.mat.snap() for o, _ in ops]
            r = ops[0][0].combined(*[o for o, _ in ops[1:]])
            i, j = h.idx(d), h.idx(d)
            f = prod([((lambda f: lambda a, c: S(f((C.lift(a), C.lift(c)))))(f), d) for f in s])
            h.shape('square', r.mat, (d, d))
            h.eq('product of the matrices in order', at(r.mat, i, j), f(i, j))
            h.prove('a new operation', r is not ops[0][0] and all(r.mat.buf is not o.mat.buf for o, _ in ops))
            h.prove('of the same kind', type(r) is type(ops[0][0]))
            for q, (o, _) in enumerate(ops):
                h.same_object(f'operand {q} keeps its matrix', o.mat, keep[q]); h.unchanged(f'operand {q} unchanged', o.mat, k0[q])


for d in (2, 3, None):
    @suite.case(f'copy of an operation ({d or "any"}-d)')
    def _(h, d=d):
        M = h.mod(PG)
        d = d or h.int('d', lo=1)
        o, m = op_of(h, M, d, 'm')
        c = o.copied()
        i, j = h.idx(d), h.idx(d)
        h.shape('same shape', c.mat, (d, d)); h.eq('same matrix', at(c.mat, i, j), at(m, i, j)); h.independent('own storage', c.mat, o.mat); h.prove('new object', c is not o)
        h.prove('of the same kind', type(c) is type(o))

    @suite.case(f'applying an operation ({d or "any"}-d)')
    def _(h, d=d):
        M = h.mod(PG)
        dd = d or h.int('d', lo=1)
        o, m = op_of(h, M, dd, 'm')
        n = h.size('n')
        x = h.array('x', (n, dd)); x0 = x.snap(); m0 = o.mat.snap()
        y = o(x)
        h.shape('one image per vector', y, (n, dd))
        p, i = h.idx(n), h.idx(dd)
        h.eq('row vector mapped by the matrix', at(y, p, i), S(mk(lambda k: at(m, i, k) * at(x, p, k), dd)))
        v = h.array('v', (dd,))
        w = o(v)
        h.shape('a single vector', w, (dd,)); h.eq('single vector mapped by the matrix', at(w, i), S(mk(lambda k: at(m, i, k) * at(v, k), dd)))
        h.unchanged('vectors unchanged', x, x0); h.unchanged('matrix unchanged', o.mat, m0)
        if d:
            col = lambda a, c: S(mk(lambda r: at(m, r, a) * at(m, r, c), d))
            n2 = lambda v_: S(mk(lambda k: v_(k) * v_(k), d))
            for a in range(d):
                for c in range(a, d): h.assume(col(a, c) == (1 if a == c else 0))
            # |y|^2 = sum_ac (sum_r m_ra m_rc) x_a x_c
            t = None
            for a in range(d):
                for c in range(d):
                    u = (1 if a == c else 0) * at(x, p, a) * at(x, p, c)
                    t = u if t is None else t + u
            ya, xa = [h.real(f'y{k}') for k in range(d)], [h.real(f'x{k}') for k in range(d)]
            ma = [[h.real(f'm{r}{k}') for k in range(d)] for r in range(d)]
            for k in range(d): h.assume(xa[k] == at(x, p, k))
            for r in range(d):
                for k in range(d): h.assume(ma[r][k] == at(m, r, k))
            ys = []
            for r in range(d):
                h.assume(ya[r] == at(y, p, r))
                e = None
                for k in range(d): e = ma[r][k] * xa[k] if e is None else e + ma[r][k] * xa[k]
                h.lemma(f'component {r}', ya[r] == e); ys.append(ya[r] == e)
            orth = []
            for a in range(d):
                for c in range(a, d):
                    e = None
                    for r in range(d): e = ma[r][a] * ma[r][c] if e is None else e + ma[r][a] * ma[r][c]
                    h.lemma(f'orthonormal columns {a}{c}', e == (1 if a == c else 0)); orth.append((a, c, e == (1 if a == c else 0), e))
            sq = lambda vs: add([v_ * v_ for v_ in vs])
            ws = [(h.real(f'w{a}{c}'), a, c, e, f) for a, c, f, e in orth]
            for w_, a, c, e, f in ws: h.assume(w_ == e)
            for w_, a, c, e, f in ws: h.derive(f'w{a}{c}', [w_ == e, f], w_ == (1 if a == c else 0))
            quadw = add([(w_ if a == c else 2 * w_) * xa[a] * xa[c] for w_, a, c, e, f in ws])
            h.derive('square of the length of the image', ys + [w_ == e for w_, a, c, e, f in ws], sq(ya) == quadw)
            h.derive('length preserved by an orthogonal operation', [sq(ya) == quadw] + [w_ == (1 if a == c else 0) for w_, a, c, e, f in ws], sq(ya) == sq(xa))


def add(xs):
    t = xs[0]
    for x in xs[1:]: t = t + x
    return t


# ------------------------------------------------------------------ groups of any size
def any_group(h, M, T, d, n, name):
    """group of n arbitrary operations"""
    mats = h.array(name, (n, d, d))
    i = CTX.index_var('g')
    o = object.__new__(T)
    o.__dict__.update({kk: vv for kk, vv in T().__dict__.items()})
    f = mats.snap()
    o.mat = A.new_arr((d, d), 'f8', lambda ix: f((i,) + tuple(ix)))
    return M.Group(L.MList([L.Seg(A.dim(n), i, o)])), mats


def mats_of(h, g):
    """(length, reader (p, i, j)) of a group"""
    return type(g).__len__(g), lambda p, i, j: at(g.ops[p].mat if not isinstance(p, z3.ExprRef) else g.ops[S(p)].mat, i, j)


for d in (2, 3):
    @suite.case(f'combining two groups of any size ({d}-d)')
    def _(h, d=d):
        M = h.mod(PG)
        T = type('AnyOp', (M.Op,), {'n_dims': d, 'group_size': 1, '__module__': M.Op.__module__})
        n1, n2 = h.size('n1', lo=1), h.size('n2', lo=1)
        g1, m1 = any_group(h, M, T, d, n1, 'a'); g2, m2 = any_group(h, M, T, d, n2, 'c')
        o1, o2 = g1.ops, g2.ops
        r = g1.combined(g2)
        h.eq('one operation per pair', type(r).__len__(r), n1 * n2)
        p, q = h.idx(n1), h.idx(n2)
        k = h.int('k'); h.assume(k == p * n2 + q)
        h.lemma('pair number', conj(k // n2 == p, k % n2 == q)); h.lemma('in range', conj(k >= 0, k < n1 * n2))
        i, j = h.idx(d), h.idx(d)
        h.eq('product of the pair, in order', at(r[k].mat, i, j), S(mk(lambda t: at(m1, p, i, t) * at(m2, q, t, j), d)))
        h.same_object('first operand keeps its operations', g1.ops, o1); h.same_object('second operand keeps its operations', g2.ops, o2)
        h.eq('first operand keeps its size', type(g1).__len__(g1), n1); h.eq('second operand keeps its size', type(g2).__len__(g2), n2)
        h.eq('first operand unchanged', at(g1[p].mat, i, j), at(m1, p, i, j)); h.eq('second operand unchanged', at(g2[q].mat, i, j), at(m2, q, i, j))

    @suite.case(f'copy of a group of any size ({d}-d)')
    def _(h, d=d):
        M = h.mod(PG)
        T = type('AnyOp', (M.Op,), {'n_dims': d, 'group_size': 1, '__module__': M.Op.__module__})
        n = h.size('n')
        g, m = any_group(h, M, T, d, n, 'a')
        for nm, c in (('copied', g.copied()), ('combined with nothing', g.combined())):
            h.prove(nm + ': new', c is not g and c.ops is not g.ops)
            h.eq(nm + ': size', type(c).__len__(c), n)
            p, i, j = h.idx(n), h.idx(d), h.idx(d)
            h.eq(nm + ': same operations', at(c[p].mat, i, j), at(m, p, i, j))


@suite.case('three groups are combined from the left')
def _(h):
    """sizes 2, 1, 2 with arbitrary matrices; the recursion is on the number of groups"""
    M = h.mod(PG)
    T = type('AnyOp', (M.Op,), {'n_dims': 2, 'group_size': 1, '__module__': M.Op.__module__})
    gs = []
    for nm, n in (('a', 2), ('c', 1), ('e', 2)):
        gs.append(M.Group(L.MList([op_of(h, M, 2, f'{nm}{q}', T)[0] for q in range(n)])))
    r = gs[0].combined(gs[1], gs[2])
    h.eq('one operation per triple', type(r).__len__(r), 4)
    i, j = h.idx(2), h.idx(2)
    k = 0
    for x in gs[0].ops:
        for y in gs[1].ops:
            for z in gs[2].ops:
                f = prod([((lambda f: lambda a, c: at(f, a, c))(o.mat), 2) for o in (x, y, z)])
                h.eq(f'triple {k}', at(r[k].mat, i, j), f(i, j)); k += 1
    h.prove('independent copies', all(o.mat.buf is not q.mat.buf for o in r.ops for g in gs for q in g.ops))
    c = gs[0].copied()
    h.prove('copies hold their own matrices', all(o.mat.buf is not q.mat.buf and o is not q for o in c.ops for q in gs[0].ops))


@suite.case('an empty group')
def _(h):
    M = h.mod(PG)
    g = M.Group()
    h.eq('no operations', type(g).__len__(g), 0); h.prove('groups do not share their lists', M.Group().ops is not g.ops)
