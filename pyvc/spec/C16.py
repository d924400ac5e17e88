"""C16: radius queries in the periodic tree (field/neighbor/kd_tree.py).

scipy.spatial.KDTree with a box size is an assumed contract: query_ball_point returns the indices of exactly the stored points whose
minimum-image distance is at most the radius.  Proved: the tree is built on the caller's points and box, the query passes its own
point and radius, returns exactly these indices, and the distances are the minimum-image distances in the same order; queries
outside the box are refused.  Any number of points and of dimensions."""
from ..harness import *
from .. import arr as A, loops as L, npm
from ..arr import mk_sum
suite = Suite()
KT = 'field.neighbor.kd_tree'
TREES = []


class Tree:
    def __init__(self, data, leafsize=10, compact_nodes=True, copy_data=False, balanced_tree=True, boxsize=None):
        npm.trust('scipy.spatial.KDTree(boxsize).query_ball_point: indices of exactly the stored points within the radius (periodic)')
        TREES.append(self)
        self.src, self.data, self.boxsize = data, A.asarr(data).copy(), boxsize
        self.calls = []

    def query_ball_point(self, x, r, p=2.0, eps=0, workers=1, return_sorted=None, return_length=False):
        if p != 2 or eps != 0 or return_length: raise Unsupported('query_ball_point options')
        m = S(CTX.const('found', I))
        CTX.assume(m >= 0)
        f = z3.Function(CTX.fresh_name('found_id'), I, I)
        n = A.dz(self.data._shape[0])
        C.add_templ(f, lambda t: [z3.Implies(z3.And(t.arg(0) >= 0, t.arg(0) < m.e), z3.And(t >= 0, t < n))])
        self.calls.append((x, r, m, f))
        i = CTX.index_var('found')
        return L.MList([L.Seg(m.e, i, S(f(i)))])


def models():
    TREES.clear()
    sp = LD.Stub('scipy.spatial')
    sp.__dict__['KDTree'] = sp.__dict__['cKDTree'] = Tree
    return {'scipy.spatial': sp}


def build(h, **kw):
    m = h.mod(KT)
    n, d = h.size('n'), h.size('d', lo=1)
    xs = h.array('xs', (n, d))
    box = h.real('box', gt=0)
    h.assume_all(xs, lambda v, *i: conj(v >= 0, v < box))
    s0 = xs.snap()
    del TREES[:]
    t = m.PE(xs, box, **kw)
    return n, d, xs, box, t, s0


def point(h, d, box):
    x = h.array('x', (d,))
    h.assume_all(x, lambda v, *i: conj(v >= 0, v < box))
    return x


def check_tree(h, t, xs, box, s0):
    h.prove('one tree', z3.BoolVal(len(TREES) == 1))
    T = TREES[0]
    h.eqarr('on the given points', T.data, xs)
    h.eq('with the given box', T.boxsize, box)
    h.unchanged('points untouched', xs, s0)
    return T


def check_query(h, T, x, r, ids):
    h.prove('one query', z3.BoolVal(len(T.calls) == 1))
    qx, qr, m, f = T.calls[0]
    h.eqarr('at the given point', A.asarr(qx), x)
    h.eq('with the given radius', qr, r)
    h.shape('all indices found', ids, (m,))
    j = h.idx(m)
    h.eq('in the order found', at(ids, j), S(f(j.e)))
    return m, f, j


@suite.case('indices', models=models)
def _(h):
    for kw in ({}, dict(copy_data=False, balanced_tree=False, compact_nodes=False, n_workers=2)):
        n, d, xs, box, t, s0 = build(h, **kw)
        T = check_tree(h, t, xs, box, s0)
        x, r = point(h, d, box), h.real('r')
        x0 = x.snap()
        ids = t.query_r_1(x, r)
        check_query(h, T, x, r, ids)
        h.prove('indices are integers', z3.BoolVal(ids.k == 'i'))
        h.unchanged('query point untouched', x, x0)


@suite.case('distances', models=models)
def _(h):
    CTX.raw_sums = True
    n, d, xs, box, t, s0 = build(h)
    T = check_tree(h, t, xs, box, s0)
    x, r = point(h, d, box), h.real('r')
    x0 = x.snap()
    ids, dist = t.query_r_1(x, r, return_d=True)
    m, f, j = check_query(h, T, x, r, ids)
    h.shape('one distance per index', dist, (m,))
    # minimum-image separation along one axis, from its definition
    k = h.idx(d)
    def image(k_):
        a = S(s0((f(j.e), C.lift(k_)))) - at(x, k_)
        return a
    def mi(k_):
        a = abs(image(k_))
        return ite(2 * a > box, box - a, a)
    q = h.int('image')
    a = image(k)
    sh = h.real('sh'); h.assume(sh == S(z3.ToReal(q.e)) * box)
    if CTX.branch(b(q >= 1)): h.derive('whole boxes', [sh == S(z3.ToReal(q.e)) * box, q >= 1, box > 0], sh >= box)
    elif CTX.branch(b(q <= -1)): h.derive('whole boxes', [sh == S(z3.ToReal(q.e)) * box, q <= -1, box > 0], sh <= -box)
    else: h.lemma('no box', sh == 0)
    h.prove('no periodic image is nearer', mi(k) <= abs(a + sh))
    h.prove('an image is that near', disj(mi(k) == abs(a), mi(k) == abs(a + box), mi(k) == abs(a - box)))
    want = C.m_sqrt(S(mk_sum(lambda c: (mi(S(c)) * mi(S(c))).e, d.e, R)))
    h.eq('minimum-image distance of the same index', at(dist, j), want)
    h.unchanged('query point untouched', x, x0)
    h.eqarr('stored points untouched', T.data, xs)


def outside(nm, pred):
    @suite.case(f'query outside the box ({nm})', models=models)
    def _(h):
        n, d, xs, box, t, s0 = build(h)
        x, r = h.array('x', (d,)), h.real('r')
        k = h.idx(d)
        h.assume(pred(at(x, k), box))
        for kw in ({}, {'return_d': True}):
            h.raises('refused', AssertionError, lambda: t.query_r_1(x, r, **kw))


outside('below', lambda v, L_: v < 0)
outside('at or above the box length', lambda v, L_: v >= L_)
