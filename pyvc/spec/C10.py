"""Mass assignment (field/cubic_box/mass_assignment.py)."""
from .common_cic import *
from ..arr import mk_sum
suite = Suite()


@suite.case('weights_at: formula, range, sum')
def _(h):
    mesh, n, L = mk_mesh(h)
    s = h.mod(MA)._LinearShapeFn(mesh)
    x = h.real('x')
    il, ir, wl, wr = [S(C.lift(v)) for v in s.weights_at(x)]
    u, m = weights_formula(x, n, L)
    h.eq('left grid point is the periodic floor', il, m % n)
    h.eq('right grid point is the next one, periodic', ir, (m + 1) % n)
    h.prove('indices in range', conj(il >= 0, il < n, ir >= 0, ir < n))
    q, p = h.int('q'), h.int('p'); h.assume(q == m)     # the floor as a plain integer
    h.assume(p == q + 1)
    t = S(C.pdivF(C.lift(p), C.lift(n))) - S(C.pdivF(C.lift(q), C.lift(n)))
    h.lemma('n times the step of the quotient', t * n == q % n + 1 - p % n)
    h.lemma('quotient steps by at most one', conj(t >= 0, t <= 1))
    h.lemma('which decides', disj(p % n == q % n + 1, conj(q % n == n - 1, p % n == 0)))
    h.prove('right is the periodic neighbour of left', disj(ir == il + 1, conj(il == n - 1, ir == 0)))
    h.eq('left weight falls linearly with the distance', wl, 1 - abs(u - m))
    h.eq('right weight falls linearly with the distance', wr, 1 - abs(m + 1 - u))
    h.prove('weights in [0, 1] and sum to one', conj(wl >= 0, wl <= 1, wr >= 0, wr <= 1, wl + wr == 1))
    h.eq('shape function at the left point', wl, s.shape_at_xi(u - m))
    h.eq('shape function at the right point', wr, s.shape_at_xi(m + 1 - u))


@suite.case('shape function')
def _(h):
    mesh, n, L = mk_mesh(h)
    s = h.mod(MA)._LinearShapeFn(mesh)
    d = h.real('d')
    f = s.shape_at_xi(d)
    h.prove('one minus the distance within one spacing', imp(abs(d) <= 1, f == 1 - abs(d)))
    h.prove('zero beyond', imp(abs(d) >= 1, f == 0))
    x = h.real('x')
    h.eq('in length units', s.shape_at_x(x), s.shape_at_xi(x * n / L))


@suite.case('weights_at is periodic')
def _(h):
    mesh, n, L = mk_mesh(h)
    s = h.mod(MA)._LinearShapeFn(mesh)
    x, k = h.real('x'), h.int('k')
    y = x + k * L
    u, m = weights_formula(x, n, L)
    v, q = weights_formula(y, n, L)
    # lemmas of arithmetic, proved here
    h.lemma('a shift by boxes is a shift by k n grid spacings', v == u + C_real(k) * C_real(n))
    h.lemma('floor of a shifted position', q == m + k * n)
    r1, r2 = (m % n), (q % n)
    t = S(C.pdivF(C.lift(q), C.lift(n))) - S(C.pdivF(C.lift(m), C.lift(n))) - k
    h.lemma('remainders differ by a multiple of n', r2 - r1 == -1 * t * n)
    h.lemma('which is zero', t == 0)
    a = [S(C.lift(w)) for w in s.weights_at(x)]
    c = [S(C.lift(w)) for w in s.weights_at(y)]
    h.eq('same left weight', a[2], c[2])
    h.eq('same right weight', a[3], c[3])
    h.eq('same left grid point', a[0], c[0])
    e1, e2 = (m + 1) % n, (q + 1) % n
    t = S(C.pdivF(C.lift(q + 1), C.lift(n))) - S(C.pdivF(C.lift(m + 1), C.lift(n))) - k
    h.lemma('remainders of the successors differ by a multiple of n', e2 - e1 == -1 * t * n)
    h.lemma('which is zero, too', t == 0)
    h.eq('same right grid point', a[1], c[1])


def C_real(x):
    return S(C.toreal(x))


def linear(h, lo=1):
    m = h.mod(MA)
    mesh, n, L = mk_mesh(h, lo=lo)
    w = WeightContract(n)
    m._LinearShapeFn.weights_at = lambda self, x: w(x)
    data = h.array('data', (n, n, n))
    f = h.mod('field.cubic_box.field')._Field(data, mesh)
    return m._Linear(f), n, L, w, data


def put(w, x3, wt, i, j, k):
    return w.W(x3[0], i) * w.W(x3[1], j) * w.W(x3[2], k) * wt


def total(fn, n):
    N = C.lift(n)
    return S(mk_sum(lambda i: mk_sum(lambda j: mk_sum(lambda k: C.toreal(fn(S(i), S(j), S(k))), N, R), N, R), N, R))


for wdef in (True, False):
    @suite.case(f'add_1: every cell (default weight={wdef})')
    def _(h, wdef=wdef):
        lin, n, L, w, data = linear(h)
        d0 = data.snap()
        x = h.array('x', (3,)); x0 = x.snap()
        wt = 1 if wdef else h.real('weight')
        lin.add_1(x) if wdef else lin.add_1(x, wt)
        i, j, k = h.idx(n), h.idx(n), h.idx(n)
        h.same_object('deposits into the field array', lin.data.buf, data.buf)
        h.eq('the cell gains weight times the product of its weights', at(lin.data, i, j, k),
             S(d0((i.e, j.e, k.e))) + put(w, [at(x, t) for t in range(3)], wt, i, j, k))
        h.unchanged('position unchanged', x, x0)

    @suite.case(f'add_1: total mass (default weight={wdef})')
    def _(h, wdef=wdef):
        lin, n, L, w, data = linear(h)
        before = data.sum()
        x = h.array('x', (3,))
        wt = 1 if wdef else h.real('weight')
        lin.add_1(x) if wdef else lin.add_1(x, wt)
        h.eq('the total grows by the weight', lin.data.sum(), before + wt)


# callers of add_1 are checked against this contract
def add_1_contract(dep):
    def add_1(self, x, weight=1.0):
        CTX.used_contracts.add(MA + ':_Linear.add_1')
        n = self.data._shape[0]
        xs = [at(x, t) for t in range(3)]
        wt = weight
        LD.PV.aug(self.data, Ellipsis, '+', A.new_arr(self.data._shape, 'f8', lambda ix: C.toreal(dep(xs, wt, *[S(i) for i in ix]))))
    return add_1


for weighted in (True, False):
    for via in ('_Linear', 'DensityField'):
        @suite.case(f'{via}.add (weights={weighted}): sum of the single deposits')
        def _(h, weighted=weighted, via=via):
            m = h.mod(MA)
            if via == '_Linear':
                lin, n, L, w, data = linear(h)
                target = lin
            else:
                n, L = h.int('n', lo=1), h.real('L', gt=0)
                target = m.DensityField(L, n)
                data = target.data
                h.eq('a new field is empty', at(data, h.idx(n), h.idx(n), h.idx(n)), 0.)
                # from here on: a field that already holds something
                held = h.array('held', (n, n, n))
                target._ma.data[...] = held
            d0 = data.snap()
            uf = z3.Function('deposit', R, R, R, R, I, I, I, R)
            dep = lambda xs, wt, i, j, k: S(uf(*[C.toreal(t) for t in xs], C.toreal(wt), i.e, j.e, k.e))
            m._Linear.add_1 = add_1_contract(dep)
            P = h.size('P')
            xs = h.array('xs', (P, 3)); wts = h.array('wts', (P,))
            x0, w0 = xs.snap(), wts.snap()
            target.add(xs, wts) if weighted else target.add(xs)
            i, j, k = h.idx(n), h.idx(n), h.idx(n)
            want = S(d0((i.e, j.e, k.e))) + S(mk_sum(lambda p: C.toreal(dep([at(xs, p, t) for t in range(3)],
                                                     at(wts, p) if weighted else 1, i, j, k)), C.lift(P), R))
            d1 = target.data
            h.eq('cell = held + sum of the single deposits', at(d1, i, j, k), want)
            h.unchanged('positions unchanged', xs, x0); h.unchanged('weights unchanged', wts, w0)


@suite.case('DensityField refuses inconsistent batches')
def _(h):
    m = h.mod(MA)
    n, L = h.int('n', lo=1), h.real('L', gt=0)
    P, Q = h.size('P'), h.size('Q')
    d = m.DensityField(L, n)
    h.assume(P != Q)
    h.raises('weights of another length', AssertionError, lambda: d.add(h.array('xs', (P, 3)), h.array('w', (Q,))))
    h.raises('positions that are not 3-d', AssertionError, lambda: d.add(h.array('xs', (P, 2))))
    h.raises('flat positions', AssertionError, lambda: d.add(h.array('xs', (P,))))
    h.raises('2-d weights', AssertionError, lambda: d.add(h.array('xs', (P, 3)), h.array('w', (P, 1))))
