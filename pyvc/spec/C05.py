"""Periodic wrapping (core/dataproc/frame.py PeriodicBox)."""
import z3
from ..harness import *
suite = Suite()
MOD = 'core.dataproc.frame'


def setup(h, nd, masked):
    shape = tuple(h.size(f'n{d}', lo=0) for d in range(nd))
    x = h.array('x', shape)
    L = h.real('L', gt=0)
    w = h.array('where', shape, 'b1') if masked else None
    return shape, x, L, w


def mk(nd, masked, copy):
    tag = f'{nd}d, {"mask" if masked else "no mask"}, copy={copy}'

    @suite.case(f'shift_in ({tag})')
    def _(h):
        P = h.mod(MOD).PeriodicBox
        shape, x, L, w = setup(h, nd, masked)
        x0 = x.snap()
        out = P.shift_in(x, L, where=w, copy=copy) if masked or not copy else P.shift_in(x, L)
        h.shape('result shape', out, shape)
        ix = [h.idx(n) for n in shape]
        xi = S(x0(tuple(C.lift(i) for i in ix)))
        h.assume((xi >= -L) & (xi < 2 * L))
        o = at(out, ix)
        sel = S(w.at(*[C.lift(i) for i in ix])) if masked else S(z3.BoolVal(True))
        h.prove('selected values end inside [0, L)', z3.Implies(sel.e, ((o >= 0) & (o < L)).e))
        h.prove('moved by whole boxes', ((o == xi) | (o == xi + L) | (o == xi - L)))
        h.prove('values inside are unchanged', z3.Implies(((xi >= 0) & (xi < L)).e, (o == xi).e))
        h.prove('excluded values are unchanged', z3.Or(sel.e, (o == xi).e))
        if copy:
            h.independent('result does not share storage', out, x)
            h.unchanged('input unchanged', x, x0)
        else:
            h.same_object('in place result is the input', out, x)

    @suite.case(f'shift_to ({tag})')
    def _(h):
        P = h.mod(MOD).PeriodicBox
        shape, x, L, w = setup(h, nd, masked)
        x0 = x.snap()
        ref = h.array('ref', shape)
        out = P.shift_to(x, ref, L, where=w, copy=copy) if masked or not copy else P.shift_to(x, ref, L)
        h.shape('result shape', out, shape)
        ix = [h.idx(n) for n in shape]
        xi = S(x0(tuple(C.lift(i) for i in ix)))
        r = at(ref, ix)
        h.assume((xi >= 0) & (xi < L) & (r >= 0) & (r < L))
        o = at(out, ix)
        sel = S(w.at(*[C.lift(i) for i in ix])) if masked else S(z3.BoolVal(True))
        d = o - r
        h.prove('separation in [-L/2, L/2)', z3.Implies(sel.e, ((2 * d >= -L) & (2 * d < L)).e))
        h.prove('moved by whole boxes', ((o == xi) | (o == xi + L) | (o == xi - L)))
        h.prove('excluded values are unchanged', z3.Or(sel.e, (o == xi).e))
        h.prove('values within half a box are unchanged',
                z3.Implies(((2 * (xi - r) >= -L) & (2 * (xi - r) < L)).e, (o == xi).e))
        if copy:
            h.independent('result does not share storage', out, x)
            h.unchanged('input unchanged', x, x0)
        else:
            h.same_object('in place result is the input', out, x)


for nd in (1, 2):
    for masked in (False, True):
        for copy in (True, False):
            mk(nd, masked, copy)


@suite.case('shift_to with a broadcast reference')
def _(h):
    P = h.mod(MOD).PeriodicBox
    n = h.size('n')
    x = h.array('x', (n, 3)); ref = h.array('ref', (3,)); L = h.real('L', gt=0)
    out = P.shift_to(x, ref, L)
    i, k = h.idx(n), h.idx(3)
    xi, r, o = at(x, (i, k)), at(ref, (k,)), at(out, (i, k))
    h.assume((xi >= 0) & (xi < L) & (r >= 0) & (r < L))
    d = o - r
    h.prove('separation in [-L/2, L/2)', (2 * d >= -L) & (2 * d < L))
    h.prove('moved by whole boxes', ((o == xi) | (o == xi + L) | (o == xi - L)))


for masked in (False, True):
    @suite.case(f'test_bound ({"mask" if masked else "no mask"})')
    def _(h, masked=masked):
        P = h.mod(MOD).PeriodicBox
        shape, x, L, w = setup(h, 1, masked)
        r = P.test_bound(x, L, where=w) if masked else P.test_bound(x, L)
        r = C.tobool(r if isinstance(r, S) else r.__pv_scalar__())
        i = h.idx(shape[0])
        xi = at(x, (i,))
        sel = at(w, (i,)).e if masked else z3.BoolVal(True)
        h.prove('true implies every selected value inside', z3.Implies(z3.And(r, sel), ((xi >= 0) & (xi < L)).e))
        # converse: assume all inside -> true
        h.assume_all(x, lambda v, j: z3.Implies(at(w, (j,)).e if masked else z3.BoolVal(True), ((v >= 0) & (v < L)).e))
        h.prove('all selected values inside implies true', r)
