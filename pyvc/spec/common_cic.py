"""Shared contract of the linear (CIC) weights: a function of the position, the grid size and the box."""
from ..harness import *

MA = 'field.cubic_box.mass_assignment'
MESH = 'field.cubic_box.mesh'


def weights_formula(x, n, L):
    """specification: position in grid units u, m = floor(u)"""
    u = C.toreal(x) / (C.toreal(L) / C.toreal(n))
    m = z3.ToInt(u)
    return S(u), S(m)


class WeightContract:
    """callee contract used by the callers of weights_at: functional, with the proved properties as axioms"""

    def __init__(self, n):
        t = CTX.fresh_name('cic')
        self.n = n
        self.fil, self.fir = z3.Function(t + '_il', R, I), z3.Function(t + '_ir', R, I)
        self.fwl, self.fwr = z3.Function(t + '_wl', R, R), z3.Function(t + '_wr', R, R)

        def ax(app):
            x = app.arg(0)
            il, ir, wl, wr = self.raw(x)
            N = C.lift(n)
            return [il >= 0, il < N, ir >= 0, ir < N, wl >= 0, wl <= 1, wr >= 0, wr <= 1, wl + wr == 1,
                    z3.Or(ir == il + 1, z3.And(il == N - 1, ir == 0))]
        for f in (self.fil, self.fir, self.fwl, self.fwr): C.add_templ(f, ax)

    def raw(self, x):
        return self.fil(x), self.fir(x), self.fwl(x), self.fwr(x)

    def __call__(self, x):
        CTX.used_contracts.add(MA + ':_LinearShapeFn.weights_at')
        x = C.toreal(x)
        return tuple(S(v) for v in self.raw(x))

    def W(self, x, i):
        """weight that grid point i receives on one axis"""
        il, ir, wl, wr = self(x)
        return ite(i == il, wl, 0.) + ite(i == ir, wr, 0.)


def mk_mesh(h, n=None, L=None, lo=1):
    n = h.int('n', lo=lo) if n is None else n
    L = h.real('L', gt=0) if L is None else L
    return h.mod(MESH)._Mesh(n, L), n, L
