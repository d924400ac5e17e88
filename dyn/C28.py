"""Executable contracts: symmetry groups."""
import numpy as np
from dyn.fw import *
from pyhipp.group_theory import point_group as PG
GROUPS = {}


def key(m): return tuple(np.asarray(m).ravel())


@contract('groups', .4)
def _(r):
    name = r.pick(['cubic', '3d', 'square', '2d']); d = 3 if name in ('cubic', '3d') else 2
    r.note(name=name)
    g = PG.Group.create(name)
    ms = [op.mat for op in g]
    ensure(len(g) == len(ms) == (48 if d == 3 else 8), 'size', len(ms))
    s = {key(m) for m in ms}
    ensure(len(s) == len(ms), 'distinct')
    for m in ms:
        ensure(m.shape == (d, d) and (m == np.rint(m)).all(), 'integer', m); ensure_eq(m @ m.T, np.eye(d), 'orthogonal')
        ensure(key(m.T) in s, 'inverse')
    ensure(key(np.eye(d)) in s, 'identity')
    a = ms[r.int(0, len(ms) - 1)]
    for c in ms: ensure(key(a @ c) in s, 'closed', a, c)
    ensure(g[1].mat is ms[1], 'order')
    x = r.arr((r.int(0, 4), d)); op = g[r.int(0, len(ms) - 1)]
    x0 = x.copy(); y = op(x)
    ensure_close(y, np.array([op.mat @ v for v in x]).reshape(x.shape), 'images'); ensure_close((y ** 2).sum(-1), (x ** 2).sum(-1), 'length'); ensure_eq(x, x0, 'vectors unchanged')
    c = g.copied(); c[0].mat[...] = 7; ensure_eq(g[0].mat, ms[0], 'independent copies'); ensure(not (g[0].mat == 7).all(), 'independent copies')
    ensure_raises(KeyError, lambda: PG.Group.create(name + 'x'), 'unknown')
    g[0].mat[...] = 5; ensure(not any((o.mat == 5).all() for o in PG.Group.create(name)), 'groups do not share storage')
    for T in (PG.RotationXY, PG.RotationOther, PG.ReflectionX, PG.Rotation2DXY, PG.Reflection2DX):
        for o, m in zip(T.group(), T.mats): ensure_eq(o.mat, m, 'operation'); ensure(not np.shares_memory(o.mat, m), 'own storage')


@contract('combine', 2)
def _(r):
    T = r.pick([PG.RotationXY, PG.Rotation2DXY]); d = T.n_dims

    def op():
        o = T(); o.mat[...] = r.arr((d, d)); return o
    a, ops = op(), [op() for _ in range(r.int(0, 3))]
    keep = [o.mat.copy() for o in [a] + ops]
    w = a.combined(*ops); want = keep[0]
    for m in keep[1:]: want = want @ m
    ensure_close(w.mat, want, 'product in order')
    w.mat[...] = 3
    for o, m in zip([a] + ops, keep): ensure_eq(o.mat, m, 'operands unchanged')
    gs = [PG.Group([op() for _ in range(r.int(1, 3))]) for _ in range(r.int(1, 3))]
    keep = [[o.mat.copy() for o in g] for g in gs]; r.note(sizes=[len(g) for g in gs])
    c = gs[0].combined(*gs[1:])
    want = keep[0]
    for ms in keep[1:]: want = [x @ y for x in want for y in ms]
    ensure(len(c) == len(want), 'size')
    for o, m in zip(c, want): ensure_close(o.mat, m, 'pairs in order')
    for o in c: o.mat[...] = 9
    for g, ms in zip(gs, keep):
        ensure(len(g) == len(ms), 'operand size')
        for o, m in zip(g, ms): ensure_eq(o.mat, m, 'operands unchanged')
    ensure(len(PG.Group()) == 0, 'empty')
