"""Executable contracts: random numbers and random directions."""
import numpy as np
from dyn.fw import *
from pyhipp.stats import Rng
from pyhipp.stats.random import _Rng


def size(r, scalar=True): return r.pick(([None] if scalar else []) + [0, 1, r.int(2, 6), (r.int(0, 3), r.int(1, 3)), (4,)])
def shp(s): return () if s is None else (s,) if isinstance(s, int) else s


@contract('draws', 2)
def _(r):
    seed = r.int(0, 99)
    s = size(r)
    lo = r.pick([0., -2., 5.]); hi = lo + r.pick([1., 2.5, 1e-3]); sc = r.pick([1., .1, 3.])
    r.note(seed=seed, size=s, lo=lo, hi=hi, sc=sc)
    a, g = Rng(seed), np.random.default_rng(seed)
    for nm, args in (('random', ()), ('uniform', (lo, hi)), ('normal', (lo, sc)), ('standard_normal', ()), ('uniform', ()), ('normal', ())):
        ensure_eq(np.asarray(getattr(a, nm)(*args, size=s)), np.asarray(getattr(g, nm)(*args, size=s)), nm)
    n, k = r.int(1, 6), r.int(0, 5)
    p = r.arr((n,), .1, 1); p /= p.sum()
    ensure_eq(a.choice(n, size=k), g.choice(n, size=k), 'choice')
    x = r.arr((n, 3), -1, 1); x0 = x.copy()
    ensure_eq(a.choice(x, k, p=p), g.choice(x, k, p=p), 'weighted choice of rows')
    ensure_eq(a.choice(x, min(k, 3), False, None, 1, False), g.choice(x, min(k, 3), False, None, 1, False), 'choice of columns')
    for ax in (0, 1):
        y = a.permutation(x, axis=ax)
        ensure_eq(y, g.permutation(x, axis=ax), 'permutation'); ensure_eq(x, x0, 'permutation leaves its argument'); ensure(not np.shares_memory(x, y), 'a copy')
    for ax in (0, 1):
        y, z = x0.copy(), x0.copy()
        ensure(a.shuffle(y, axis=ax) is None, 'shuffle returns nothing'); g.shuffle(z, axis=ax)
        ensure_eq(y, z, 'shuffled in place')
    # sources
    b = Rng(a); c = Rng(g)
    ensure(b.random() == g.random() and a.random() == c.random() and b.random() == c.random(), 'a given source is shared')
    ensure(Rng().random() == np.random.default_rng(0).random(), 'default seed')
    ensure(Rng(None).random() != Rng(None).random(), 'no seed')
    for bad in (1.5, 'x', (1,)): ensure_raises(AssertionError, lambda: Rng(bad), 'seed')


@contract('directions', 2)
def _(r):
    seed, s, stack = r.int(0, 999), size(r), r.bool()
    r.note(seed=seed, size=s, stack=stack)
    sh = shp(s)
    def split(o, k):
        if not stack:
            ensure(isinstance(o, tuple) and len(o) == k, 'components'); return [np.asarray(v) for v in o]
        ensure(np.shape(o) == sh + (k,), 'shape', np.shape(o)); return [np.asarray(o)[..., q] for q in range(k)]
    g = np.random.default_rng(seed)
    u, phi = np.asarray(g.uniform(-1., 1., size=s)), np.asarray(g.uniform(0., 2 * np.pi, size=s))
    x, y, z = split(Rng(seed).uniform_sphere(s, stack=stack), 3)
    for v in (x, y, z): ensure(v.shape == sh, 'shape', v.shape)
    ensure_close(x * x + y * y + z * z, np.ones(sh), 'unit length'); ensure_close(z, u, 'height')
    w = np.sqrt(1 - u * u)
    ensure_close(x, w * np.cos(phi), 'x'); ensure_close(y, w * np.sin(phi), 'y')
    t, p = split(Rng(seed).uniform_sphere(s, stack=stack, cartesian=False), 2)
    ensure_close(np.cos(t), u, 'polar angle'); ensure(bool(((t >= 0) & (t <= np.pi)).all()), 'range'); ensure_close(p, phi, 'azimuth')
    g = np.random.default_rng(seed)
    t = np.asarray(g.uniform(0., 2 * np.pi, size=s))
    x, y = split(Rng(seed).uniform_circle(s, stack=stack), 2)
    ensure_close(x, np.cos(t), 'circle x'); ensure_close(y, np.sin(t), 'circle y')
    ensure_close(np.asarray(Rng(seed).uniform_circle(s, cartesian=False)), t, 'circle angle')


@contract('compiled', .5)
def _(r):
    seed, n = r.int(0, 99), r.int(1, 4)
    r.note(seed=seed, n=n)
    g, a = np.random.default_rng(seed), _Rng(np.random.default_rng(seed))
    ensure_close(a.random(n), g.random(n), 'random')
    ensure_close(a.uniform(-2., 3., n), g.uniform(-2., 3., n), 'uniform')
    ensure_close(a.standard_normal(n), g.standard_normal(n), 'standard normal')
    ensure_close(a.normal(1., .5, n), g.normal(1., .5, n), 'normal')
    ensure_close(a.lg_normal(1., .5, n), 10 ** g.normal(1., .5, n), 'log-normal')
    u, phi = g.uniform(-1., 1., n), g.uniform(0., 2 * np.pi, n)
    t, p = a.uniform_sphere_polar(n)
    ensure_close(np.cos(t), u, 'polar'); ensure_close(p, phi, 'azimuth')
    u, phi = g.uniform(-1., 1., n), g.uniform(0., 2 * np.pi, n)
    x, y, z = a.uniform_sphere_cart(n)
    w = np.sqrt(1 - u * u)
    ensure_close(x, w * np.cos(phi), 'x'); ensure_close(y, w * np.sin(phi), 'y'); ensure_close(z, u, 'z')
