"""Executable contracts on the real code: bounded search for failing inputs, and replay.

Run with the repository's own interpreter (/opt/venv/bin/python). Every contract is a function of a random source `r`;
one (contract, seed) pair determines the inputs completely, so a replay file is that pair plus the observed failure.
"""
from __future__ import annotations
import sys, os, json, time, traceback, importlib, zlib
import numpy as np

np.seterr(all='ignore')
import warnings
warnings.simplefilter('ignore')


class Fail(Exception):
    pass


class Skip(Exception):
    """the drawn input lies outside the property's quantifier"""


class R:
    """random source; draws a mixture of random, boundary and adversarial values"""

    def __init__(self, seed):
        self.g = np.random.default_rng(seed)
        self.seed = seed
        self.log = {}

    def note(self, **k):
        self.log.update(k)

    def int(self, lo, hi):
        """lo..hi inclusive, ends favoured"""
        u = self.g.random()
        if u < .15: return int(lo)
        if u < .25: return int(hi)
        return int(self.g.integers(lo, hi + 1))

    def bool(self, p=.5):
        return bool(self.g.random() < p)

    def pick(self, xs):
        return xs[int(self.g.integers(len(xs)))]

    def real(self, lo=-10., hi=10.):
        u = self.g.random()
        if u < .1: return float(round(self.g.uniform(lo, hi)))
        if u < .15: return 0.0 if lo <= 0 <= hi else float(lo)
        if u < .2: return float(lo)
        return float(self.g.uniform(lo, hi))

    def pos(self, lo=1e-3, hi=1e3):
        if self.g.random() < .2: return float(self.pick([x for x in (1., 2., 10., 100., .5) if lo <= x <= hi] or [lo]))
        return float(np.exp(self.g.uniform(np.log(lo), np.log(hi))))

    def shape(self, nd=None, lo=0, hi=6):
        nd = self.int(1, 3) if nd is None else nd
        return tuple(self.int(lo, hi) for _ in range(nd))

    def arr(self, shape, lo=-10., hi=10., special=(), p=.25):
        a = self.g.uniform(lo, hi, size=shape)
        a = np.asarray(a, dtype=float)
        if len(special) and a.size:
            m = self.g.random(a.shape) < p
            a[m] = self.g.choice(np.asarray(special, float), size=int(m.sum()))
        return a

    def iarr(self, shape, lo=-5, hi=5):
        return self.g.integers(lo, hi + 1, size=shape)

    def mask(self, shape):
        return self.g.random(shape) < self.pick([0., .2, .5, .8, 1.])

    def asc(self, n, lo=-10., hi=10., gap=1e-2):
        """strictly ascending"""
        d = self.g.uniform(gap, 1., size=n)
        if self.bool(.3): d = d ** 4 + gap
        if self.bool(.15): d = np.ones(n)
        x = np.cumsum(d)
        s = self.pos(.1, 10.)
        return (x - x[0] if self.bool(.3) and n else x + self.real(lo, hi)) * s

    def perm(self, n):
        return self.g.permutation(n)


CONTRACTS = {}


def contract(name, weight=1.0):
    def deco(f):
        CONTRACTS[name] = (f, weight)
        return f
    return deco


def ensure(cond, msg, *vals):
    if not bool(np.all(cond)):
        raise Fail(msg + (' | ' + ' ; '.join(short(v) for v in vals) if vals else ''))


def short(v):
    s = repr(v)
    return s if len(s) < 300 else s[:300] + '...'


def close(a, b, rtol=1e-9, atol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape: return False
    return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))


def ensure_close(a, b, msg, rtol=1e-9, atol=1e-9):
    if np.shape(a) != np.shape(b):
        raise Fail(f'{msg}: shape {np.shape(a)} instead of {np.shape(b)}')
    if not close(a, b, rtol, atol):
        raise Fail(f'{msg}: got {short(a)} want {short(b)}')


def ensure_eq(a, b, msg):
    a_, b_ = np.asarray(a), np.asarray(b)
    if a_.shape != b_.shape: raise Fail(f'{msg}: shape {a_.shape} instead of {b_.shape}')
    if not np.array_equal(a_, b_): raise Fail(f'{msg}: got {short(a)} want {short(b)}')


def ensure_raises(exc, fn, msg):
    try:
        fn()
    except exc:
        return
    except Exception as e:
        raise Fail(f'{msg}: raised {type(e).__name__}: {e}')
    raise Fail(f'{msg}: accepted')


def run_one(name, seed):
    """None or the failure text"""
    r = R([zlib.crc32(name.encode()), *(seed if isinstance(seed, (list, tuple)) else [seed])])
    try:
        CONTRACTS[name][0](r)
        return None, r
    except Skip:
        return None, r
    except Fail as e:
        return str(e), r
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        fr = [f for f in tb if '/src/pyhipp/' in f.filename]
        at = f' in {fr[-1].name} ({os.path.basename(fr[-1].filename)}:{fr[-1].lineno})' if fr else f' at {os.path.basename(tb[-1].filename)}:{tb[-1].lineno}'
        return f'raised {type(e).__name__}: {e}{at}', r


def main():
    prop, mode = sys.argv[1], sys.argv[2]
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    sys.modules['dyn.fw'] = sys.modules['__main__']
    import dyn; dyn.fw = sys.modules['__main__']
    importlib.import_module('dyn.' + prop)
    if mode == 'replay':
        rec = json.load(open(sys.argv[3]))
        if 'contract' not in rec:
            print('no failing input recorded; failed obligation:', json.dumps(rec, indent=1)[:4000]); sys.exit(2)
        msg, r = run_one(rec['contract'], rec['seed'])
        print(f"contract {rec['contract']} seed {rec['seed']}: {'FAILS: ' + msg if msg else 'holds'}")
        sys.exit(1 if msg else 0)
    seed0, budget, outp = int(sys.argv[3]), float(sys.argv[4]), sys.argv[5]
    only = sys.argv[6] if len(sys.argv) > 6 else None
    prog = open(outp + '.progress', 'w')
    names = [n for n in CONTRACTS if only is None or only in n]
    counts = {n: 0 for n in names}
    spent = {n: 0. for n in names}
    failures = []
    keys = set()
    t0 = time.time()
    k = 0
    live = list(names)
    warm = 0.
    while live and not (time.time() - t0 - warm > budget and k >= 1):
        for n in list(live):
            if k >= 1 and time.time() - t0 - warm > budget: break
            if k >= 2 and spent[n] > CONTRACTS[n][1] * budget * 2 / max(1, len(names)) and len(live) > 1 and k % 4: continue
            prog.seek(0); prog.write(json.dumps([n, [seed0, k], time.time()]) + '\n'); prog.truncate(); prog.flush()
            t = time.time()
            msg, r = run_one(n, [seed0, k])
            dt = time.time() - t
            if k == 0: warm += dt
            else: spent[n] += dt
            counts[n] += 1
            if msg:
                failures.append(dict(contract=n, seed=[seed0, k], message=msg[:3000], inputs={a: short(b) for a, b in r.log.items()}))
                live.remove(n)
        k += 1
        if k > 3000: break
    json.dump(dict(counts=counts, failures=failures, wall=time.time() - t0, done=True), open(outp, 'w'))


if __name__ == '__main__':
    main()
