"""Identity of closed formulas over the reals.

proves(a, b): the two terms have the same normal form as rational functions over atoms (variables and applications of
sqrt, log, pow, ..., whose arguments are compared the same way); coefficients may differ by the rounding of float
literals. Holds wherever the denominators do not vanish.
differ(a, b, pc): a point that satisfies the path conditions at which the two, evaluated with the true functions to 40
digits, are different."""
from fractions import Fraction
import random
import mpmath, z3
from . import core as C

TOL = Fraction(1, 10 ** 11)


class Big(Exception):
    pass


class Forms:
    def __init__(self, shared=(), budget=3_000_000):
        self.atoms = []          # (decl name, [argument forms]) or (variable name, None)
        self.shared, self.budget = set(shared), budget
        self.memo = {}
        self.keep = []

    def atom(self, name, args):
        for i, (n, a) in enumerate(self.atoms):
            if n == name and (a is None) == (args is None) and (args is None or len(a) == len(args) and all(self.eq(x, y) for x, y in zip(a, args))):
                return i
        self.atoms.append((name, args))
        return len(self.atoms) - 1

    # polynomials: {monomial: coefficient}, monomial = sorted tuple of (atom, power)
    def pmul(self, p, q):
        self.budget -= len(p) * len(q) + 1
        if self.budget < 0: raise Big
        out = {}
        for m, c in p.items():
            for n, d in q.items():
                k = dict(m)
                for a, e in n: k[a] = k.get(a, 0) + e
                k = tuple(sorted(k.items()))
                out[k] = out.get(k, 0) + c * d
        return {m: c for m, c in out.items() if c}

    def padd(self, p, q):
        out = dict(p)
        for m, c in q.items(): out[m] = out.get(m, 0) + c
        return {m: c for m, c in out.items() if c}

    # forms: (numerator polynomial, {frozen polynomial: power} of the denominator)
    def unfold(self, den):
        p = {(): Fraction(1)}
        for f, e in den.items():
            for _ in range(e): p = self.pmul(p, dict(f))
        return p

    def mul(self, a, b):
        den = dict(a[1])
        for f, e in b[1].items(): den[f] = den.get(f, 0) + e
        return self.cancel(self.pmul(a[0], b[0]), den)

    def add(self, a, b):
        den = {f: max(a[1].get(f, 0), b[1].get(f, 0)) for f in {**a[1], **b[1]}}
        na = self.pmul(a[0], self.unfold({f: e - a[1].get(f, 0) for f, e in den.items()}))
        nb = self.pmul(b[0], self.unfold({f: e - b[1].get(f, 0) for f, e in den.items()}))
        return self.cancel(self.padd(na, nb), den)

    def cancel(self, n, den):
        """single atoms common to numerator and denominator; whole-factor matches"""
        den = dict(den)
        for f in list(den):
            if len(f) == 1 and len(f[0][0]) == 1 and f[0][0][0][1] == 1:
                a = f[0][0][0][0]
                while den.get(f) and n and all(dict(m).get(a) for m in n):
                    n = {tuple((x, e - (x == a)) for x, e in m if e - (x == a)): c for m, c in n.items()}
                    den[f] -= 1
            elif len(f) == len(n) and den[f]:
                k = self.norm(n)
                if k[1] == f: n, den[f] = {(): k[0]}, den[f] - 1
        return n, {f: e for f, e in den.items() if e}

    def norm(self, p):
        ks = sorted(p)
        c = p[ks[0]]
        return c, tuple((k, p[k] / c) for k in ks)

    def inv(self, a):
        n, den = a
        if not n: raise Big
        out = self.unfold(den)
        ks = set(n)
        # monomial content becomes single-atom factors
        d = {}
        common = dict(next(iter(ks)))
        for m in ks:
            mm = dict(m)
            common = {x: min(e, mm.get(x, 0)) for x, e in common.items()}
        common = {x: e for x, e in common.items() if e}
        if common:
            n = {tuple((x, e - common.get(x, 0)) for x, e in m if e - common.get(x, 0)): c for m, c in n.items()}
            for x, e in common.items(): d[((((x, 1),), Fraction(1)),)] = e
        c, f = self.norm(n)
        if not (len(f) == 1 and f[0][0] == ()): d[f] = d.get(f, 0) + 1
        return self.cancel({m: v / c for m, v in out.items()}, d)

    def const(self, c): return ({(): c} if c else {}), {}

    def form(self, e):
        k = e.get_id()
        if k not in self.memo:
            self.keep.append(e)
            self.memo[k] = ({((self.atom(f'#{k}', None), 1),): Fraction(1)}, {}) if k in self.shared else self._form(e)
        return self.memo[k]

    def _form(self, e):
        if z3.is_rational_value(e) or z3.is_int_value(e): return self.const(e.as_fraction() if z3.is_rational_value(e) else Fraction(e.as_long()))
        k = e.decl().kind()
        ch = e.children()
        if k == z3.Z3_OP_ADD:
            out = self.form(ch[0])
            for c in ch[1:]: out = self.add(out, self.form(c))
            return out
        if k == z3.Z3_OP_SUB:
            out = self.form(ch[0])
            for c in ch[1:]: out = self.add(out, self.mul(self.const(Fraction(-1)), self.form(c)))
            return out
        if k == z3.Z3_OP_UMINUS: return self.mul(self.const(Fraction(-1)), self.form(ch[0]))
        if k == z3.Z3_OP_MUL:
            out = self.form(ch[0])
            for c in ch[1:]: out = self.mul(out, self.form(c))
            return out
        if k == z3.Z3_OP_DIV: return self.mul(self.form(ch[0]), self.inv(self.form(ch[1])))
        if k == z3.Z3_OP_TO_REAL: return self.form(ch[0])
        if k == z3.Z3_OP_POWER:
            c = C.rconst(ch[1])
            if c is not None and c.denominator == 1 and 0 < c <= 12:
                x = out = self.form(ch[0])
                for _ in range(int(c) - 1): out = self.mul(out, x)
                return out
        if k == z3.Z3_OP_UNINTERPRETED and not ch: return {((self.atom(str(e), None), 1),): Fraction(1)}, {}
        if k == z3.Z3_OP_UNINTERPRETED:
            nm = e.decl().name()
            args = [self.form(c) for c in ch]
            if nm == 'rpow':
                c = self.number(args[1])
                if c is not None and c < 0:      # x^-a = 1/x^a
                    return self.inv(({((self.atom('rpow', [args[0], self.const(-c)]), 1),): Fraction(1)}, {}))
            return {((self.atom(nm, args), 1),): Fraction(1)}, {}
        raise Big

    def number(self, f):
        return None if f[1] or any(m != () for m in f[0]) else f[0].get((), Fraction(0))

    def eq(self, a, b):
        na = self.pmul(a[0], self.unfold({f: e - min(e, a[1].get(f, 0)) for f, e in b[1].items()}))
        nb = self.pmul(b[0], self.unfold({f: e - min(e, b[1].get(f, 0)) for f, e in a[1].items()}))
        return set(na) == set(nb) and all(abs(c - nb[m]) <= TOL * abs(c) for m, c in na.items())


def subterms(e):
    out, todo = {}, [e]
    while todo:
        t = todo.pop()
        if t.get_id() not in out:
            out[t.get_id()] = t
            todo += t.children()
    return out


def decide_ites(e):
    """the alternatives of conditional terms that the path selects"""
    sub = []
    for t in subterms(e).values():
        if t.decl().kind() == z3.Z3_OP_ITE:
            c = t.arg(0)
            if C.CTX.holds(c): sub.append((t, t.arg(1)))
            elif C.CTX.holds(z3.Not(c)): sub.append((t, t.arg(2)))
    if not sub: return e
    for t, v in sorted(sub, key=lambda p: -len(subterms(p[0]))): e = z3.substitute(e, (t, v))
    return z3.simplify(e)


def proves(a, b):
    sa, sb = subterms(a), subterms(b)
    common = [i for i, t in sa.items() if i in sb and t.children() and t.sort() == C.R]
    for shared in (common, ()):     # a common subterm may be any number; otherwise everything is multiplied out
        try:
            F = Forms(shared)
            if F.eq(F.form(a), F.form(b)): return True
        except Big:
            pass
    return False


def value(e, env):
    memo = {}
    mp = mpmath.mp

    def go(t):
        k = t.get_id()
        if k not in memo: memo[k] = one(t)
        return memo[k]

    def one(t):
        if z3.is_rational_value(t): f = t.as_fraction(); return mp.mpf(f.numerator) / f.denominator
        if z3.is_int_value(t): return mp.mpf(t.as_long())
        if z3.is_true(t): return True
        if z3.is_false(t): return False
        k, ch = t.decl().kind(), t.children()
        if k == z3.Z3_OP_UNINTERPRETED and not ch: return env[str(t)]
        if k == z3.Z3_OP_ITE: return go(ch[1]) if go(ch[0]) else go(ch[2])
        if k == z3.Z3_OP_AND: return all(go(c) for c in ch)
        if k == z3.Z3_OP_OR: return any(go(c) for c in ch)
        if k == z3.Z3_OP_NOT: return not go(ch[0])
        v = [go(c) for c in ch]
        if k == z3.Z3_OP_ADD: return sum(v)
        if k == z3.Z3_OP_SUB: return v[0] - sum(v[1:])
        if k == z3.Z3_OP_UMINUS: return -v[0]
        if k == z3.Z3_OP_MUL:
            p = mp.mpf(1)
            for x in v: p *= x
            return p
        if k == z3.Z3_OP_DIV: return v[0] / v[1]
        if k == z3.Z3_OP_TO_REAL: return v[0]
        if k == z3.Z3_OP_LE: return v[0] <= v[1]
        if k == z3.Z3_OP_LT: return v[0] < v[1]
        if k == z3.Z3_OP_GE: return v[0] >= v[1]
        if k == z3.Z3_OP_GT: return v[0] > v[1]
        if k == z3.Z3_OP_EQ: return v[0] == v[1]
        nm = t.decl().name()
        fn = {'sqrt': mp.sqrt, 'log': mp.log, 'exp': mp.exp, 'sin': mp.sin, 'cos': mp.cos, 'rpow': lambda x, y: x ** y, 'log10': mp.log10, 'exp10': lambda x: mp.mpf(10) ** x}.get(nm)
        if fn is None: raise ValueError(nm)
        r = fn(*v)
        if isinstance(r, mpmath.mpc): raise ZeroDivisionError
        return r
    return go(e)


def variables(es):
    out, seen, todo = {}, set(), list(es)
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: out[str(t)] = t.sort() == C.I
        todo += t.children()
    return out


def bounds(pc):
    """constant bounds of single variables among the path conditions"""
    out, todo = {}, list(pc)
    while todo:
        t = todo.pop()
        k, ch = t.decl().kind(), t.children()
        if k == z3.Z3_OP_AND: todo += ch; continue
        neg = k == z3.Z3_OP_NOT
        if neg: k, ch = ch[0].decl().kind(), ch[0].children()
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT): continue
        lower = (k in (z3.Z3_OP_GE, z3.Z3_OP_GT)) != neg
        l, r = ch
        if z3.is_const(r) and r.decl().kind() == z3.Z3_OP_UNINTERPRETED: l, r, lower = r, l, not lower
        c = C.rconst(r) if r.sort() != C.B else None
        if c is None or not (z3.is_const(l) and l.decl().kind() == z3.Z3_OP_UNINTERPRETED): continue
        lo, hi = out.get(str(l), (None, None))
        if lower: lo = c if lo is None else max(lo, c)
        else: hi = c if hi is None else min(hi, c)
        out[str(l)] = lo, hi
    return out


def differ(a, b, pc, n=400, want=40):
    """None, or (point, value of a, value of b)"""
    rng = random.Random(7)
    vs = variables([a, b] + list(pc))
    good = 0
    bd = {k: (None if l is None else float(l), None if h is None else float(h)) for k, (l, h) in bounds([z3.simplify(p) for p in pc]).items()}
    with mpmath.workdps(40):
        for k in range(n):
            env, edge = {}, [0, 1] if k % 4 == 3 else []
            for v, isint in vs.items():
                lo, hi = bd.get(v, (None, None))
                for _ in range(12):
                    x = rng.choice([rng.uniform(0, 1), rng.uniform(0, 1), rng.uniform(0, .3), 10 ** rng.uniform(-3, 3), -rng.uniform(0, 2), -10 ** rng.uniform(-3, 3)] + edge + ([lo or 0, hi or 0] if edge else []))
                    if isint: x = rng.randint(-1, 4)
                    if (lo is None or lo <= x) and (hi is None or x <= hi): break
                    if lo is not None and hi is not None: x = rng.uniform(lo, hi); break
                env[v] = mpmath.mpf(x)
            try:
                if not all(value(p, env) for p in pc): continue
                x, y = value(a, env), value(b, env)
            except (ZeroDivisionError, ValueError, KeyError, OverflowError):
                continue
            if not (mpmath.isfinite(x) and mpmath.isfinite(y)): continue
            good += 1
            if abs(x - y) > mpmath.mpf(10) ** -9 * (abs(x) + abs(y)):
                return {k: float(v) for k, v in env.items()}, float(x), float(y)
            if good >= want: break
    return None
