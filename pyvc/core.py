"""pyvc core: symbolic scalars, path exploration, obligations and their discharge.

Machine arithmetic is treated as mathematical: floats are reals, ints are unbounded.
"""
from __future__ import annotations
import time, os, subprocess, tempfile, itertools
from fractions import Fraction
import z3

z3.set_param('smt.random_seed', 1)
R, I, B = z3.RealSort(), z3.IntSort(), z3.BoolSort()


class Unsupported(Exception):
    """The construct is outside the extractor's subset."""


class PathEnd(BaseException):
    """This path is finished (infeasible, or closed by a loop obligation)."""


class Restart(BaseException):
    """Candidate invariants changed: explore again."""


# ---------------------------------------------------------------- lifting
def frac(x: float) -> Fraction:
    if x != x or x in (float('inf'), float('-inf')):
        raise Unsupported(f'non-finite literal {x}')
    f = Fraction(x).limit_denominator(1000)
    if float(f) == x:
        return f
    return Fraction(repr(float(x)))


def real_val(x):
    f = frac(x) if isinstance(x, float) else Fraction(x)
    return z3.RealVal(f'{f.numerator}/{f.denominator}')


class S:
    """A symbolic scalar: kind 'i' (int), 'r' (float), 'b' (bool)."""
    __slots__ = ('e', 'k')
    __array_priority__ = 1000

    def __init__(self, e, k=None):
        self.e = e
        if k is None:
            s = e.sort()
            k = 'i' if s == I else 'r' if s == R else 'b'
        self.k = k

    # -- python protocol
    def __bool__(self):
        c = tobool(self)
        return CTX.branch(c)

    def __index__(self):
        v = z3.simplify(toint(self))
        if z3.is_int_value(v):
            return v.as_long()
        raise Unsupported('symbolic value used as a concrete index')

    def __int__(self):
        return self.__index__()

    def __float__(self):
        v = z3.simplify(toreal(self))
        if z3.is_rational_value(v):
            return float(v.as_fraction())
        raise Unsupported('symbolic value used as a concrete float')

    def __hash__(self):
        return hash(self.e)

    def __repr__(self):
        return f'<{self.k}:{str(self.e)[:200]}>'

    def __format__(self, spec):
        return repr(self)

    # -- numpy-scalar like api
    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        from .arr import DT
        return DT({'i': 'i8', 'r': 'f8', 'b': 'b1'}[self.k])

    def item(self):
        return self

    def copy(self):
        return self

    def tolist(self):
        return self

    def astype(self, dt, **kw):
        from .arr import kind_of_dtype
        k = kind_of_dtype(dt)
        if k == 'i' and self.k == 'r' and getattr(CTX, 'int_range', False): int_range_side(self.e, z3.BoolVal(True))
        return cast(self, k)

    def ravel(self):
        from . import arr
        return arr.asarr(self).ravel()

    def sum(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def all(self, *a, **k):
        return S(tobool(self))

    def any(self, *a, **k):
        return S(tobool(self))

    def clip(self, lo=None, hi=None, **kw):
        from . import npm
        return npm.clip(self, kw.get('min', lo), kw.get('max', hi))

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def __getitem__(self, key):
        from . import arr
        if key is Ellipsis or key == ():
            return self
        return arr.asarr(self)[key]

    # -- arithmetic
    def __add__(s, o): return arith('+', s, o)
    def __radd__(s, o): return arith('+', o, s)
    def __sub__(s, o): return arith('-', s, o)
    def __rsub__(s, o): return arith('-', o, s)
    def __mul__(s, o): return arith('*', s, o)
    def __rmul__(s, o): return arith('*', o, s)
    def __truediv__(s, o): return arith('/', s, o)
    def __rtruediv__(s, o): return arith('/', o, s)
    def __floordiv__(s, o): return arith('//', s, o)
    def __rfloordiv__(s, o): return arith('//', o, s)
    def __mod__(s, o): return arith('%', s, o)
    def __rmod__(s, o): return arith('%', o, s)
    def __pow__(s, o): return arith('**', s, o)
    def __rpow__(s, o): return arith('**', o, s)
    def __neg__(s): return S(-num(s))
    def __pos__(s): return s
    def __abs__(s):
        e = num(s)
        return S(z3.If(e >= 0, e, -e))
    def __round__(s, *a): raise Unsupported('round')
    def __lt__(s, o): return arith('<', s, o)
    def __le__(s, o): return arith('<=', s, o)
    def __gt__(s, o): return arith('>', s, o)
    def __ge__(s, o): return arith('>=', s, o)
    def __eq__(s, o): return arith('==', s, o)
    def __ne__(s, o): return arith('!=', s, o)
    def __and__(s, o): return arith('&', s, o)
    def __rand__(s, o): return arith('&', o, s)
    def __or__(s, o): return arith('|', s, o)
    def __ror__(s, o): return arith('|', o, s)
    def __xor__(s, o): return arith('^', s, o)
    def __rxor__(s, o): return arith('^', o, s)
    def __invert__(s):
        if s.k == 'b':
            return S(z3.Not(s.e))
        return S(-toint(s) - 1)


def isnum(x):
    return isinstance(x, (S, bool, int, float, Fraction)) 


def lift(x):
    """python/S value -> z3 expr"""
    if isinstance(x, S):
        return x.e
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, (float, Fraction)):
        return real_val(x)
    if isinstance(x, z3.ExprRef):
        return x
    sc = getattr(x, '__pv_scalar__', None)
    if sc is not None:
        return lift(sc())
    raise Unsupported(f'cannot lift {type(x).__name__}')


def num(x):
    e = lift(x)
    if z3.is_bool(e):
        if z3.is_true(e): return z3.IntVal(1)
        if z3.is_false(e): return z3.IntVal(0)
        return z3.If(e, z3.IntVal(1), z3.IntVal(0))
    return e


def toreal(x):
    e = num(x)
    if e.sort() == I:
        if z3.is_int_value(e):
            return z3.RealVal(e.as_long())
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(e.arg(1)) \
                and z3.is_int_value(e.arg(2)):
            return z3.If(e.arg(0), z3.RealVal(e.arg(1).as_long()), z3.RealVal(e.arg(2).as_long()))
        return z3.ToReal(e)
    return e


def whole(e, depth=0):
    """the integer term equal to a real term whose leaves are whole numbers, else None"""
    if z3.is_rational_value(e):
        return z3.IntVal(e.numerator_as_long()) if e.denominator_as_long() == 1 else None
    if not z3.is_app(e) or depth > 12: return None
    k = e.decl().kind()
    if k == z3.Z3_OP_TO_REAL: return e.arg(0)
    if k == z3.Z3_OP_ITE:
        a, b = whole(e.arg(1), depth + 1), whole(e.arg(2), depth + 1)
        if a is None or b is None: return None
        return z3.If(intcmp(e.arg(0)), a, b)
    return None


def intcmp(c):
    """comparisons of whole-valued real terms as integer comparisons"""
    if z3.is_app(c) and c.num_args() == 2 and c.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT, z3.Z3_OP_EQ) and c.arg(0).sort() == R:
        a, b = whole(c.arg(0)), whole(c.arg(1))
        if a is not None and b is not None:
            return {z3.Z3_OP_LE: a <= b, z3.Z3_OP_GE: a >= b, z3.Z3_OP_LT: a < b, z3.Z3_OP_GT: a > b, z3.Z3_OP_EQ: a == b}[c.decl().kind()]
    return c


def toint(x):
    e = num(x)
    if e.sort() == R:
        v = z3.simplify(e)
        if z3.is_rational_value(v) and v.denominator_as_long() == 1:
            return z3.IntVal(v.numerator_as_long())
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_TO_REAL:
            return e.arg(0)
        w = whole(e)
        if w is not None:
            return w
        # truncation toward zero
        return z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e))
    return e


def tobool(x):
    if not isinstance(x, (S, z3.ExprRef)):
        if isinstance(x, (bool, int, float)):
            return z3.BoolVal(bool(x))
    e = lift(x)
    if z3.is_bool(e):
        return e
    return e != 0


def cast(x, k):
    if isinstance(x, S) and x.k == k:
        return x
    if k == 'r':
        return S(toreal(x))
    if k == 'i':
        return S(toint(x))
    if k == 'b':
        return S(tobool(x))
    raise Unsupported('cast to ' + k)


def mkS(e):
    return S(e)


def ival(e):
    """concrete int value of z3 expr / S / int or None"""
    if isinstance(e, bool):
        return int(e)
    if isinstance(e, int):
        return e
    if isinstance(e, S):
        e = e.e
    v = z3.simplify(e)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_rational_value(v) and v.denominator_as_long() == 1:
        return v.numerator_as_long()
    return None


# ---- uninterpreted functions with on-demand axioms -----------------------
sqrtF = z3.Function('sqrt', R, R)
expF = z3.Function('exp', R, R)
logF = z3.Function('log', R, R)
log10F = z3.Function('log10', R, R)
exp10F = z3.Function('exp10', R, R)
sinF = z3.Function('sin', R, R)
cosF = z3.Function('cos', R, R)
arccosF = z3.Function('arccos', R, R)
rpowF = z3.Function('rpow', R, R, R)
pmodF = z3.Function('pmod', I, I, I)
pdivF = z3.Function('pdiv', I, I, I)
PI = z3.Real('pi')
TEN = z3.RealVal(10)


def rconst(e):
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        return e.as_fraction()
    return None


def int_range_side(v, guard):
    """a float converted to int64 must fit (checked where a specification asks for it)"""
    CTX.side('value converted to int64 fits', z3.Implies(guard, z3.And(v >= z3.RealVal(-2**63), v < z3.RealVal(2**63))))


def m_sqrt(x):
    e = toreal(x)
    c = rconst(e)
    if c is not None and c >= 0:
        import math
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return S(real_val(Fraction(n, d)))
    return S(sqrtF(e))


def m_exp(x):
    e = toreal(x)
    c = rconst(e)
    if c == 0:
        return S(z3.RealVal(1))
    if z3.is_app(e) and e.decl().eq(logF):
        pass
    return S(expF(z3.simplify(e)))


def m_log(x):
    e = z3.simplify(toreal(x))
    if rconst(e) == 1:
        return S(z3.RealVal(0))
    if z3.is_app(e) and e.decl().eq(expF):
        return S(e.arg(0))
    if z3.is_app(e) and e.decl().eq(sqrtF):
        return S(m_log(S(e.arg(0))).e / 2)      # both undefined for a negative argument, both -inf at zero
    return S(logF(e))


def m_log10(x):
    e = z3.simplify(toreal(x))
    if rconst(e) == 1:
        return S(z3.RealVal(0))
    if z3.is_app(e) and e.decl().eq(exp10F):
        return S(e.arg(0))
    if z3.is_app(e) and e.decl().eq(sqrtF):
        return S(m_log10(S(e.arg(0))).e / 2)
    return S(log10F(e))


def m_uf(f):
    def g(x):
        e = z3.simplify(toreal(x))
        if rconst(e) == 0:
            if f.eq(sinF): return S(z3.RealVal(0))
            if f.eq(cosF): return S(z3.RealVal(1))
        return S(f(e))
    return g


m_sin, m_cos, m_arccos = m_uf(sinF), m_uf(cosF), m_uf(arccosF)


def m_pow(a, b):
    bc = rconst(toreal(b))
    if bc is not None and bc.denominator == 1:
        n = bc.numerator
        base = num(a)
        isint = base.sort() == I and lift(b).sort() != R
        if not isint:
            base = toreal(base)
        if n == 0:
            return S(z3.IntVal(1) if isint else z3.RealVal(1))
        if abs(n) <= 12:
            ac = rconst(toreal(a))
            if n < 0:
                base = toreal(base)
            r = base
            for _ in range(abs(n) - 1):
                r = r * base
            if n < 0:
                r = z3.RealVal(1) / r
            return S(r)
    ac = rconst(toreal(a))
    if ac == 10:
        e = z3.simplify(toreal(b))
        if z3.is_app(e) and e.decl().eq(log10F):
            return S(e.arg(0))  # for positive argument (checked by log10 axioms at use)
        return S(exp10F(e))
    if bc == Fraction(1, 2):
        return m_sqrt(a)
    return S(rpowF(z3.simplify(toreal(a)), z3.simplify(toreal(b))))


def idiv(a, b):
    bv = ival(b)
    if bv is not None and bv > 0:
        av = ival(a)
        if av is not None:
            return z3.IntVal(av // bv)
        return a / z3.IntVal(bv)
    return pdivF(z3.simplify(a), z3.simplify(b))


def imod(a, b):
    bv = ival(b)
    if bv is not None and bv > 0:
        av = ival(a)
        if av is not None:
            return z3.IntVal(av % bv)
        return a % z3.IntVal(bv)
    return pmodF(z3.simplify(a), z3.simplify(b))


CMP = {'<', '<=', '>', '>=', '==', '!='}


def arith(op, a, b):
    from . import arr
    if isinstance(a, arr.SArr) or isinstance(b, arr.SArr):
        return arr.binop(op, a, b)
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if op in ('==', '!='):
            return op == '!='
        return arr.binop(op, arr.asarr(a), arr.asarr(b))
    if hasattr(a, '__pv_arr__') or hasattr(b, '__pv_arr__'):
        return NotImplemented
    for x in (a, b):
        if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
            return inf_arith(op, a, b)
    try:
        x, y = lift(a), lift(b)
    except Unsupported:
        if op == '==': return False
        if op == '!=': return True
        return NotImplemented
    if op in '&|^' and z3.is_bool(x) and z3.is_bool(y):
        return S({'&': z3.And, '|': z3.Or, '^': z3.Xor}[op](x, y))
    if op in ('==', '!=') and z3.is_bool(x) and z3.is_bool(y):
        return S(x == y) if op == '==' else S(z3.Xor(x, y))
    x, y = num(x), num(y)
    if op == '/':
        x, y = toreal(x), toreal(y)
        c = rconst(y)
        if c is not None and c != 0:
            return S(x * real_val(1 / c)) if c != 1 else S(x)
        return S(x / y)
    if op == '**':
        return m_pow(a, b)
    if x.sort() != y.sort():
        x, y = toreal(x), toreal(y)
    if op == '+': return S(x + y)
    if op == '-': return S(x - y)
    if op == '*': return S(x * y)
    if op == '<': return S(x < y)
    if op == '<=': return S(x <= y)
    if op == '>': return S(x > y)
    if op == '>=': return S(x >= y)
    if op == '==': return S(x == y)
    if op == '!=': return S(x != y)
    if op == '//':
        if x.sort() == I: return S(idiv(x, y))
        return S(z3.ToReal(z3.ToInt(x / y)))
    if op == '%':
        if x.sort() == I: return S(imod(x, y))
        return S(x - y * z3.ToReal(z3.ToInt(x / y)))
    raise Unsupported('operator ' + op)


def inf_arith(op, a, b):
    inf = float('inf')
    if isinstance(b, float):
        if b == inf:
            t = {'<': True, '<=': True, '>': False, '>=': False, '==': False, '!=': True}
        elif b == -inf:
            t = {'<': False, '<=': False, '>': True, '>=': True, '==': False, '!=': True}
        else:
            raise Unsupported('nan arithmetic')
    elif isinstance(a, float) and a in (inf, -inf):
        t = {'<': a < 0, '<=': a < 0, '>': a > 0, '>=': a > 0, '==': False, '!=': True}
    else:
        raise Unsupported('nan arithmetic')
    if op in t:
        return S(z3.BoolVal(t[op]))
    raise Unsupported('infinite arithmetic')


# ------------------------------------------------------------ term scanning
def subterms(es, memo=None):
    seen = {} if memo is None else memo
    st = list(es)
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen[i] = t
        if z3.is_quantifier(t):
            st.append(t.body())
        else:
            st.extend(t.children())
    return seen


def has_var(t):
    return any(z3.is_var(x) for x in subterms([t]).values())


def contains(e, decls_or_consts):
    ids = {d.get_id() for d in decls_or_consts}
    for t in subterms([e]).values():
        if t.get_id() in ids:
            return True
        if z3.is_app(t) and t.decl().get_id() in ids:
            return True
    return False


def subst(e, pairs):
    return z3.substitute(e, *pairs)


# on-demand axioms for the functions above; arguments are ground terms
def ax_sqrt(t):
    x, = t.children()
    return [z3.Implies(x >= 0, z3.And(t >= 0, t * t == x))]


def ax_exp(t):
    x, = t.children()
    return [t > 0, z3.Implies(x == 0, t == 1), z3.Implies(x <= 0, t <= 1), z3.Implies(x >= 0, t >= 1)]


def ax_exp10(t):
    x, = t.children()
    return [t > 0, z3.Implies(x == 0, t == 1)]


def ax_log(t):
    x, = t.children()
    return [z3.Implies(x == 1, t == 0), z3.Implies(x > 1, t > 0)]


def ax_arccos(t):
    x, = t.children()
    return [z3.Implies(z3.And(x >= -1, x <= 1), z3.And(t >= 0, t <= PI, cosF(t) == x, sinF(t) >= 0))]


def ax_sincos(t):
    x, = t.children()
    s, c = sinF(x), cosF(x)
    return [s * s + c * c == 1, s <= 1, s >= -1, c <= 1, c >= -1]


def ax_rpow(t):
    x, y = t.children()
    out = [z3.Implies(x > 0, t > 0)]
    c = rconst(y)
    if c is not None and 0 < c and c.denominator <= 4 and c.numerator <= 6:
        p, q = c.numerator, c.denominator
        l, r = t, x
        for _ in range(q - 1): l = l * t
        for _ in range(p - 1): r = r * x
        out.append(z3.Implies(x >= 0, z3.And(t >= 0, l == r)))
    return out


def ax_pmod(t):
    a, n = t.children()
    return [z3.Implies(n > 0, z3.And(pmodF(a, n) >= 0, pmodF(a, n) < n,
                                     a == n * pdivF(a, n) + pmodF(a, n),
                                     z3.Implies(z3.And(a >= 0, a < n), z3.And(pmodF(a, n) == a, pdivF(a, n) == 0)),
                                     z3.Implies(z3.And(a >= -n, a < 0), pmodF(a, n) == a + n),
                                     z3.Implies(z3.And(a >= n, a < 2 * n), pmodF(a, n) == a - n)))]


AX = {'sqrt': ax_sqrt, 'exp': ax_exp, 'exp10': ax_exp10, 'log': ax_log, 'arccos': ax_arccos,
      'sin': ax_sincos, 'cos': ax_sincos, 'rpow': ax_rpow, 'pmod': ax_pmod, 'pdiv': ax_pmod}
AXIOM_TEXT = {
    'sqrt': 'sqrt(x)>=0 and sqrt(x)^2=x for x>=0', 'exp': 'exp>0, exp(0)=1, ordered around 0',
    'exp10': '10^x>0, 10^0=1', 'log': 'log(1)=0, log(x)>0 for x>1; log(exp x)=x',
    'arccos': 'cos(arccos x)=x, sin(arccos x)>=0 on [-1,1]',
    'sin': 'sin^2+cos^2=1, bounded by 1', 'rpow': 'x^(p/q): positive, t^q=x^p for x>=0',
    'pmod': 'euclidean remainder for a positive divisor'}

TEMPL = {}   # decl name -> Template (sums, sorted arrays, ...), see arr.py
PAIRC = {}
PAIR = {}    # decl name -> fn(t1, t2) -> axioms for every ordered pair of applications


class FnTempl:
    def __init__(self):
        self.fns = []

    def axioms(self, t):
        out = []
        for f in self.fns:
            out += f(t)
        return out


def add_templ(decl, fn):
    t = TEMPL.get(decl.name())
    if t is None:
        t = TEMPL[decl.name()] = FnTempl()
    t.fns.append(fn)


def add_pair(decl, fn):
    PAIR.setdefault(decl.name(), []).append(fn)


def all_axioms(es, rounds=3):
    """ground axioms for UF applications that occur in es (and in the axioms)"""
    out, used = [], set()
    memo = {}
    pairs_done = set()
    groups = {}
    work = list(es)
    pi = False
    for _ in range(rounds):
        # newly discovered terms
        fresh = []
        st = list(work)
        while st:
            t = st.pop()
            i = t.get_id()
            if i in memo:
                continue
            memo[i] = t
            if z3.is_quantifier(t):
                st.append(t.body()); continue
            ch = t.children()
            if ch:
                st.extend(ch)
                if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    fresh.append(t)
            elif t.eq(PI):
                pi = True
        new = []
        for t in fresh:
            nm = t.decl().name()
            inpair, f, tm = nm in PAIR, AX.get(nm), TEMPL.get(nm)
            if not inpair and f is None and tm is None: continue
            if has_var(t): continue
            if inpair: groups.setdefault(nm, []).append(t)
            if f is not None:
                used.add(nm)
                new += f(t)
            elif tm is not None:
                new += tm.axioms(t)
        for nm, ts in groups.items():
            for a, b in itertools.permutations(ts[:14], 2):
                k = (a.get_id(), b.get_id())
                if k in pairs_done: continue
                pairs_done.add(k)
                ck = (k, len(PAIR[nm]))
                hit = PAIRC.get(ck)
                if hit is None:
                    ax = []
                    for f in PAIR[nm]:
                        ax += f(a, b)
                    hit = PAIRC[ck] = (ax, a, b)
                new += hit[0]
        if not new:
            break
        out += new
        work = new
    if pi:
        out += [PI > z3.Q(314159, 100000), PI < z3.Q(31416, 10000)]
    return out, used


# ------------------------------------------------------------------ context
class Obligation:
    def __init__(self, name, status, backend, dt, detail=''):
        self.name, self.status, self.backend, self.dt, self.detail = name, status, backend, dt, detail


class Ctx:
    def __init__(self):
        self.obls: list[Obligation] = []
        self.timeout = 10000
        self.total_time = 0.
        self.branch_timeout = 1500
        self.axioms_used = set()
        self.houdini = {}         # loop key -> dict(alive=set, bufs=set)
        self.hints = []           # candidate-invariant generators
        self.paths = 0
        self.backends = {}
        self.models = []
        self.assumed = []         # texts of assumed contracts used
        self.functions = set()    # functions of /repo executed under contract
        self.inv_loops = {}
        self.deadline = None
        self.sum_templates = {}
        self.born = {}            # objects created inside a symbolic loop body
        self.lemma_cache = {}
        self.elem_hints = []
        self.loopinfo = {}
        self.side_on = True
        self.used_contracts = set()
        self.reset([])

    def reset(self, prefix):
        self.pc = []
        self.recs = [Recorder(prefix)]
        self.cnt = {}
        self.names = {}
        self.journal = []
        self.idx_vars = {}
        self.loop_depth = 0
        self.loop_stack = []
        self.watch = []
        self.suppress = 0
        self.flat_hints = []
        self.known_cache = {}
        self.side_seen = set()
        self.lemma_cache = {}
        self.readers = []
        self.compress_reg = {}
        self.keep = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.branch_timeout)
        self.path_notes = []
        self.facts = set()
        self.elem_hints = []
        self.ghost_dicts = False  # dictionaries built by comprehensions and displays may be written under arbitrary names
        self.name_hints = []      # name expr -> position: candidates for quantified positions of a name
        self.folds = []           # chains of opaque values named by the specification
        self.stubs = {}
        self.item_objs = {}
        self.sum_templates = {}   # definitions and facts belong to one path
        TEMPL.clear()
        PAIR.clear()
        PAIRC.clear()
        self.raw_sums = False     # keep summands as they are (compare sums term by term instead of by normal form)

    def fresh_name(self, base):
        n = self.cnt.get(base, 0)
        self.cnt[base] = n + 1
        return f'{base}!{n}' if n else base

    def const(self, base, sort):
        return z3.Const(self.fresh_name(base), sort)

    def index_var(self, base='i'):
        c = z3.Int(self.fresh_name('$' + base))
        self.idx_vars[c.get_id()] = c
        return c

    def real_var(self, base='x'):
        """a generic (parameter-like) real: sums may depend on it"""
        c = z3.Real(self.fresh_name('$' + base))
        self.idx_vars[c.get_id()] = c
        return c

    def assume(self, e, fact=False):
        """fact: follows from the rest of the path (callee contract, library contract), never a guard"""
        if isinstance(e, S):
            e = e.e
        if isinstance(e, bool):
            e = z3.BoolVal(e)
        if z3.is_and(e):
            for c in e.children():
                self.assume(c, fact)
            return
        if z3.is_true(e):
            return
        self.pc.append(e); self.keep.append(e)
        if fact: self.facts.add(e.get_id())
        self.solver.add(e)
        ax, _ = all_axioms([e], 2)
        if ax:
            self.solver.add(*ax)

    def on_read(self, buf):
        for r in self.readers:
            r(buf)

    def known(self, e):
        if isinstance(e, bool):
            return e
        e = z3.simplify(e)
        if z3.is_true(e): return True
        if z3.is_false(e): return False
        key = (e.get_id(), len(self.pc), self.pc[-1].get_id() if self.pc else 0)
        r = self.known_cache.get(key)
        if r is None:
            r = not self.feasible(z3.Not(e))
            self.known_cache[key] = r
            self.keep.append((e, list(self.pc[-1:])))
        return r

    def side(self, name, goal):
        """a safety obligation generated by the code itself"""
        if self.suppress or not self.side_on:
            return
        goal = z3.simplify(goal)
        if z3.is_true(goal):
            return
        key = (name, goal.get_id(), len(self.pc), self.pc[-1].get_id() if self.pc else 0)
        if key in self.side_seen:
            return
        self.side_seen.add(key)
        self.keep.append((goal, list(self.pc[-1:])))
        fn = self.current_fn()
        if self.known(goal):
            self.obls.append(Obligation(f'{fn}: {name}', 'proved', 'z3', 0.))
            self.backends['z3'] = self.backends.get('z3', 0) + 1
            return
        self.prove(f'{fn}: {name}', goal)

    def current_fn(self):
        import sys
        f = sys._getframe(2)
        while f is not None:
            g = f.f_globals.get('__pv_module__')
            if g:
                return f'{g}:{f.f_code.co_name}'
            f = f.f_back
        return '?'

    def skolem(self, base, sort):
        """fresh constant; a function of the enclosing symbolic loop variables"""
        vs = [l.i for l in self.loop_stack]
        if not vs:
            return self.const(base, sort)
        f = z3.Function(self.fresh_name(base), *[v.sort() for v in vs], sort)
        return f(*vs)

    def assume_post(self, post):
        """a fact established by a callee contract; survives the enclosing symbolic loops"""
        vs = [l.i for l in self.loop_stack]
        if not vs:
            self.assume(post, True)
            return
        base = self.loop_stack[0].npc
        gs = [p for p in self.pc[base:] if p.get_id() not in self.facts]
        guard = z3.And(*gs) if gs else z3.BoolVal(True)
        self.assume(post, True)
        fact = z3.Implies(guard, post)
        for t in subterms([post]).values():
            if z3.is_app(t) and t.num_args() == len(vs) and all(a.eq(v) for a, v in zip(t.children(), vs)):
                add_templ(t.decl(), lambda u, fact=fact, vs=vs: [z3.substitute(fact, *zip(vs, u.children()))])

    def push(self):
        self.solver.push()
        return len(self.pc)

    def pop(self, n):
        self.solver.pop()
        del self.pc[n:]

    # -- branching
    def feasible(self, c):
        self.check_deadline()
        t = time.time()
        self.solver.push()
        ax, _ = all_axioms([c], 2)
        self.solver.add(c, *ax)
        r = self.solver.check()
        self.solver.pop()
        self.total_time += time.time() - t
        return r != z3.unsat

    def check_deadline(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget of the proof exceeded')

    def branch(self, c):
        c = z3.simplify(c if not isinstance(c, bool) else z3.BoolVal(c))
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        rec = self.recs[-1]
        d = rec.next()
        if d is None:
            pc_ids = {p.get_id() for p in self.pc}
            if c.get_id() in pc_ids:
                d = True; rec.add(True, False)
            else:
                t, f = self.feasible(c), self.feasible(z3.Not(c))
                if not t and not f:
                    raise PathEnd()
                if t and f:
                    d = True; rec.add(True, True)
                else:
                    d = t; rec.add(t, False)
        self.assume(c if d else z3.simplify(z3.Not(c)))
        rec.conds.append(c if d else z3.Not(c))
        return d

    def choose(self, name='choice'):
        rec = self.recs[-1]
        d = rec.next()
        if d is None:
            d = True
            rec.add(True, True)
        return d

    # -- obligations
    def prove(self, name, goal, detail='', quiet=False, timeout=None):
        if isinstance(goal, S):
            goal = tobool(goal)
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        t0 = time.time()
        st, be, det = discharge(self, goal, timeout or self.timeout)
        dt = time.time() - t0
        self.total_time += dt
        if not quiet:
            self.obls.append(Obligation(name, st, be, dt, detail or det))
            self.backends[be] = self.backends.get(be, 0) + (st == 'proved')
        return st == 'proved'

    def holds(self, goal, timeout=3000):
        return self.prove('', goal, quiet=True, timeout=timeout)

    def filter_candidates(self, labelled, timeout=1500):
        """labels of the candidates that are not implied by the path"""
        bad = []
        live = [(l, z3.simplify(g)) for l, g in labelled]
        live = [(l, g) for l, g in live if not z3.is_true(g)]
        self.check_deadline()
        t0 = time.time()
        while live:
            neg = z3.Or(*[z3.Not(g) for _, g in live])
            es = list(self.pc) + [neg]
            ax, used = all_axioms(es)
            r, m = z3_check(es + ax, timeout)
            if r == z3.unsat:
                self.axioms_used |= used
                break
            if r == z3.sat:
                drop = [l for l, g in live if z3.is_false(m.eval(g, model_completion=True))]
                if drop:
                    bad += drop
                    live = [(l, g) for l, g in live if l not in drop]
                    continue
            for l, g in list(live):
                if not self.holds_fast(g, timeout): bad.append(l)
            break
        self.total_time += time.time() - t0
        return bad

    def holds_fast(self, goal, timeout=1500):
        goal = z3.simplify(goal)
        if z3.is_true(goal): return True
        if z3.is_false(goal) and not self.pc: return False
        self.check_deadline()
        t0 = time.time()
        es = list(self.pc) + [z3.Not(goal)]
        ax, used = all_axioms(es)
        self.axioms_used |= used
        r, _ = z3_check(es + ax, timeout)
        self.total_time += time.time() - t0
        return r == z3.unsat


class Recorder:
    def __init__(self, prefix):
        self.prefix = prefix
        self.pos = 0
        self.trail = list(prefix)
        self.alts = []
        self.conds = []

    def next(self):
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            return d
        return None

    def add(self, d, alt):
        if alt:
            self.alts.append(self.trail + [not d])
        self.trail.append(d)
        self.pos += 1
        self.prefix = self.trail


CTX = Ctx()


def hint_tuples(n, cap=20):
    """index tuples at which universally quantified facts are instantiated"""
    out = [h if isinstance(h, tuple) else (h,) for h in CTX.elem_hints]
    single = [h[0] for h in out if len(h) == 1]
    out = [h for h in out if len(h) == n]
    if n > 1:
        for t in itertools.product(single, repeat=n):
            if len(out) >= cap: break
            out.append(t)
    return out


def new_ctx(**kw):
    c = CTX
    c.__init__()
    for k, v in kw.items():
        setattr(c, k, v)
    return c


def explore(fn, max_paths=4000, max_restarts=60):
    """Run fn on every path. fn raises nothing on success."""
    c = CTX
    for _ in range(max_restarts):
        saved = len(c.obls)
        stack = [[]]
        n = 0
        try:
            while stack:
                c.check_deadline()
                pre = stack.pop()
                c.reset(pre)
                n += 1
                if n > max_paths:
                    raise Unsupported('too many paths')
                try:
                    fn()
                except PathEnd:
                    pass
                stack.extend(c.recs[0].alts)
            c.paths += n
            return n
        except Restart:
            del c.obls[saved:]
            continue
    raise Unsupported('loop invariants did not stabilise')


# ---------------------------------------------------------------- discharge
def split_and(g):
    if z3.is_and(g):
        for c in g.children():
            yield from split_and(c)
    else:
        yield g


def resolve_ifs(ctx, g):
    """replace the conditions of the conditional terms in g that the path decides"""
    for _ in range(3):
        known = {}
        for p in ctx.pc:
            for q in split_and(p):
                q = z3.simplify(q)
                if z3.is_not(q): known[q.arg(0).get_id()] = False
                else: known[q.get_id()] = True
        sub = []
        for t in subterms([g]).values():
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
                c = t.arg(0)
                v = known.get(c.get_id())
                if v is None and z3.is_not(c) and c.arg(0).get_id() in known: v = not known[c.arg(0).get_id()]
                if v is not None: sub.append((c, z3.BoolVal(v)))
        if not sub: return g
        g = z3.simplify(z3.substitute(g, *sub))
    return g


def discharge(ctx, goal, timeout):
    worst = ('proved', 'trivial', '')
    for g in split_and(z3.simplify(goal, elim_and=False)):
        hyp = None
        if z3.is_implies(g): hyp, con = [g.arg(0)], g.arg(1)
        elif z3.is_or(g) and any(z3.is_not(c) for c in g.children()):
            pos = [c for c in g.children() if not z3.is_not(c)]
            if len(pos) == 1: hyp, con = [c.arg(0) for c in g.children() if z3.is_not(c)], pos[0]
        if hyp and any(z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE for t in subterms([con]).values()):
            n = ctx.push()
            for x in hyp: ctx.assume(x)
            c2 = resolve_ifs(ctx, con)
            r = discharge(ctx, c2, timeout) if not c2.eq(con) else None
            ctx.pop(n)
            if r is not None and r[0] == 'proved':
                if r[1] != 'trivial': worst = r
                continue
        r = discharge1(ctx, g, timeout)
        if r[0] != 'proved':
            return r
        if r[1] != 'trivial':
            worst = r
    return worst


def relevant(pc, goal):
    """pc constraints connected to the goal through shared uninterpreted symbols"""
    def syms(e):
        return {t.decl().name() for t in subterms([e]).values()
                if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED}
    ps = [(p, syms(p)) for p in pc]
    have = syms(goal)
    for _ in range(3):
        new = set(have)
        for p, s in ps:
            if s & have:
                new |= s
        if new == have:
            break
        have = new
    return [p for p, s in ps if (s & have) or not s]


def discharge1(ctx, g, timeout):
    ctx.check_deadline()
    if z3.is_true(g):
        return ('proved', 'trivial', '')
    pc = list(ctx.pc)
    ng = z3.Not(g)
    if g.get_id() in {p.get_id() for p in pc}:
        return ('proved', 'trivial', '')
    lem, used = all_axioms(pc + [ng])
    ctx.axioms_used |= used
    from . import arr
    if arr.sum_apps(pc + lem + [ng]):
        if z3_check(pc + lem + [ng], min(timeout, 600))[0] == z3.unsat:
            return ('proved', 'z3', '')
    lem2 = arr.sum_lemmas(ctx, pc + lem + [ng])
    base = pc + lem + lem2
    quick = min(timeout, 2500)
    r, m = z3_check(base + [ng], quick)
    if r == z3.unsat:
        return ('proved', 'z3', '')
    if r == z3.sat and not z3.is_false(g):
        pass
    sat_model = m if r == z3.sat else None
    if r != z3.sat:
        # z3 with abstraction of uninterpreted applications, nlsat
        r2 = nlsat_check(base + [ng], timeout)
        if r2 == z3.unsat:
            return ('proved', 'z3-nlsat', '')
        if z3.is_eq(g) and g.arg(0).sort() in (R, I) or (z3.is_le(g) or z3.is_ge(g)):
            if ratid(ctx, base, g):
                return ('proved', 'sympy-rational-identity', '')
        r3 = cvc5_check(base + [ng], timeout)
        if r3 == 'unsat':
            return ('proved', 'cvc5', '')
        r4, m = z3_check(base + [ng], timeout, seed=7)
        if r4 == z3.unsat:
            return ('proved', 'z3', '')
        if r4 == z3.sat:
            sat_model = m
    else:
        # sat may be an artefact of UF abstraction (sums etc.): try identity prover
        if z3.is_eq(g) and g.arg(0).sort() in (R, I):
            if ratid(ctx, base, g):
                return ('proved', 'sympy-rational-identity', '')
    if sat_model is not None:
        md = model_text(sat_model)
        ctx.models.append(md)
        return ('refuted', 'z3', f'goal {str(g)[:600]} has counterexample {md}')
    return ('unknown', 'none', f'goal {str(g)[:600]} not discharged')


def model_text(m):
    out = []
    for d in list(m.decls())[:40]:
        if d.arity() == 0:
            out.append(f'{d.name()}={m[d]}')
    return ', '.join(out)[:1500]


def z3_check(es, timeout, seed=1):
    s = z3.Solver()
    s.set('timeout', int(timeout))
    s.set('random_seed', seed)
    s.add(*es)
    r = s.check()
    return r, (s.model() if r == z3.sat else None)


def abstract_ufs(es):
    """replace ground UF applications by constants (+ congruence for few)"""
    memo = subterms(es)
    apps = {}
    for t in memo.values():
        if z3.is_app(t) and t.num_args() > 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if has_var(t):
                return None
            apps[t.get_id()] = t
    # innermost first by size of subterms
    order = sorted(apps.values(), key=lambda t: len(subterms([t])))
    pairs, cong = [], []
    bydecl = {}
    for n, t in enumerate(order):
        c = z3.Const(f'@uf{n}', t.sort())
        pairs.append((t, c))
        bydecl.setdefault(t.decl().name(), []).append((t, c))
    for nm, l in bydecl.items():
        if len(l) <= 6:
            for (t1, c1), (t2, c2) in itertools.combinations(l, 2):
                cong.append(z3.Implies(z3.And(*[a == b for a, b in zip(t1.children(), t2.children())]), c1 == c2))
    rev = list(reversed(pairs))  # outermost first so that whole apps are replaced
    out = []
    for e in es + cong:
        for t, c in rev:
            e = z3.substitute(e, (t, c))
        out.append(e)
    return out


def nlsat_check(es, timeout):
    if any(z3.is_quantifier(t) for t in subterms(es).values()):
        es = [e for e in es if not any(z3.is_quantifier(t) for t in subterms([e]).values())]
    ab = abstract_ufs(es)
    if ab is None:
        return z3.unknown
    for tac in ('nra', 'smt'):
        try:
            if tac == 'nra':
                t = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'elim-term-ite', 'simplify', 'qfnra')
                s = t.solver()
            else:
                s = z3.Solver()
            s.set('timeout', int(timeout))
            s.add(*ab)
            r = s.check()
            if r == z3.unsat:
                return r
        except z3.Z3Exception:
            pass
    return z3.unknown


def cvc5_check(es, timeout):
    s = z3.Solver()
    s.add(*es)
    txt = '(set-logic ALL)\n' + s.to_smt2()
    try:
        p = subprocess.run(['cvc5', '--tlimit', str(int(timeout)), '--quiet', '-'], input=txt, text=True,
                           capture_output=True, timeout=timeout / 1000 + 5)
        o = p.stdout.strip().split('\n')[0]
        return o
    except Exception:
        return 'error'


# rational-function identities -------------------------------------------------
def ratid(ctx, base, g, depth=0):
    """prove A == B (or trivially A<=B by A==B) by normalising A-B to 0/D with D != 0"""
    import sympy
    a, b = g.arg(0), g.arg(1)
    a, b = toreal(a), toreal(b)
    d = a - b
    if depth == 0:
        for e in base:
            if z3.is_eq(e):
                for u, v in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
                    if z3.is_const(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.sort() == v.sort() \
                            and u.sort() in (R, I) and contains(d, [u]) and not contains(v, [u]):
                        d = z3.substitute(d, (u, v))
                        break
        d = z3.simplify(d) if depth == 0 else d
    # case split on ITE conditions
    ite = None
    for t in subterms([d]).values():
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and not has_var(t):
            c = t.arg(0)
            if not any(z3.is_app(u) and u.decl().kind() == z3.Z3_OP_ITE for u in subterms([c]).values()):
                ite = c
                break
    if ite is not None:
        if depth > 7:
            return False
        for val in (True, False):
            lit = ite if val else z3.Not(ite)
            r, _ = z3_check(base + [lit], 1500)
            if r == z3.unsat:
                continue
            d2 = z3.simplify(z3.substitute(d, (ite, z3.BoolVal(val))))
            if not ratid(ctx, base + [lit], d2 == 0 if d2.sort() == R else z3.ToReal(d2) == 0, depth + 1):
                return False
        return True
    syms = {}
    dens = []

    def conv(t):
        if z3.is_rational_value(t):
            f = t.as_fraction()
            return sympy.Rational(f.numerator, f.denominator)
        if z3.is_int_value(t):
            return sympy.Integer(t.as_long())
        k = t.decl().kind() if z3.is_app(t) else None
        ch = t.children()
        if k == z3.Z3_OP_ADD: return sympy.Add(*[conv(c) for c in ch])
        if k == z3.Z3_OP_MUL: return sympy.Mul(*[conv(c) for c in ch])
        if k == z3.Z3_OP_SUB:
            r = conv(ch[0])
            for c in ch[1:]: r = r - conv(c)
            return r
        if k == z3.Z3_OP_UMINUS: return -conv(ch[0])
        if k == z3.Z3_OP_DIV:
            dens.append(ch[1])
            return conv(ch[0]) / conv(ch[1])
        if k == z3.Z3_OP_TO_REAL: return conv(ch[0])
        if k == z3.Z3_OP_POWER and z3.is_int_value(ch[1]):
            return conv(ch[0]) ** ch[1].as_long()
        key = t.get_id()
        if key not in syms:
            syms[key] = (sympy.Symbol(f's{len(syms)}'), t)
        return syms[key][0]
    try:
        e = conv(d)
        n, _ = sympy.fraction(sympy.together(e))
        n = sympy.expand(n)
        if n != 0:
            # reduce modulo sin^2+cos^2=1, sqrt(x)^2=x, rpow
            bysym = {s: t for s, t in syms.values()}
            for s, t in list(syms.values()):
                if z3.is_app(t) and t.decl().eq(sinF):
                    c = conv(cosF(t.arg(0)))
                    n = sympy.expand(sympy.rem(sympy.Poly(n, s), sympy.Poly(s**2 + c**2 - 1, s)).as_expr()) if n != 0 else n
                if z3.is_app(t) and t.decl().eq(sqrtF):
                    r, _ = z3_check(base + [t.arg(0) < 0], 1500)
                    if r != z3.unsat:
                        continue
                    x = conv(t.arg(0))
                    n = sympy.together(sympy.rem(sympy.Poly(n, s), sympy.Poly(s**2 - x, s)).as_expr())
                    n = sympy.expand(sympy.fraction(n)[0])
                if z3.is_app(t) and t.decl().eq(rpowF):
                    c = rconst(t.arg(1))
                    r, _ = z3_check(base + [t.arg(0) < 0], 1500)
                    if r != z3.unsat or c is None or c <= 0:
                        continue
                    x = conv(t.arg(0))
                    n = sympy.together(sympy.rem(sympy.Poly(n, s), sympy.Poly(s**c.denominator - x**c.numerator, s)).as_expr())
                    n = sympy.expand(sympy.fraction(n)[0])
        if n != 0:
            return False
    except Exception:
        return False
    for dn in dens:
        r, _ = z3_check(base + [dn == 0], 2500)
        if r != z3.unsat:
            r = nlsat_check(base + [dn == 0], 4000)
            if r != z3.unsat:
                return False
    return True
