"""Runs the proof cases of one property over the current source of /repo."""
from __future__ import annotations
import os, re, sys, time, json, traceback, importlib, multiprocessing as mp
import z3
from . import core as C
from .core import CTX, S, I, R, B, Unsupported, PathEnd, Restart
from . import arr as A
from .arr import SArr, asarr, dz
from . import loader as LD
from . import loops as L
from . import npm
from . import formula as FM

REPO = os.path.realpath(LD.SRC)
HERE = os.path.dirname(os.path.abspath(__file__))


class Case:
    def __init__(self, name, fn, deadline=120, timeout=10000, models=None, doc='', side=True):
        self.name, self.fn, self.deadline, self.timeout, self.models = name, fn, deadline, timeout, models
        self.doc, self.side = doc, side


class Suite(list):
    def case(self, name, **kw):
        def deco(fn):
            self.append(Case(name, fn, **kw))
            return fn
        return deco


def at(a, *ix):
    if not isinstance(a, SArr): return a if isinstance(a, S) else S(C.lift(a))
    if len(ix) == 1 and isinstance(ix[0], (tuple, list)): ix = tuple(ix[0])
    return S(a.at(*[C.lift(i) for i in ix]))


def b(x):
    """z3 boolean of a symbolic condition"""
    if isinstance(x, SArr): x = x.__pv_scalar__()
    return C.tobool(x)


def imp(p, q):
    return S(z3.Implies(b(p), b(q)))


def iff(p, q):
    return S(b(p) == b(q))


def conj(*xs):
    return S(z3.And(*[b(x) for x in xs])) if xs else S(z3.BoolVal(True))


def disj(*xs):
    return S(z3.Or(*[b(x) for x in xs])) if xs else S(z3.BoolVal(False))


def ite(c, x, y):
    x, y = C.num(x), C.num(y)
    if x.sort() != y.sort(): x, y = C.toreal(x), C.toreal(y)
    return S(z3.If(b(c), x, y))


TRUE = S(z3.BoolVal(True))


class H:
    """what a proof case works with"""

    def __init__(self, ld, case):
        self.ld, self.case = ld, case
        self.prefix = case.name

    def mod(self, name):
        try:
            return self.ld.load('pyhipp.' + name)
        except Exception as e:
            if os.environ.get('PYVC_DEBUG'): traceback.print_exc()
            raise Unsupported(f'loading {name}: {type(e).__name__}: {e}')

    # inputs
    def real(self, name, lo=None, hi=None, gt=None, lt=None):
        s = S(C.CTX.real_var(name)) if False else S(z3.Real(CTX.fresh_name(name)))
        self._rng(s, lo, hi, gt, lt)
        return s

    def int(self, name, lo=None, hi=None):
        s = S(z3.Int(CTX.fresh_name(name)))
        self._rng(s, lo, hi, None, None)
        return s

    def bool(self, name):
        return S(z3.Bool(CTX.fresh_name(name)))

    def _rng(self, s, lo, hi, gt, lt):
        if lo is not None: CTX.assume(s >= lo)
        if hi is not None: CTX.assume(s <= hi)
        if gt is not None: CTX.assume(s > gt)
        if lt is not None: CTX.assume(s < lt)

    def size(self, name='n', lo=0):
        return self.int(name, lo=lo)

    def array(self, name, shape, dt='f8'):
        if not isinstance(shape, tuple): shape = (shape,)
        return A.sym_array(name, shape, dt)

    def idx(self, n, name='j'):
        """a generic index 0 <= j < n"""
        s = S(CTX.index_var(name))
        CTX.assume(z3.And(s.e >= 0, s.e < dz(n if not isinstance(n, S) else n.e)))
        CTX.elem_hints.append(s.e)
        return s

    def hint(self, *ix):
        CTX.elem_hints.append(tuple(C.lift(i) for i in ix))

    def assume(self, c):
        CTX.assume(c if isinstance(c, (S, bool, z3.ExprRef)) else bool(c))

    def assume_all(self, a, pred):
        """for every index of the array: pred(value)"""
        f = a.buf.uf
        nd = len(a._shape)
        shape = [dz(d) for d in a._shape]

        def t(app):
            ix = app.children()[-nd:]
            return [z3.Implies(z3.And(*[z3.And(i >= 0, i < d) for i, d in zip(ix, shape)]),
                               C.tobool(pred(S(app), *[S(i) for i in ix])))]
        C.add_templ(f, t)
        return a

    def assume_rows(self, row, trigger, fact):
        """the fact about the generic row holds for every row; used wherever the trigger (a term that depends on the row) occurs"""
        t, f, r = C.lift(trigger), b(fact), C.lift(row)
        ks = [k for k, c in enumerate(t.children()) if c.eq(r)]
        if not ks or t.decl().kind() != z3.Z3_OP_UNINTERPRETED: raise Unsupported('row fact without trigger')
        C.add_templ(t.decl(), lambda app: [z3.substitute(f, (r, app.arg(ks[0])))])

    def ascending(self, a, strict=True):
        """the (last axis of the) input array is sorted"""
        f = a.buf.uf
        n = dz(a._shape[-1])

        def pr(t1, t2):
            c1, c2 = t1.children(), t2.children()
            i, j = c1[-1], c2[-1]
            pre = [x == y for x, y in zip(c1[:-1], c2[:-1])]
            return [z3.Implies(z3.And(*pre, i >= 0, i < j, j < n), t1 < t2 if strict else t1 <= t2)]
        C.add_pair(f, pr)
        a.buf.sorted = 'strict' if strict else 'weak'
        return a

    def prove(self, name, goal, **kw):
        if isinstance(goal, SArr): goal = goal.__pv_scalar__()
        return CTX.prove(f'{self.prefix}: {name}', goal, **kw)

    def lemma(self, name, goal, **kw):
        """prove, then use"""
        if self.prove(name, goal, **kw):
            CTX.assume(b(goal), True)

    def formula(self, name, a, b):
        """two closed formulas are the same real number (up to the rounding of float literals)"""
        t0 = time.time()
        a, b = FM.decide_ites(z3.simplify(C.toreal(a))), FM.decide_ites(z3.simplify(C.toreal(b)))
        full = f'{self.prefix}: {name}'
        if z3.eq(a, b) or FM.proves(a, b):
            if not z3.eq(a, b): npm.trust('identities of formulas hold where no denominator vanishes; float literals are read up to 1e-11')
            CTX.obls.append(C.Obligation(full, 'proved', 'z3-simplifier' if z3.eq(a, b) else 'rational normal form', time.time() - t0, ''))
            return True
        d = FM.differ(a, b, CTX.pc)
        if d is None: return CTX.prove(full, a == b) if CTX.holds(a == b) else CTX.obls.append(C.Obligation(full, 'unknown', 'rational normal form', time.time() - t0, 'not the same normal form'))
        CTX.obls.append(C.Obligation(full, 'refuted', 'evaluation', time.time() - t0, f'at {d[0]}: code {d[1]!r}, published {d[2]!r}'))

    def derive(self, name, hyps, goal):
        """prove the goal from facts already on the path alone (uninterpreted terms abstracted), then use it"""
        have = {z3.simplify(p).get_id(): p for p in CTX.pc}
        hy = [z3.simplify(b(x)) for x in hyps]
        ok = all(x.get_id() in have or CTX.holds(x) for x in hy)
        g = b(goal)
        if ok:
            t0 = time.time()
            es = C.abstract_ufs(hy + [z3.Not(g)])
            for t in (3000, 20000):
                if es is not None and (C.z3_check(es, t)[0] == z3.unsat or C.nlsat_check(es, t) == z3.unsat):
                    CTX.obls.append(C.Obligation(f'{self.prefix}: {name}', 'proved', 'z3', time.time() - t0, ''))
                    CTX.assume(g, True)
                    return True
        self.lemma(name, goal)

    def nested(self, fn, dims, sort=I):
        """sum over an index box of fn(*indices)"""
        def go(d, ix):
            if not d: return (C.toreal if sort == R else C.lift)(fn(*[S(i) for i in ix]))
            return A.mk_sum(lambda j: go(d[1:], ix + [j]), C.lift(d[0]), sort)
        return S(go(list(dims), []))

    def sum_linear(self, name, parts, whole, dims, sort=I):
        """linearity of finite sums: from (proved) sum of parts == whole at every index to the same for the sums"""
        ix = [self.idx(d) for d in dims]
        t = parts[0](*ix)
        for f in parts[1:]: t = t + f(*ix)
        if self.prove(name + ' (at every index)', t == whole(*ix)):
            npm.trust('linearity of finite sums')
            s = self.nested(parts[0], dims, sort)
            for f in parts[1:]: s = s + self.nested(f, dims, sort)
            CTX.assume(b(s == self.nested(whole, dims, sort)), True)

    def sum_here(self, name, f, g, ix, dims, sort=I):
        """extensionality of finite sums: the summands agree at the arbitrary (fresh, in range) indices ix"""
        if self.prove(name, f(*ix) == g(*ix)):
            npm.trust('extensionality of finite sums')
            CTX.assume(b(self.nested(f, dims, sort) == self.nested(g, dims, sort)), True)

    def sum_ge_term(self, name, f, at_, dims, sort=I):
        """a sum of terms that are not negative is at least any of its terms"""
        ix = [self.idx(d) for d in dims]
        ok = self.prove(name + ': terms are not negative', f(*ix) >= 0)
        ok &= self.prove(name + ': one of the terms', conj(*[conj(S(C.lift(t)) >= 0, S(C.lift(t)) < S(C.lift(d))) for t, d in zip(at_, dims)]))
        if ok:
            npm.trust('a finite sum of non-negative terms is at least any of them')
            CTX.assume(b(self.nested(f, dims, sort) >= f(*at_)), True)

    def floors(self, expr, q, hyps, k=None):
        """rewrite: arguments of floor/ceil in the expression that the facts prove equal to q (or -q) are replaced by it"""
        q, e = C.toreal(q), C.lift(expr)
        if k is not None and not CTX.holds(z3.ToInt(q) == C.lift(k)): k = None
        have = {z3.simplify(p).get_id(): p for p in CTX.pc}
        hy = [z3.simplify(b(x)) for x in hyps]
        if not all(x.get_id() in have or CTX.holds(x) for x in hy): return S(e)
        for t in list(C.subterms([e]).values()):
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_INT:
                for c in (q, -q):
                    es = C.abstract_ufs(hy + [z3.Not(t.arg(0) == c)])
                    if es is not None and (C.z3_check(es, 2000)[0] == z3.unsat or C.nlsat_check(es, 5000) == z3.unsat):
                        e = z3.substitute(e, (t, C.lift(k) if k is not None and c is q else z3.ToInt(c)))
                        break
        return S(e)

    def eq(self, name, a, b, **kw):
        """scalar or structural equality obligation"""
        if isinstance(a, SArr) and a.ndim == 0: a = a.__pv_scalar__()
        if isinstance(b, SArr) and b.ndim == 0: b = b.__pv_scalar__()
        x, y = C.num(a), C.num(b)
        if x.sort() != y.sort(): x, y = C.toreal(a), C.toreal(b)
        return self.prove(name, x == y, **kw)

    def eqarr(self, name, a, b):
        """same shape and, at a generic index, same value"""
        if not self.shape(name + ' (shape)', a, b._shape if isinstance(b, SArr) else tuple(b.shape)): return
        ix = [self.idx(d) for d in a._shape]
        self.eq(name, S(a.at(*[C.lift(i) for i in ix])), S(b.at(*[C.lift(i) for i in ix])))

    def shape(self, name, a, shape):
        a = a if isinstance(a, SArr) else asarr(a)
        if len(a._shape) != len(shape):
            self.prove(name, False)
            return False
        return self.prove(name, z3.And(*[dz(x) == dz(y if not isinstance(y, S) else y.e) for x, y in zip(a._shape, shape)])
                          if shape else z3.BoolVal(True))

    def same_object(self, name, a, b):
        self.prove(name, z3.BoolVal(a is b))

    def independent(self, name, a, b):
        """no storage is shared (frame condition)"""
        ra, rb = a.buf.alias or a.buf, b.buf.alias or b.buf
        if ra is rb and any(getattr(x.buf, 'maybe', False) for x in (a, b)): raise Unsupported('a reshaped view or a copy')
        self.prove(name, z3.BoolVal(ra is not rb))

    def unchanged(self, name, a, snap):
        """frame: a still has the values of the snapshot"""
        ix = [C.lift(self.idx(d, 'f')) for d in a._shape]
        self.eq(name, S(a.at(*ix)), S(snap(tuple(ix))))

    def raises(self, name, exc, fn):
        try:
            fn()
        except exc:
            self.prove(name, True)
            return
        except (Unsupported, PathEnd, Restart):
            raise
        except Exception as e:
            if from_engine(e):
                raise Unsupported(f'{type(e).__name__} in the engine: {e}')
            self.prove(f'{name} (raised {type(e).__name__})', False)
            return
        self.prove(name, False)

    def replace(self, modname, attr, fn):
        """callee contract: the caller is checked against fn instead of the body"""
        m = self.mod(modname)
        obj = m
        parts = attr.split('.')
        for p in parts[:-1]: obj = getattr(obj, p)
        setattr(obj, parts[-1], fn)


def from_engine(e):
    if isinstance(e, (TypeError, AttributeError)) and (ENGINE_NAMES.search(str(e)) or "'function' object " in str(e)): return True
    if isinstance(e, TypeError) and (m := re.match(r'([\w.<>]+)\(\) (got|takes|missing)', str(e))) and model_name(m.group(1)): return True
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb
        tb = tb.tb_next
    fn = os.path.abspath(last.tb_frame.f_code.co_filename)
    return not fn.startswith(REPO)


def model_name(q):
    """the qualified name is one of the library models, called with an option they do not have"""
    top, _, rest = q.partition('.')
    for m in (npm, A, C, L):
        o = vars(m).get(top)
        if o is None: continue
        if '<locals>' in rest or not rest: return callable(o)
        for r in rest.split('.'): o = getattr(o, r, None)
        if o is not None: return True
    return False


class Prof:
    """names of the /repo functions that ran symbolically"""

    def __init__(self): self.seen = set()

    def __call__(self, frame, ev, arg):
        if ev == 'call':
            g = frame.f_globals.get('__pv_module__')
            if g and frame.f_code.co_flags & 1 and '__create_fn__' not in frame.f_code.co_qualname: self.seen.add((g, frame.f_code.co_qualname))


ENGINE_NAMES = re.compile(r"\b(SymIter|GhostMap|MList|Seg|SArr|SRange|MapItems|Alt|Poison|Stub\w*|\w*NumMeta)\b|'(S|Obj|Name|Tup|Key|Val|map_|float_|int_|bool_|list_|tuple_)'")


def until():
    """the time at which the run of the whole check has to have finished its proofs"""
    return float(os.environ.get('PYVC_UNTIL', 'inf'))


def run_case(prop, k):
    suite = importlib.import_module(f'pyvc.spec.{prop}').suite
    case = suite[k]
    t0 = time.time()
    C.new_ctx(timeout=case.timeout * float(os.environ.get('PYVC_SLOW', '1')), deadline=min(time.time() + case.deadline * float(os.environ.get('PYVC_SLOW', '1')), until()), side_on=case.side)
    npm.TRUSTED.clear()
    out = dict(case=case.name, status='ok', detail='', functions=[], obls=[])
    prof = Prof()
    done = [0]
    try:
        ld = LD.new_loader(case.models() if case.models else None)

        def body():
            ld.restore()
            h = H(ld, case)
            sys.setprofile(prof)
            try:
                try:
                    case.fn(h)
                finally:
                    sys.setprofile(None)
            except (Unsupported, PathEnd, Restart):
                raise
            except Exception as e:
                if os.environ.get('PYVC_DEBUG'): traceback.print_exc()
                if from_engine(e) and not getattr(e, 'pv_modelled', False):
                    tb = traceback.extract_tb(e.__traceback__)
                    raise Unsupported(f'{type(e).__name__}: {e} at {os.path.basename(tb[-1].filename)}:{tb[-1].lineno}')
                tb = [f for f in traceback.extract_tb(e.__traceback__) if os.path.abspath(f.filename).startswith(REPO)]
                where = tb[-1].name if tb else '?'
                CTX.prove(f'{case.name}: {where} raises nothing on a valid input', False, detail=f'{type(e).__name__}: {e}')
                return
            # vacuity: the end of at least one path must be reachable
            if CTX.recs[0].pos >= 0:
                ax, _ = C.all_axioms(CTX.pc)
                r, _ = C.z3_check(CTX.pc + ax + A.sum_lemmas(CTX, CTX.pc + ax), 1500)
                if r != z3.unsat:
                    done[0] += 1
        n = C.explore(body)
        out['paths'] = n
        if done[0] == 0 and all(o.status == 'proved' for o in CTX.obls):
            out['status'] = 'unsupported'; out['detail'] = 'vacuous: no completed path'
        if not CTX.obls:
            out['status'] = 'unsupported'; out['detail'] = 'no obligations generated'
    except Unsupported as e:
        out['status'] = 'unsupported'; out['detail'] = str(e)[:500]
        if os.environ.get('PYVC_DEBUG'): traceback.print_exc()
    except RecursionError as e:
        out['status'] = 'unsupported'; out['detail'] = 'recursion limit'
    except Exception as e:
        if os.environ.get('PYVC_DEBUG'): traceback.print_exc()
        out['status'] = 'unsupported'
        tb = traceback.extract_tb(e.__traceback__)
        out['detail'] = f'engine: {type(e).__name__}: {e} at {tb[-1].filename.split("/")[-1]}:{tb[-1].lineno}'[:500]
    out['functions'] = sorted(f'{m}:{q}' for m, q in prof.seen if not q.startswith('<') and '<module>' not in q)
    out['obls'] = [(o.name, o.status, o.backend, round(o.dt, 3), o.detail[:1500]) for o in CTX.obls]
    out['trusted'] = sorted(npm.TRUSTED)
    out['axioms'] = sorted(C.AXIOM_TEXT[a] for a in CTX.axioms_used if a in C.AXIOM_TEXT)
    out['contracts'] = sorted(CTX.used_contracts)
    out['wall'] = round(time.time() - t0, 2)
    return out


def _worker(args):
    sys.setrecursionlimit(20000)
    try:
        return run_case(*args)
    except BaseException as e:
        return dict(case=str(args), status='unsupported', detail=f'{type(e).__name__} {e}', functions=[], obls=[], trusted=[],
                    axioms=[], contracts=[], wall=0)


def run(prop, only=None, jobs=8, names=None):
    suite = importlib.import_module(f'pyvc.spec.{prop}').suite
    ks = [k for k, c in enumerate(suite) if (only is None or only in c.name) and (names is None or c.name in names)]
    if jobs == 1 or len(ks) == 1:
        return [_worker((prop, k)) for k in ks]
    with mp.get_context('fork').Pool(min(jobs, len(ks)), maxtasksperchild=1) as p:
        rs, out = [p.apply_async(_worker, ((prop, k),)) for k in ks], []
        for k, r in zip(ks, rs):
            try:
                t = until() + 30 - time.time()
                out.append(r.get(None if t == float('inf') else max(t, .01)))
            except mp.TimeoutError:
                out.append(dict(case=suite[k].name, status='unsupported', detail='out of time', functions=[], obls=[], trusted=[],
                                axioms=[], contracts=[], wall=0))
        p.terminate()
        return out


if __name__ == '__main__':
    prop = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    bad = 0
    for r in run(prop, only, 1 if os.environ.get('PYVC_DEBUG') else 8):
        n = len(r['obls']); ok = sum(o[1] == 'proved' for o in r['obls'])
        print(f"{r['case']:<50} {r['status']:<12} {ok}/{n} paths={r.get('paths')} {r['wall']}s {r['detail']}")
        for o in r['obls']:
            if o[1] != 'proved':
                print('    FAILED', o[0], o[1], o[4][:int(os.environ.get('PYVC_W', '700'))])
                bad += 1
        if os.environ.get('PYVC_V'):
            for o in r['obls']: print('     ', o[:4])
            print('      functions', r['functions']); print('      trusted', r['trusted'])
