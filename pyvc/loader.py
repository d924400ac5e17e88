"""Loads modules of /repo/src/pyhipp from their current source: ast -> mechanical rewriting -> exec with model
libraries.  What the rewriting does: loops call the loop rules, list displays/comprehensions create journaled
lists, conditional expressions on symbolic scalars become ite, augmented assignments on elements become
accumulating stores, generator functions return their items eagerly, attribute assignment is checked inside
symbolic loops.  Nothing else is dropped; annotations and decorators jitclass/njit are identity."""
from __future__ import annotations
import ast, os, sys, types, importlib, builtins, numbers, collections, collections.abc
import z3
from .core import *
from . import core as C, arr as A, loops as L, ghost as G
from .core import CTX, S, Unsupported
from .arr import SArr, dim, dimS

SRC = os.environ.get('PYVC_SRC', '/repo/src')


# ------------------------------------------------------------------ AST transformation
def assigned_names(stmts):
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in out: out.append(n.id)
        def visit_FunctionDef(self, n):
            if n.name not in out: out.append(n.name)
        def visit_Lambda(self, n): pass
        def visit_ClassDef(self, n): pass
        def visit_ListComp(self, n): pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
    v = V()
    for s in stmts: v.visit(s)
    return [n for n in out if not n.startswith('__pv_')]


def has_exit(stmts):
    """break of this loop, or return, inside the statements"""
    def walk(n, inloop):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): return False
        if isinstance(n, ast.Return): return True
        if isinstance(n, ast.Break) and not inloop: return True
        for c in ast.iter_child_nodes(n):
            il = inloop or (isinstance(n, (ast.For, ast.While)) and c in n.body)
            if walk(c, il): return True
        return False
    return any(walk(s, False) for s in stmts)


def N(name): return ast.Name(name, ast.Load())
def pv(attr): return ast.Attribute(N('__pv__'), attr, ast.Load())
def call(f, *a): return ast.Call(f, list(a), [])
def const(v): return ast.Constant(v)


class Xf(ast.NodeTransformer):
    def __init__(self, mod):
        self.mod, self.n, self.func = mod, 0, []

    def uid(self):
        self.n += 1
        return self.n

    def visit_FunctionDef(self, node):
        self.func.append(node.name)
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in self.own_nodes(node))
        node.args = self.strip_args(node.args)
        node.returns = None
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.body = self.block(node.body)
        if gen:
            node.body = [ast.Assign([ast.Name('__pv_out', ast.Store())], call(pv('MList')))] + node.body + [
                ast.Return(call(pv('eager'), N('__pv_out')))]
            class Y(ast.NodeTransformer):
                def visit_FunctionDef(s, n): return n
                def visit_Lambda(s, n): return n
                def visit_Yield(s, n):
                    return call(ast.Attribute(N('__pv_out'), 'append', ast.Load()), n.value or const(None))
                def visit_YieldFrom(s, n):
                    return call(ast.Attribute(N('__pv_out'), 'extend', ast.Load()), n.value)
                def visit_Return(s, n):
                    return n if isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr == 'eager' \
                        else ast.Return(call(pv('eager'), N('__pv_out')))
            node.body = [Y().visit(s) for s in node.body]
        self.func.pop()
        return node

    def own_nodes(self, fn):
        st = list(fn.body)
        while st:
            n = st.pop()
            yield n
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)): continue
            st.extend(ast.iter_child_nodes(n))

    def strip_args(self, a):
        for x in a.posonlyargs + a.args + a.kwonlyargs + ([a.vararg] if a.vararg else []) + ([a.kwarg] if a.kwarg else []):
            x.annotation = None
        a.defaults = [self.visit(d) for d in a.defaults]
        a.kw_defaults = [self.visit(d) if d is not None else None for d in a.kw_defaults]
        return a

    def visit_Lambda(self, node):
        node.args = self.strip_args(node.args)
        node.body = self.visit(node.body)
        return node

    def visit_ClassDef(self, node):
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.bases = [self.visit(b) for b in node.bases]
        node.body = [self.visit(s) if isinstance(s, (ast.FunctionDef, ast.ClassDef)) else s for s in node.body]
        return node

    def visit_AnnAssign(self, node):
        if not self.func:
            return node
        if node.value is None:
            return ast.Pass()
        return self.visit(ast.copy_location(ast.Assign([node.target], node.value), node))

    def block(self, stmts):
        out = []
        for s in stmts:
            r = self.visit(s)
            if r is None: continue
            out.extend(r if isinstance(r, list) else [r])
        return out or [ast.Pass()]

    def rebinding(self, lv, names):
        out = []
        for n in names:
            out.append(ast.If(call(ast.Attribute(N(lv), 'has', ast.Load()), const(n)),
                              [ast.Assign([ast.Name(n, ast.Store())], call(ast.Attribute(N(lv), 'ld', ast.Load()), const(n)))], []))
        return out

    def visit_For(self, node):
        if not self.func:
            return self.generic_visit(node)
        k = self.uid()
        iv, lv = f'__pv_it{k}', f'__pv_L{k}'
        key = f'{self.mod}:{".".join(self.func)}#{k}'
        names = assigned_names([ast.Assign([node.target], const(0))] + node.body)
        ex = has_exit(node.body)
        import copy
        body1, body2 = self.block(copy.deepcopy(node.body)), self.block(node.body)
        orelse = self.block(node.orelse) if node.orelse else []
        it = self.visit(node.iter)
        tgt = node.target
        sym = [ast.Assign([ast.Name(lv, ast.Store())],
                          call(pv('ForLoop'), const(key), N(iv), ast.Tuple([const(n) for n in names], ast.Load()), const(ex))),
               ast.For(ast.Name(f'__pv_x{k}', ast.Store()), call(ast.Attribute(N(lv), 'runs', ast.Load())),
                       self.rebinding(lv, names) + [
                           ast.Try([ast.Assign([tgt], call(ast.Attribute(N(lv), 'item', ast.Load())))] + body1,
                                   [ast.ExceptHandler(pv('BaseException'), f'__pv_e{k}',
                                                      [ast.Expr(call(ast.Attribute(N(lv), 'exited', ast.Load()), N(f'__pv_e{k}')))])],
                                   [], [])], orelse)]
        for n in names:
            sym.append(ast.If(call(ast.Attribute(N(lv), 'fin', ast.Load()), const(n)),
                              [ast.Assign([ast.Name(n, ast.Store())], call(ast.Attribute(N(lv), 'final', ast.Load()), const(n)))], []))
        conc = ast.For(copy.deepcopy(tgt), N(iv), body2, copy.deepcopy(orelse))
        return [ast.Assign([ast.Name(iv, ast.Store())], call(pv('iter_'), it)),
                ast.If(call(pv('is_sym'), N(iv)), sym, [conc])]

    def visit_While(self, node):
        if not self.func:
            return self.generic_visit(node)
        k = self.uid()
        lv, cv = f'__pv_L{k}', f'__pv_c{k}'
        names = assigned_names(node.body)
        key = f'{self.mod}:{".".join(self.func)}#w{k}'
        test = self.visit(node.test)
        body = self.block(node.body)
        return [ast.Assign([ast.Name(lv, ast.Store())],
                           call(pv('WhileLoop'), const(key), ast.Tuple([const(n) for n in names], ast.Load()))),
                ast.For(ast.Name(f'__pv_x{k}', ast.Store()), call(ast.Attribute(N(lv), 'runs', ast.Load())),
                        self.rebinding(lv, names) + [
                            ast.Assign([ast.Name(cv, ast.Store())], call(ast.Attribute(N(lv), 'cond', ast.Load()), test)),
                            ast.If(ast.Compare(N(cv), [ast.Is()], [const(None)]), [ast.Continue()], []),
                            ast.If(ast.UnaryOp(ast.Not(), N(cv)), [ast.Break()], [])] + body, [])]

    OPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
           ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^', ast.MatMult: '@', ast.LShift: '<<', ast.RShift: '>>'}

    def visit_AugAssign(self, node):
        if not self.func:
            return node
        op = self.OPS[type(node.op)]
        val = self.visit(node.value)
        t = node.target
        if isinstance(t, ast.Subscript):
            return ast.Expr(call(pv('aug'), self.visit(t.value), self.index(t.slice), const(op), val))
        if isinstance(t, ast.Name):
            return ast.Assign([ast.Name(t.id, ast.Store())], call(pv('iaug'), N(t.id), const(op), val))
        if isinstance(t, ast.Attribute):
            return ast.Expr(call(pv('augattr'), self.visit(t.value), const(t.attr), const(op), val))
        return node

    def index(self, sl):
        sl = self.visit(sl)
        if isinstance(sl, ast.Slice):
            return call(N('__pv_slice__'), sl.lower or const(None), sl.upper or const(None), sl.step or const(None))
        if isinstance(sl, ast.Tuple):
            return ast.Tuple([self.index2(x) for x in sl.elts], ast.Load())
        return sl

    def index2(self, x):
        if isinstance(x, ast.Slice):
            return call(N('__pv_slice__'), x.lower or const(None), x.upper or const(None), x.step or const(None))
        return x

    def visit_Assign(self, node):
        if self.func and len(node.targets) == 1 and isinstance(node.targets[0], ast.Attribute):
            t = node.targets[0]
            return ast.Expr(call(pv('setattr_'), self.visit(t.value), const(self.mangle(t.attr)), self.visit(node.value)))
        t = node.targets[0]
        if self.func and len(node.targets) == 1 and isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(e, ast.Starred) for e in t.elts):
            p = next(i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred))
            elts = [e.value if isinstance(e, ast.Starred) else e for e in t.elts]
            return ast.Assign([ast.Tuple([self.visit(e) for e in elts], ast.Store())],
                              call(pv('unstar'), self.visit(node.value), const(p), const(len(elts) - p - 1)))
        e = self.aug_form(node) if self.func else None
        if e is not None:
            op, val = e
            z = ast.arguments([], [], None, [], [], None, [])
            return ast.Expr(call(pv('augset'), self.visit(t.value), self.index(t.slice), const(op), self.visit(val), ast.Lambda(z, self.visit(node.value))))
        return self.generic_visit(node)

    def aug_form(self, node):
        """(op, e) when the statement reads x[i] = x[i] op e or x[i] = e + x[i]"""
        t, v = node.targets[0], node.value
        if len(node.targets) != 1 or not isinstance(t, ast.Subscript) or not isinstance(v, ast.BinOp) or not isinstance(v.op, (ast.Add, ast.Sub)): return
        if any(not isinstance(n, (ast.Name, ast.Attribute, ast.Constant, ast.Slice, ast.Tuple, ast.Subscript, ast.BinOp, ast.UnaryOp, ast.expr_context, ast.operator, ast.unaryop))
               for n in ast.walk(t)): return
        same = lambda x: isinstance(x, ast.Subscript) and ast.unparse(x) == ast.unparse(t)
        if same(v.left): return self.OPS[type(v.op)], v.right
        if isinstance(v.op, ast.Add) and same(v.right): return '+', v.left

    def mangle(self, attr):
        return attr      # private names are mangled by the call site wrapper below

    def visit_List(self, node):
        self.generic_visit(node)
        if self.func and isinstance(node.ctx, ast.Load):
            return call(pv('MList'), node)
        return node

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        if not self.func or any(isinstance(v, ast.FormattedValue) and v.format_spec is not None for v in node.values):
            return node
        import copy
        parts, names = [], []
        for v in node.values:
            if isinstance(v, ast.Constant): parts.append(ast.Tuple([v, const(-1), const(None)], ast.Load()))
            else: parts.append(ast.Tuple([v.value, const(v.conversion), const(None)], ast.Load()))
        return call(pv('fstr'), *parts)

    def visit_Call(self, node):
        self.generic_visit(node)
        if self.func:
            for k in node.keywords:
                if k.arg is None: k.value = call(pv('kw_of'), k.value)
        return node

    def visit_Dict(self, node):
        self.generic_visit(node)
        if self.func and not any(k is None for k in node.keys): return call(pv('mkdict'), node)
        return node

    def visit_ListComp(self, node):
        return self.comp(node, 'MList')

    def visit_GeneratorExp(self, node):
        return self.comp(node, 'gen')

    def visit_DictComp(self, node):
        return self.comp(node, 'dict')

    def comp(self, node, kind):
        if self.func and len(node.generators) > 1 and kind != 'dict': return self.comps(node, kind)
        if not self.func or len(node.generators) != 1:
            return self.generic_visit(node)
        elt = ast.Tuple([self.visit(node.key), self.visit(node.value)], ast.Load()) if kind == 'dict' else self.visit(node.elt)
        g = node.generators[0]
        k = self.uid()
        arg = f'__pv_a{k}'

        def lam(body):
            if isinstance(g.target, ast.Name):
                return ast.Lambda(ast.arguments([], [ast.arg(g.target.id)], None, [], [], None, []), body)
            names = [e.id for e in ast.walk(g.target) if isinstance(e, ast.Name)]
            import copy
            # unpack through a helper comprehension
            inner = ast.ListComp(body, [ast.comprehension(copy.deepcopy(g.target), ast.Tuple([N(arg)], ast.Load()), [], 0)])
            return ast.Lambda(ast.arguments([], [ast.arg(arg)], None, [], [], None, []),
                              ast.Subscript(inner, const(0), ast.Load()))
        f = lam(elt)
        conds = [self.visit(c) for c in g.ifs]
        c = const(None)
        if conds:
            c = lam(conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds))
        key = f'{self.mod}:{".".join(self.func)}#c{k}'
        return call(pv({'MList': 'listcomp', 'gen': 'gencomp', 'dict': 'dictcomp'}[kind]), f, self.visit(g.iter), c, const(key))

    def comps(self, node, kind):
        """comprehension over several iterables: functions of the targets so far"""
        import copy
        k = self.uid()

        def lam(n, body):
            args = [f'__pv_a{k}_{i}' for i in range(n)]
            gens = [ast.comprehension(copy.deepcopy(g.target), ast.Tuple([N(a)], ast.Load()), [], 0) for g, a in zip(node.generators, args)]
            if gens: body = ast.Subscript(ast.ListComp(body, gens), const(0), ast.Load())
            return ast.Lambda(ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []), body)
        tup = lambda xs: ast.Tuple(list(xs), ast.Load())
        its = [lam(i, self.visit(g.iter)) for i, g in enumerate(node.generators)]
        conds = [tup(lam(i + 1, self.visit(c)) for c in g.ifs) for i, g in enumerate(node.generators)]
        return call(pv('multigen' if kind == 'gen' else 'multicomp'), tup(its), tup(conds), lam(len(node.generators), self.visit(node.elt)),
                    const(f'{self.mod}:{".".join(self.func)}#c{k}'))

    def simple(self, t): return True

    def visit_IfExp(self, node):
        self.generic_visit(node)
        if not self.func:
            return node
        z = ast.arguments([], [], None, [], [], None, [])
        return call(pv('ifexp'), node.test, ast.Lambda(z, node.body), ast.Lambda(z, node.orelse))

    def visit_Compare(self, node):
        self.generic_visit(node)
        if self.func and len(node.ops) > 1:
            # a < b < c with symbolic operands: and of comparisons (python semantics through bool())
            return node
        if self.func and len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            r = call(pv('in_'), node.left, node.comparators[0])
            return r if isinstance(node.ops[0], ast.In) else ast.UnaryOp(ast.Not(), r)
        if self.func and len(node.ops) == 1 and isinstance(node.ops[0], (ast.Is, ast.IsNot)) and isinstance(node.comparators[0], ast.Constant) \
                and node.comparators[0].value is None:
            r = call(pv('is_none'), node.left)
            return r if isinstance(node.ops[0], ast.Is) else ast.UnaryOp(ast.Not(), r)
        return node


class Mangler(ast.NodeTransformer):
    """apply class-private name mangling to the string constants given to setattr_/augattr"""

    def __init__(self): self.cls = []

    def visit_ClassDef(self, n):
        self.cls.append(n.name)
        self.generic_visit(n)
        self.cls.pop()
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('setattr_', 'augattr') and isinstance(n.func.value, ast.Name) \
                and n.func.value.id == '__pv__' and self.cls:
            a = n.args[1].value
            if a.startswith('__') and not a.endswith('__'):
                n.args[1] = const('_' + self.cls[-1].lstrip('_') + a)
        return n


class UnpackErr(ValueError):
    pv_modelled = True


# ------------------------------------------------------------------ runtime support object
class PV:
    MList = staticmethod(lambda x=(): L.MList(x))
    ForLoop = L.ForLoop
    WhileLoop = L.WhileLoop
    listcomp = staticmethod(L.listcomp)
    dictcomp = staticmethod(G.dictcomp)
    kw_of = staticmethod(G.kw_of)
    BaseException = BaseException

    @staticmethod
    def unstar(x, a, b):
        """the parts of a sequence for a, *rest, b = x"""
        it = L.as_iter(x)
        if not isinstance(it, L.SymIter):
            it = list(it)
            if len(it) < a + b: raise ValueError(f'not enough values to unpack (expected at least {a + b}, got {len(it)})')
            return (*it[:a], L.MList(it[a:len(it) - b]), *it[len(it) - b:])
        l = L.listcomp(lambda v: v, it, None, 'unpack')
        n = L.seg_n(l)
        if not CTX.known(A.dz(n) >= a + b) and not CTX.branch(A.dz(n) >= a + b): raise UnpackErr('not enough values to unpack')
        return (*[l[i] for i in range(a)], l[a:S(z3.simplify(A.dz(n) - b))], *[l[i - b] for i in range(b)])

    @staticmethod
    def mkdict(d):
        if not CTX.ghost_dicts: return d
        m = G.GhostMap.empty()
        for k, v in d.items(): m[k] = v
        return m

    @staticmethod
    def fstr(*parts):
        r = G.fstr(parts)
        if r is not None: return r
        conv = {-1: format, 115: str, 114: repr, 97: ascii}
        return ''.join(conv[c](v) for v, c, _ in parts)

    @staticmethod
    def gencomp(fn, it, cond, key):
        r = L.listcomp(fn, it, cond, key)
        return r if r.has_seg() else iter(list(r))

    @staticmethod
    def eager(out):
        return out if out.has_seg() else iter(list(out))

    @staticmethod
    def iter_(x):
        return L.as_iter(x)

    @staticmethod
    def is_sym(x):
        return isinstance(x, L.SymIter)

    @staticmethod
    def augset(obj, key, op, val, full):
        vk = val.k if isinstance(val, (SArr, S)) else 'r' if isinstance(val, float) else 'i'
        if isinstance(obj, SArr) and obj.k != 'b' and vk != 'b' and (obj.k == 'r' or vk == 'i'): PV.aug(obj, key, op, val)
        else: obj[key] = full()

    @staticmethod
    def multicomp(its, conds, elt, key):
        out = L.MList()

        def run(lv, env):
            if lv == len(its):
                out.append(elt(*env))
                return

            def body(x):
                e = env + (x,)
                if all(c(*e) for c in conds[lv]): run(lv + 1, e)
            it = L.as_iter(its[lv](*env))
            if isinstance(it, L.SymIter):
                lp = L.ForLoop(f'{key}.{lv}', it, (), False)
                L.drv(lp, lambda: body(lp.item()))
            else:
                for x in it: body(x)
        run(0, ())
        return out

    @staticmethod
    def multigen(*a):
        return PV.eager(PV.multicomp(*a))

    @staticmethod
    def aug(obj, key, op, val):
        if isinstance(obj, SArr):
            if op in ('+', '-') :
                if obj.k == 'b': raise Unsupported('in-place arithmetic on booleans')
                vk = val.k if isinstance(val, (SArr, S)) else ('r' if isinstance(val, float) else 'i')
                if obj.k == 'i' and vk == 'r':
                    sub = obj[key]
                    if isinstance(sub, SArr): raise TypeError('cannot cast in-place result from float to int')
                    obj[key] = sub + val if op == '+' else sub - val
                    return
                fancy = False
                kk = key if isinstance(key, tuple) else (key,)
                if any(isinstance(k, (SArr, list)) and not (isinstance(k, SArr) and k.k == 'b') for k in kk):
                    fancy = True
                if not fancy:
                    A.setitem(obj, key, val, op)
                    return
            sub = obj[key]
            obj[key] = A.binop(op, sub, val) if isinstance(sub, (SArr, S)) else binpy(op, sub, val)
            return
        cur = obj[key]
        obj[key] = PV.iaug(cur, op, val)

    @staticmethod
    def iaug(cur, op, val):
        if isinstance(cur, SArr):
            if op in ('+', '-') and cur.k != 'b':
                PV.aug(cur, Ellipsis, op, val)
                return cur
            return cur._inplace(op, val) if op in ('*', '/', '//', '%', '**', '&', '|') else binpy(op, cur, val)
        return inpy(op, cur, val)

    @staticmethod
    def augattr(obj, name, op, val):
        PV.setattr_(obj, name, PV.iaug(getattr(obj, name), op, val))

    @staticmethod
    def setattr_(obj, name, val):
        if CTX.item_objs.get(id(obj)) is obj: raise Unsupported(L.ITEM)
        if CTX.loop_depth > 0:
            d = getattr(obj, '__dict__', None)
            if d is not None and not d:
                CTX.born[id(obj)] = (obj, CTX.loop_stack[-1] if CTX.loop_stack else None)
            elif d is not None and name in d and d[name] is not val:
                o, l = CTX.born.get(id(obj), (None, None))
                if o is not obj or not CTX.loop_stack or l is not CTX.loop_stack[-1]:
                    CTX.journal.append(('attr', obj, name))
        setattr(obj, name, val)

    @staticmethod
    def in_(x, c):
        if isinstance(x, S) and isinstance(c, (tuple, list)):
            r = False
            for y in c:
                e = x == y
                if isinstance(e, S) or e: 
                    r = e if r is False else (r | e)
            return r if not isinstance(r, S) else bool(r)
        return x in c

    @staticmethod
    def is_none(x):
        return x.__pv_isnone__() if hasattr(type(x), '__pv_isnone__') else x is None

    @staticmethod
    def ifexp(c, fa, fb):
        if isinstance(c, SArr): c = c.__pv_scalar__() if c.ndim == 0 else bool(c)
        if not isinstance(c, S):
            return fa() if c else fb()
        e = z3.simplify(C.tobool(c))
        if z3.is_true(e): return fa()
        if z3.is_false(e): return fb()
        ne = z3.simplify(z3.Not(e))
        if CTX.known(e): return fa()
        if CTX.known(ne): return fb()
        # try to merge without forking
        vals = []
        jm = len(CTX.journal)
        try:
            for cond, f in ((e, fa), (ne, fb)):
                n = CTX.push()
                CTX.assume(cond)
                CTX.recs.append(NoBranch())
                try:
                    vals.append(f())
                finally:
                    CTX.recs.pop()
                    CTX.pop(n)
            if len(CTX.journal) == jm and all(isinstance(v, (S, int, float, bool)) for v in vals):
                return L.merge([(e, vals[0]), (ne, vals[1])])
        except (MustFork, Unsupported, AssertionError, ValueError, TypeError, IndexError, KeyError):
            pass
        return fa() if CTX.branch(e) else fb()


class MustFork(Exception):
    pass


class NoBranch:
    conds = ()

    def next(self): raise MustFork()
    def add(self, *a): raise MustFork()


def binpy(op, a, b):
    import operator as o
    return {'+': o.add, '-': o.sub, '*': o.mul, '/': o.truediv, '//': o.floordiv, '%': o.mod, '**': o.pow, '&': o.and_,
            '|': o.or_, '^': o.xor, '@': o.matmul}[op](a, b)


def inpy(op, a, b):
    import operator as o
    return {'+': o.iadd, '-': o.isub, '*': o.imul, '/': o.itruediv, '//': o.ifloordiv, '%': o.imod, '**': o.ipow,
            '&': o.iand, '|': o.ior, '^': o.ixor, '@': o.imatmul}[op](a, b)


# ------------------------------------------------------------------ builtins
class NumMeta(type):
    def __instancecheck__(cls, x):
        return cls._inst(x)

    def __subclasscheck__(cls, c):
        return c is cls or isinstance(c, type) and issubclass(c, cls._py)

    def __or__(cls, o): return ty_or(cls, o)
    def __ror__(cls, o): return ty_or(o, cls)
    def __eq__(cls, o): return o is cls or o is cls._py
    def __hash__(cls): return hash(cls._py)


def ty_or(a, b):
    return TyUnion(flat_ty(a) + flat_ty(b))


def flat_ty(t):
    if isinstance(t, TyUnion): return list(t.ts)
    if t is None: return [type(None)]
    return [t]


class TyUnion:
    def __init__(self, ts): self.ts = tuple(ts)
    def __or__(self, o): return ty_or(self, o)
    def __ror__(self, o): return ty_or(o, self)
    def __instancecheck__(self, x): return any(isinstance_(x, t) for t in self.ts)
    def __getitem__(self, k): return self


def ty_py(t):
    return getattr(t, '_py', t)


class float_(metaclass=NumMeta):
    _py = float
    __pv_dt__ = 'f8'
    _inst = staticmethod(lambda x: isinstance(x, float) or isinstance(x, S) and x.k == 'r')

    def __new__(cls, x=0.0):
        if isinstance(x, SArr): x = x.item()
        if isinstance(x, S): return S(C.toreal(x))
        if hasattr(x, '__pv_float__'): return x.__pv_float__()
        return float(x)


class int_(metaclass=NumMeta):
    _py = int
    __pv_dt__ = 'i8'
    _inst = staticmethod(lambda x: isinstance(x, int) or isinstance(x, S) and x.k in 'ib')
    from_bytes = int.from_bytes

    def __new__(cls, x=0, *a):
        if isinstance(x, SArr): x = x.item()
        if isinstance(x, S): return L.simp(S(C.toint(x)))
        return int(x, *a)


class bool_(metaclass=NumMeta):
    _py = bool
    __pv_dt__ = 'b1'
    _inst = staticmethod(lambda x: isinstance(x, bool) or isinstance(x, S) and x.k == 'b')

    def __new__(cls, x=False):
        if isinstance(x, S): return S(C.tobool(x))
        return bool(x)


class list_(metaclass=NumMeta):
    _py = list
    _inst = staticmethod(lambda x: isinstance(x, list))

    def __new__(cls, x=()):
        if isinstance(x, L.MList): return L.MList(list.__iter__(x))
        it = L.as_iter(x)
        if isinstance(it, L.SymIter): return L.listcomp(lambda v: v, it, None, 'list()')
        return L.MList(it)

    def __class_getitem__(cls, k): return cls


class tuple_(metaclass=NumMeta):
    _py = tuple
    _inst = staticmethod(lambda x: isinstance(x, tuple))

    def __new__(cls, x=()):
        it = L.as_iter(x)
        if isinstance(it, L.SymIter):
            return L.listcomp(lambda v: v, it, None, 'tuple()')
        return tuple(it)

    def __class_getitem__(cls, k): return cls


def mapping_type(base):
    class map_(metaclass=NumMeta):
        _py = base
        _inst = staticmethod(lambda x: isinstance(x, base))
        fromkeys = base.fromkeys

        def __new__(cls, d=(), **kw):
            if isinstance(d, G.MapItems): d = d.m
            if isinstance(d, G.GhostMap):
                m = d.copy()
                m.memo = d.memo
                if kw: m.update(kw)
                return m
            if hasattr(d, 'keys') and not isinstance(d, dict):
                ks = L.as_iter(d.keys())
                pairs = L.SymIter(ks.n, lambda i: (ks.item(i), d[ks.item(i)])) if isinstance(ks, L.SymIter) else [(k, d[k]) for k in ks]
            elif isinstance(d, dict): pairs = list(d.items())
            else: pairs = L.as_iter(d)
            if isinstance(pairs, L.SymIter):
                m = G.dictcomp(lambda kv: kv, pairs, None, 'dict()')
                if kw: m.update(kw)
                return m
            if not CTX.ghost_dicts: return base(pairs, **kw)
            m = G.GhostMap.empty()
            for k, v in pairs: m[k] = v
            for k, v in kw.items(): m[k] = v
            return m

        def __class_getitem__(cls, k): return cls
    map_.__name__ = base.__name__
    return map_


dict_, odict_ = mapping_type(dict), mapping_type(collections.OrderedDict)
COLLECTIONS = types.ModuleType('collections')
COLLECTIONS.__dict__.update({k: v for k, v in vars(collections).items() if k != 'OrderedDict'}, OrderedDict=odict_)


def isinstance_(x, t):
    if isinstance(t, tuple):
        return any(isinstance_(x, u) for u in t)
    if isinstance(t, TyUnion):
        return any(isinstance_(x, u) for u in t.ts)
    if hasattr(x, '__pv_isinstance__'):
        r = x.__pv_isinstance__(t)
        if r is not None: return r
    if isinstance(x, S):
        if t in (numbers.Number, numbers.Real, numbers.Complex): return True
        if t is numbers.Integral: return x.k in 'ib'
    if isinstance(t, types.UnionType):
        return any(isinstance_(x, u) for u in t.__args__)
    import typing
    if typing.get_origin(t) is typing.Union:
        return any(isinstance_(x, u) for u in t.__args__)
    if t is typing.Any: return True
    return isinstance(x, t)


def len_(x):
    if isinstance(x, SArr):
        if not x._shape: raise TypeError('len() of unsized object')
        return dimS(x._shape[0])
    if isinstance(x, L.MList) and x.has_seg():
        return L.seg_len(x)
    if isinstance(x, (L.SRange,)):
        return dimS(x.symiter().n)
    if hasattr(x, '__pv_len__'): return x.__pv_len__()
    if L.is_user(x) and hasattr(type(x), '__len__'): return type(x).__len__(x)
    return len(x)


def range_(*a):
    a = [x.__pv_scalar__() if isinstance(x, SArr) else x for x in a]
    vals = []
    for x in a:
        v = L.simp(x) if isinstance(x, S) else x
        vals.append(v)
    if all(isinstance(v, int) for v in vals):
        return range(*vals)
    for v in vals:
        if isinstance(v, S) and v.k == 'r' or isinstance(v, float):
            raise TypeError('range of a float')
    if len(vals) == 1: return L.SRange(0, vals[0])
    return L.SRange(*vals)


def minmax(op):
    def f(*a, key=None, default=None):
        if len(a) == 1:
            it = L.as_iter(a[0])
            if isinstance(it, L.SymIter): raise Unsupported('min/max of a symbolic sequence')
            a = list(it)
        if key is not None or not any(isinstance(x, (S, SArr)) for x in a):
            return (min if op == '<' else max)(a) if key is None else (min if op == '<' else max)(a, key=key)
        r = a[0]
        for x in a[1:]:
            r0, x0 = (r.__pv_scalar__() if isinstance(r, SArr) else r), (x.__pv_scalar__() if isinstance(x, SArr) else x)
            if any(isinstance(v, float) and v in (float('inf'), float('-inf')) for v in (r0, x0)):
                c = C.arith(op, x0, r0)
                if z3.is_true(z3.simplify(C.tobool(c))): r = x0
                continue
            # python: max(a, b) returns the first maximal element
            c = z3.simplify(C.tobool(C.arith(op, x0, r0)))
            a1, b1 = C.lift(x0), C.lift(r0)
            if a1.sort() != b1.sort(): a1, b1 = C.toreal(S(a1)), C.toreal(S(b1))
            r = S(z3.simplify(z3.If(c, a1, b1)))
        return r
    return f


def generic_item(it):
    """the item at a generic index; a case distinction on that index cannot be a fork of the path"""
    j = CTX.index_var('i')
    n = CTX.push()
    CTX.recs.append(NoBranch())
    try:
        CTX.assume(z3.And(j >= 0, j < A.dz(it.n)))
        return j, it.item(j)
    except MustFork:
        raise Unsupported('reduction of a symbolic sequence whose items need a case distinction')
    finally:
        CTX.recs.pop()
        CTX.pop(n)


def sum_(x, start=0):
    it = L.as_iter(x)
    if isinstance(it, L.SymIter):
        j, v = generic_item(it)
        if not isinstance(v, (S, int, float, bool)): raise Unsupported('sum of arrays of symbolic number')
        e = C.num(S(C.lift(v)))
        return start + S(A.mk_sum(lambda k: z3.substitute(e, (j, k)), it.n, e.sort()))
    r = start
    for v in it: r = r + v
    return r


def allany(isall):
    def f(x):
        it = L.as_iter(x)
        if isinstance(it, L.SymIter):
            from . import npm
            if isinstance(it.n, int) and it.n <= 8:
                vs = [it.item(z3.IntVal(q)) for q in range(it.n)]
                if not all(isinstance(v, (S, int, float, bool)) for v in vs): raise Unsupported('all/any of a symbolic sequence')
                e = (z3.And if isall else z3.Or)(*[C.tobool(S(C.lift(v))) for v in vs])
                return S(z3.simplify(e))
            j, v = generic_item(it)
            if not isinstance(v, (S, int, float, bool)): raise Unsupported('all/any of a symbolic sequence')
            e = C.tobool(S(C.lift(v)))
            return S(npm.q_app(lambda js: z3.substitute(e, (j, js[0])), (it.n,), 'all' if isall else 'any'))
        for v in it:
            if isall and not v: return False
            if not isall and v: return True
        return isall
    return f


def abs_(x): return abs(x)


def isinst_type(x): return type(x)


def make_builtins(loader):
    b = dict(vars(builtins))
    b.update(isinstance=isinstance_, len=len_, range=range_, enumerate=L.enumerate_, zip=L.zip_, reversed=L.reversed_, iter=L.iter_builtin,
             min=minmax('<'), max=minmax('>'), sum=sum_, all=allany(True), any=allany(False),
             float=float_, int=int_, bool=bool_, list=list_, tuple=tuple_, dict=dict_,
             __import__=loader.imp, __pv__=PV, __pv_slice__=slice, print=lambda *a, **k: None)
    return b


# ------------------------------------------------------------------ module loading
class Loader:
    def __init__(self):
        self.mods = {}
        self.models = {}
        self.snaps = {}
        self.bi = make_builtins(self)

    def keep(self, o, seen=None):
        """what a module or class (and the classes in it) holds, so that callee contracts put in for one path are gone on the next"""
        d = getattr(o, '__dict__', None)
        if d is None or id(o) in self.snaps: return
        self.snaps[id(o)] = (o, dict(d))
        if isinstance(o, (type, types.ModuleType)):
            for v in list(d.values()):
                if isinstance(v, type) and (v.__module__ == getattr(o, '__name__', None) or v.__qualname__.startswith(getattr(o, '__qualname__', '?') + '.')): self.keep(v)

    def restore(self):
        for n, m in self.models.items(): self.keep(m)
        for o, d in self.snaps.values():
            for k, v in list(o.__dict__.items()):
                if k in d and d[k] is v: continue
                if isinstance(v, types.ModuleType) or isinstance(v, Stub): continue
                if isinstance(o, Stub) and k not in d: continue
                if k in ('__dict__', '__weakref__', '__abstractmethods__', '_abc_impl', '__annotations__', '__builtins__'): continue
                if k in d: setattr(o, k, d[k])
                else: delattr(o, k)
            for k, v in d.items():
                if k not in o.__dict__: setattr(o, k, v)

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            parts = pkg.split('.')
            base = '.'.join(parts[:len(parts) - (level - 1)])
            name = f'{base}.{name}' if name else base
        root = name.split('.')[0]
        if root == 'pyhipp':
            m = self.load(name)
            if not fromlist:
                return self.load('pyhipp')
            for f in fromlist:
                if not hasattr(m, f) and self.path(f'{name}.{f}'):
                    self.load(f'{name}.{f}')
            return m
        if root in self.models:
            m = self.model(name)
            if not fromlist:
                return self.model(root)
            return m
        if name == 'collections': return COLLECTIONS
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def model(self, name):
        if name in self.models:
            return self.models[name]
        parts = name.split('.')
        o = self.models[parts[0]]
        for p in parts[1:]:
            o = getattr(o, p)
        return o

    def path(self, name):
        p = os.path.join(SRC, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py') if os.path.exists(os.path.join(p, '__init__.py')) else p
        if os.path.exists(p + '.py'):
            return p + '.py'
        return None

    STUB = ('pyhipp.plot', 'pyhipp.astro.plot')

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if '.' in name:
            self.load(name.rpartition('.')[0])
            if name in self.mods:
                return self.mods[name]
        p = self.path(name)
        if name in self.STUB:
            m = self.mods[name] = Stub(name)
            setattr(self.load(name.rpartition('.')[0]), name.rpartition('.')[2], m)
            return m
        if p is None:
            raise ModuleNotFoundError(name)
        ispkg = p.endswith('__init__.py') or os.path.isdir(p)
        m = types.ModuleType(name)
        m.__package__ = name if ispkg else name.rpartition('.')[0]
        m.__file__ = p
        m.__dict__['__builtins__'] = self.bi
        m.__dict__['__pv__'] = PV
        m.__dict__['__pv_slice__'] = slice
        m.__dict__['__pv_module__'] = name[len('pyhipp.'):] if name.startswith('pyhipp.') else name
        self.mods[name] = m
        # importlib machinery (inspect, dataclasses) looks modules up by name
        sys.modules.setdefault(name, m)
        if os.path.isdir(p):
            m.__path__ = [p]
        else:
            src = open(p).read()
            tree = ast.parse(src)
            tree = Mangler().visit(Xf(m.__dict__['__pv_module__']).visit(tree))
            ast.fix_missing_locations(tree)
            code = compile(tree, p, 'exec', dont_inherit=True)
            exec(code, m.__dict__)
            self.keep(m)
        if '.' in name:
            par = self.load(name.rpartition('.')[0])
            setattr(par, name.rpartition('.')[2], m)
        return m


class Stub:
    """opaque attribute sink for libraries that the verified functions never use"""
    __path__ = []
    __all__ = ()

    def __init__(self, name='stub'):
        self.__dict__['_name'] = name

    def __getattr__(self, k):
        if k.startswith('__') and k not in ('__version__',):
            raise AttributeError(k)
        r = type('StubCls', (StubObj,), {'_name': f'{self._name}.{k}'})
        setattr(self, k, r)
        return r


class StubMeta(type):
    def __getattr__(cls, k):
        if k.startswith('__'):
            raise AttributeError(k)
        return type('StubCls', (StubObj,), {'_name': f'{cls._name}.{k}'})
    def __or__(cls, o): return ty_or(cls, o)
    def __ror__(cls, o): return ty_or(o, cls)
    def __getitem__(cls, k): return cls


class StubObj(metaclass=StubMeta):
    _name = 'stub'

    def __new__(cls, *a, **k):
        raise Unsupported('call into unmodelled library ' + cls._name)


def new_loader(extra_models=None):
    from . import npm
    ld = Loader()
    ld.models.update(npm.models())
    if extra_models: ld.models.update(extra_models)
    for k in [k for k in sys.modules if k == 'pyhipp' or k.startswith('pyhipp.')]:
        del sys.modules[k]
    return ld
