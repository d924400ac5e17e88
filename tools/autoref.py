"""Mechanical behaviour-preserving rewrites of every function of the package, one kind at a time; the checks must stay quiet.

tools/autoref.py KIND[,KIND..] [Cxx ...]      kinds: flip ret rename ifswap hoist while nest tern helper comp swap noise all"""
import ast, sys, os, subprocess, shutil, time, glob, builtins, random
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = f'/tmp/autoref.{os.getpid()}'
FLIP = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}
SKIPF = ('plot', 'tests')
KEEPF = ('two_dim',)
ctr = [0]


def fresh(p='_t'):
    ctr[0] += 1
    return f'{p}{ctr[0]}'


def is_njit(fn):
    return any('jit' in ast.unparse(d) for d in fn.decorator_list)


def simple(e):
    return all(not isinstance(n, (ast.Call, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.Starred)) for n in ast.walk(e))


def stored(fn):
    """names bound in the body itself"""
    out = set()
    def go(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)):
                if isinstance(c, (ast.FunctionDef, ast.ClassDef)): out.add(c.name)
                continue
            if isinstance(c, ast.Name) and isinstance(c.ctx, (ast.Store, ast.Del)): out.add(c.id)
            if isinstance(c, ast.ExceptHandler) and c.name: out.add(c.name)
            if isinstance(c, (ast.Import, ast.ImportFrom)):
                for a in c.names: out.add((a.asname or a.name).split('.')[0])
            go(c)
    go(fn)
    return out


def params(fn):
    a = fn.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [v for v in (a.vararg, a.kwarg) if v]}


def nested(fn):
    return any(isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)) for s in fn.body for n in ast.walk(s))


class Kind:
    def __init__(self, mod): self.mod, self.n, self.extra = mod, 0, []
    def fn(self, f, cls): pass


class flip(Kind):
    def fn(self, f, cls):
        for n in ast.walk(f):
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in FLIP and simple(n):
                n.left, n.comparators[0] = n.comparators[0], n.left
                n.ops[0] = FLIP[type(n.ops[0])](); self.n += 1


def blocks(f):
    """statement lists of the function (not of nested functions)"""
    def go(n):
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b
                for s in list(b):
                    if not isinstance(s, (ast.FunctionDef, ast.ClassDef)): yield from go(s)
        for h in getattr(n, 'handlers', []): yield from go(h)
    yield from go(f)


class ret(Kind):
    def fn(self, f, cls):
        for b in list(blocks(f)):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                    t = fresh('_out')
                    b[i:i + 1] = [ast.Assign([ast.Name(t, ast.Store())], s.value), ast.Return(ast.Name(t, ast.Load()))]; self.n += 1


class rename(Kind):
    def fn(self, f, cls):
        if nested(f) or any(isinstance(n, (ast.Global, ast.Nonlocal)) for n in ast.walk(f)) or 'locals()' in ast.unparse(f): return
        names = stored(f) - params(f)
        comp = {n.id for c in ast.walk(f) if isinstance(c, ast.comprehension) for n in ast.walk(c.target) if isinstance(n, ast.Name)}
        imp = {(a.asname or a.name) for n in ast.walk(f) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}
        names -= comp | imp | {n.name for n in ast.walk(f) if isinstance(n, ast.ExceptHandler)}
        m = {x: f'{x}_v' for x in names if not x.startswith('__')}
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in m: n.id = m[n.id]; self.n += 1


class ifswap(Kind):
    def fn(self, f, cls):
        for n in ast.walk(f):
            if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
                n.test = n.test.operand if isinstance(n.test, ast.UnaryOp) and isinstance(n.test.op, ast.Not) else ast.UnaryOp(ast.Not(), n.test)
                n.body, n.orelse = n.orelse, n.body; self.n += 1


class hoist(Kind):
    """first argument of an assigned or returned call or operation to a variable of its own"""
    def fn(self, f, cls):
        for b in list(blocks(f)):
            i = 0
            while i < len(b):
                s = b[i]
                if isinstance(s, (ast.Assign, ast.Return, ast.AugAssign)) and s.value is not None:
                    e, where = s.value, None
                    if isinstance(s, ast.Assign) and not isinstance(s.targets[0], (ast.Name, ast.Tuple)): e = None
                    if isinstance(s, ast.AugAssign) and not isinstance(s.target, ast.Name): e = None
                    if isinstance(e, ast.BinOp) and not isinstance(e.left, (ast.Name, ast.Constant)):
                        v, put = e.left, lambda x, e=e: setattr(e, 'left', x)
                    elif isinstance(e, ast.Call) and e.args and isinstance(e.func, (ast.Name, ast.Attribute)) and not isinstance(e.args[0], (ast.Name, ast.Constant, ast.Starred, ast.GeneratorExp)) \
                            and simple(e.func) and not (isinstance(e.func, ast.Name) and e.func.id == 'super'):
                        v, put = e.args[0], lambda x, e=e: e.args.__setitem__(0, x)
                    else: v = None
                    if v is not None and 'yield' not in ast.unparse(v):
                        t = fresh()
                        put(ast.Name(t, ast.Load()))
                        b.insert(i, ast.Assign([ast.Name(t, ast.Store())], v)); self.n += 1
                        i += 1
                i += 1


class while_(Kind):
    def fn(self, f, cls):
        for b in list(blocks(f)):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if isinstance(s, ast.For) and not s.orelse and isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' \
                        and len(s.iter.args) in (1, 2) and isinstance(s.target, ast.Name) and not any(isinstance(n, ast.Continue) for n in ast.walk(s)) \
                        and s.target.id not in {n.id for q in s.body for n in ast.walk(q) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}:
                    lo = s.iter.args[0] if len(s.iter.args) == 2 else ast.Constant(0)
                    hi = s.iter.args[-1]
                    k, e = fresh('_k'), fresh('_n')
                    N = lambda x: ast.Name(x, ast.Load())
                    b[i:i + 1] = [ast.Assign([ast.Name(k, ast.Store())], lo), ast.Assign([ast.Name(e, ast.Store())], hi),
                                  ast.While(ast.Compare(N(k), [ast.Lt()], [N(e)]),
                                            [ast.Assign([ast.Name(s.target.id, ast.Store())], N(k))] + s.body +
                                            [ast.AugAssign(ast.Name(k, ast.Store()), ast.Add(), ast.Constant(1))], [])]
                    self.n += 1


class nest(Kind):
    def fn(self, f, cls):
        for n in list(ast.walk(f)):
            if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And) and len(n.test.values) == 2:
                a, c = n.test.values
                n.test, n.body = a, [ast.If(c, n.body, [])]; self.n += 1


class tern(Kind):
    def fn(self, f, cls):
        for b in list(blocks(f)):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.IfExp):
                    import copy
                    v = s.value
                    b[i] = ast.If(v.test, [ast.Assign([s.targets[0]], v.body)], [ast.Assign([copy.deepcopy(s.targets[0])], v.orelse)]); self.n += 1
                elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                    v = s.value
                    b[i:i + 1] = [ast.If(v.test, [ast.Return(v.body)], []), ast.Return(v.orelse)]; self.n += 1


class helper(Kind):
    """the value of an assignment or return to a module-level function"""
    def fn(self, f, cls):
        if nested(f) or any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f)): return
        loc = stored(f) | params(f)
        for b in list(blocks(f)):
            for i, s in enumerate(b):
                if isinstance(s, (ast.Assign, ast.Return)) and s.value is not None and isinstance(s.value, (ast.BinOp, ast.Call, ast.Compare, ast.BoolOp, ast.ListComp)):
                    src = ast.unparse(s.value)
                    if 'super(' in src or '__' in src or 'yield' in src or 'locals' in src: continue
                    inner = {n.id for c in ast.walk(s.value) if isinstance(c, ast.comprehension) for n in ast.walk(c.target) if isinstance(n, ast.Name)}
                    used = []
                    for n in ast.walk(s.value):
                        if isinstance(n, ast.Name) and n.id in loc and n.id not in used and n.id not in inner: used.append(n.id)
                    if not used or inner & loc: continue
                    h = fresh('_helper')
                    import copy
                    dec = [copy.deepcopy(d) for d in f.decorator_list] if is_njit(f) else []
                    if is_njit(f) and any(isinstance(d, ast.Call) and d.args for d in dec): continue
                    g = ast.FunctionDef(h, ast.arguments([], [ast.arg(u) for u in used], None, [], [], None, []), [ast.Return(s.value)], dec)
                    self.extra.append(g)
                    s.value = ast.Call(ast.Name(h, ast.Load()), [ast.Name(u, ast.Load()) for u in used], []); self.n += 1


class comp(Kind):
    def fn(self, f, cls):
        if is_njit(f): return
        loc = None
        for b in list(blocks(f)):
            for i in range(len(b) - 1, -1, -1):
                s = b[i]
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1:
                    c = s.value.generators[0]
                    tg = {n.id for n in ast.walk(c.target) if isinstance(n, ast.Name)}
                    if tg & (stored(f) | params(f)): continue
                    if s.targets[0].id in {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)}: continue
                    nm = s.targets[0].id
                    body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), 'append', ast.Load()), [s.value.elt], []))]
                    for q in reversed(c.ifs): body = [ast.If(q, body, [])]
                    b[i:i + 1] = [ast.Assign([ast.Name(nm, ast.Store())], ast.List([], ast.Load())), ast.For(c.target, c.iter, body, [])]; self.n += 1


class swap(Kind):
    """neighbouring independent assignments"""
    def fn(self, f, cls):
        for b in list(blocks(f)):
            i = 0
            while i + 1 < len(b):
                s, t = b[i], b[i + 1]
                if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and
                       not any(isinstance(n, (ast.Yield, ast.NamedExpr)) for n in ast.walk(x.value)) and
                       all(isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ('np', 'math', 'jnp') and n.func.attr not in ('random',) or
                           isinstance(n.func, ast.Name) and n.func.id in ('len', 'float', 'int', 'min', 'max', 'abs') for n in ast.walk(x.value) if isinstance(n, ast.Call)) for x in (s, t)):
                    a, c = s.targets[0].id, t.targets[0].id
                    ua = {n.id for n in ast.walk(s.value) if isinstance(n, ast.Name)}
                    uc = {n.id for n in ast.walk(t.value) if isinstance(n, ast.Name)}
                    if a != c and a not in uc and c not in ua:
                        b[i], b[i + 1] = t, s; self.n += 1; i += 1
                i += 1


class noise(Kind):
    def fn(self, f, cls):
        if is_njit(f):
            f.body.append(ast.Pass()) if not isinstance(f.body[-1], ast.Return) else f.body.insert(len(f.body) - 1, ast.Pass()); self.n += 1
            return
        k = 1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0
        f.body.insert(k, ast.Assign([ast.Name(fresh('_unused'), ast.Store())], ast.Constant(0))); self.n += 1


KINDS = dict(flip=flip, ret=ret, rename=rename, ifswap=ifswap, hoist=hoist, nest=nest, tern=tern, helper=helper, comp=comp, swap=swap, noise=noise)
KINDS['while'] = while_


def jitclasses(tree):
    return {n.name for n in ast.walk(tree) if isinstance(n, ast.ClassDef) and any('jit' in ast.unparse(d) for d in n.decorator_list)}


def transform(path, kinds, only=None):
    src = open(path).read()
    tree = ast.parse(src)
    tot = 0
    for kind in kinds:
        k = KINDS[kind](tree)
        jc = jitclasses(tree)

        def visit(n, cls):
            nonlocal tot
            for c in list(ast.iter_child_nodes(n)):
                if isinstance(c, ast.ClassDef): visit(c, c.name)
                elif isinstance(c, ast.FunctionDef):
                    if cls in jc and kind in ('helper', 'comp'): continue
                    if c.name.startswith('_helper'): continue
                    if only is None or c.name in only:
                        k.fn(c, cls)
        visit(tree, None)
        if k.extra:
            # after the imports, before the first definition
            at = next((i for i, s in enumerate(tree.body) if isinstance(s, (ast.FunctionDef, ast.ClassDef))), len(tree.body))
            tree.body[at:at] = k.extra
        tot += k.n
        ast.fix_missing_locations(tree)
        tree = ast.parse(ast.unparse(tree))
    if tot: open(path, 'w').write(ast.unparse(tree) + '\n')
    return tot


def prepare(kinds, only_files=None):
    shutil.rmtree(T, ignore_errors=True)
    os.makedirs(T)
    subprocess.run(f'git -C /repo archive HEAD src tests | tar x -C {T}', shell=True, check=True)
    tot = 0
    for p in sorted(glob.glob(f'{T}/src/pyhipp/**/*.py', recursive=True)):
        rel = os.path.relpath(p, f'{T}/src/pyhipp')
        if any(x in rel for x in SKIPF) and not any(x in rel for x in KEEPF) or only_files and rel not in only_files: continue
        tot += transform(p, kinds)
    return tot


if __name__ == '__main__':
    props = sys.argv[2:] or [f'C{i:02d}' for i in range(1, 39)]
    ks = sys.argv[1].split(',')
    if ks == ['all']: groups = [[k] for k in KINDS]
    else: groups = [ks]
    for g in groups:
        print('#', '+'.join(g), prepare(g), 'rewrites', flush=True)
        for pr in props:
            if pr == 'prepare': print(T); sys.exit()
            t0 = time.time()
            r = subprocess.run(['python3-vt', 'check.py', pr], cwd=ROOT, capture_output=True, text=True, env=dict(os.environ, PYVC_SRC=f'{T}/src'))
            ls = [l for l in r.stdout.splitlines() if l.startswith(('obligation', 'failing', 'VIOL', f'{pr}:', '  out', '  und', 'undec'))]
            print('+'.join(g), pr, 'rc', r.returncode, f'{time.time() - t0:.0f}s', '|', ' || '.join(l[:260] for l in ls[-8:]), r.stderr[-300:], flush=True)
    shutil.rmtree(T, ignore_errors=True)
