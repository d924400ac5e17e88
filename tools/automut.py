"""Random one-point changes of the functions a property puts under contract: what do the checks miss?

tools/automut.py N SEED [Cxx ...]: N changes per property; each is run through the executable contracts (short) and, when these are quiet, the full check.
Survivors (rc 0) are printed with their difference and have to be judged by hand: no change of behaviour, a change outside the statement, or a gap."""
import ast, sys, os, subprocess, shutil, random, json, copy, time, difflib
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
from concurrent.futures import ThreadPoolExecutor

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.Is: [ast.IsNot], ast.IsNot: [ast.Is], ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
OPS = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div], ast.Div: [ast.Mult, ast.FloorDiv], ast.FloorDiv: [ast.Div], ast.Mod: [ast.FloorDiv], ast.Pow: [ast.Mult],
       ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd], ast.MatMult: [ast.Mult]}


def points(fn):
    """(description, function that applies the change in place)"""
    out = []
    skip = set()
    for n in ast.walk(fn):
        for f in ('annotation', 'returns'):
            a = getattr(n, f, None)
            if isinstance(a, ast.AST): skip |= {id(x) for x in ast.walk(a)}
        if isinstance(n, (ast.Raise, ast.Assert)): skip |= {id(x) for x in ast.walk(n)}
        if isinstance(n, ast.JoinedStr): skip |= {id(x) for x in ast.walk(n)}
    for d in fn.decorator_list: skip |= {id(x) for x in ast.walk(d)}
    locs = sorted({n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in fn.args.args + fn.args.kwonlyargs} - {'self'})
    for n in ast.walk(fn):
        if id(n) in skip: continue
        if isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                for q in CMP.get(type(o), []): out.append(('cmp', lambda n=n, i=i, q=q: n.ops.__setitem__(i, q())))
        if isinstance(n, (ast.BinOp, ast.AugAssign)):
            for q in OPS.get(type(n.op), []): out.append(('op', lambda n=n, q=q: setattr(n, 'op', q())))
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Sub, ast.Div, ast.FloorDiv, ast.MatMult)):
            def sw(n=n): n.left, n.right = n.right, n.left
            out.append(('swap operands', sw))
        if isinstance(n, ast.BoolOp):
            out.append(('bool', lambda n=n: setattr(n, 'op', ast.Or() if isinstance(n.op, ast.And) else ast.And())))
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool): out.append(('const', lambda n=n, v=v: setattr(n, 'value', not v)))
            elif isinstance(v, int):
                for d in (1, -1): out.append(('const', lambda n=n, v=v, d=d: setattr(n, 'value', v + d)))
            elif isinstance(v, float):
                out.append(('const', lambda n=n, v=v: setattr(n, 'value', v * 1.5 + .25)))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            out.append(('negate', lambda n=n: setattr(n, 'test', ast.UnaryOp(ast.Not(), n.test))))
            if not isinstance(n, ast.While):
                out.append(('always', lambda n=n: setattr(n, 'test', ast.Constant(True))))
                out.append(('never', lambda n=n: setattr(n, 'test', ast.Constant(False))))
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred) for a in n.args):
                def sa(n=n): n.args[0], n.args[1] = n.args[1], n.args[0]
                out.append(('swap arguments', sa))
            for i, k in enumerate(n.keywords):
                out.append(('drop keyword', lambda n=n, i=i: n.keywords.pop(i)))
        if isinstance(n, ast.Slice):
            for f in ('lower', 'upper', 'step'):
                if getattr(n, f) is not None: out.append(('slice', lambda n=n, f=f: setattr(n, f, None)))
        if isinstance(n, ast.UnaryOp):
            if isinstance(n.op, (ast.Not, ast.USub, ast.Invert)) and not isinstance(n.operand, ast.Constant):
                out.append(('unary', lambda n=n: (setattr(n, 'op', ast.UAdd()) if isinstance(n.op, ast.USub) else setattr(n, 'op', ast.Not()) or setattr(n, 'operand', ast.UnaryOp(ast.Not(), n.operand)))))
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in locs and len(locs) > 1:
            def nm(n=n, r=None): n.id = random.choice([x for x in locs if x != n.id])
            out.append(('other variable', nm))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in ('copy', 'T', 'ravel', 'flatten', 'copied') : pass
        for f in ('body', 'orelse'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                for i, s in enumerate(b):
                    if id(s) in skip: continue
                    if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Break, ast.Continue)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        out.append(('delete statement', lambda b=b, i=i: b.__setitem__(i, ast.Pass())))
                    if isinstance(s, ast.AugAssign):
                        out.append(('plain assignment', lambda b=b, i=i, s=s: b.__setitem__(i, ast.Assign([s.target], s.value))))
    return out


def find(tree, qual):
    cur = tree
    for p in qual.split('.'):
        if p == '<locals>': continue
        nxt = [c for c in ast.walk(cur) if isinstance(c, (ast.FunctionDef, ast.ClassDef)) and c.name == p]
        if not nxt: return None
        cur = nxt[0]
    return cur if isinstance(cur, ast.FunctionDef) else None


def path_of(mod):
    base = f'/repo/src/pyhipp/{mod.replace(".", "/")}'
    for p in (base + '.py', base + '/__init__.py'):
        if os.path.exists(p): return os.path.relpath(p, '/repo/src/pyhipp')


def one(prop, k, seed, fns):
    random.seed(f'{prop}{k}{seed}')
    for _ in range(40):
        f = random.choice(fns)
        mod, qual = f.split(':', 1)
        rel = path_of(mod)
        if rel is None: continue
        src = open(f'/repo/src/pyhipp/{rel}').read()
        tree = ast.parse(src)
        fn = find(tree, qual)
        if fn is None: continue
        ps = points(fn)
        if not ps: continue
        what, ap = random.choice(ps)
        before = ast.unparse(tree)
        ap()
        ast.fix_missing_locations(tree)
        try: after = ast.unparse(tree)
        except Exception: continue
        if after == before: continue
        T = f'/tmp/automut.{os.getpid()}.{prop}.{k}'
        shutil.rmtree(T, ignore_errors=True); os.makedirs(T)
        subprocess.run(f'git -C /repo archive HEAD src | tar x -C {T}', shell=True, check=True)
        open(f'{T}/src/pyhipp/{rel}', 'w').write(after)
        d = [l for l in difflib.unified_diff(before.splitlines(), after.splitlines(), lineterm='', n=1)][2:]
        return T, f, what, d
    return None


def run(prop, n, seed):
    try: fns = json.load(open(f'{ROOT}/evidence/{prop}.json'))['coverage']['functions_under_contract']
    except Exception: print(prop, 'no evidence file'); return
    ms = [m for m in (one(prop, k, seed, fns) for k in range(n)) if m]

    def dyn(m):
        T = m[0]
        o = f'{T}/out.json'
        try: r = subprocess.run(['dyn/go.sh', prop, 'search', '7', '8', o], cwd=ROOT, capture_output=True, text=True, env=dict(os.environ, PYVC_SRC=f'{T}/src'), timeout=240)
        except subprocess.TimeoutExpired: return 'hang'
        try: return 'killed' if json.load(open(o)).get('failures') else 'alive'
        except Exception: return 'crash'
    with ThreadPoolExecutor(6) as ex: res = list(ex.map(dyn, ms))
    cnt = {}
    for m, r in zip(ms, res):
        T, f, what, d = m
        if r in ('alive', 'crash'):
            t0 = time.time()
            try:
                p = subprocess.run(['python3-vt', 'check.py', prop], cwd=ROOT, capture_output=True, text=True, env=dict(os.environ, PYVC_SRC=f'{T}/src'), timeout=900)
                rc = p.returncode
                ls = [l for l in p.stdout.splitlines() if l.startswith(('obligation', 'failing', 'VIOL', f'{prop}:', '  out', '  und', 'undec'))]
            except subprocess.TimeoutExpired: rc, ls = 'timeout', []
            if rc == 0 or rc not in (0, 1):
                print(f'{"SURVIVOR" if rc == 0 else "NOANSWER"} {prop} {f} [{what}] rc {rc} dyn {r} {time.time() - t0:.0f}s')
                for l in d: print('      ', l)
                for l in ls[-4:]: print('        >', l[:200])
            else: print(f'proof    {prop} {f} [{what}] {" / ".join(x.strip() for x in d if x[:1] in "+-")[:160]}')
            r = f'{r}, rc {rc}'
            sys.stdout.flush()
        cnt[r] = cnt.get(r, 0) + 1
        shutil.rmtree(T, ignore_errors=True)
    print('##', prop, cnt, flush=True)


if __name__ == '__main__':
    n, seed = int(sys.argv[1]), sys.argv[2]
    for p in sys.argv[3:] or [f'C{i:02d}' for i in range(1, 39)]: run(p, n, seed)
