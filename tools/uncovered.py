"""functions of the package that no property has under contract"""
import ast, glob, os, json
cov = set()
import os
for i in range(1, 39):
    if not os.path.exists(f'/verif/evidence/C{i:02d}.json'): continue
    cov |= set(json.load(open(f'/verif/evidence/C{i:02d}.json'))['coverage']['functions_under_contract'])
base = '/repo/src/pyhipp'
for p in sorted(glob.glob(base + '/**/*.py', recursive=True)):
    rel = os.path.relpath(p, base)
    if 'plot' in rel or 'tests' in rel: continue
    mod = rel[:-3].replace('/', '.').removesuffix('.__init__')
    def go(n, q):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.ClassDef): yield from go(c, q + [c.name])
            elif isinstance(c, ast.FunctionDef): yield '.'.join(q + [c.name]), c
    fs = [(q, c.end_lineno - c.lineno + 1) for q, c in go(ast.parse(open(p).read()), []) if f'{mod}:{q}' not in cov]
    if fs: print(mod, sum(l for _, l in fs), '\n    ', ' '.join(f'{q}({l})' for q, l in fs))
