"""Write and validate planted bugs: tools/seed.py NAME...   (definitions in tools/seeds.py)"""
import sys, os, subprocess, json, shutil
sys.path.insert(0, '/verif/tools')
from seeds import SEEDS
R, D = '/repo', '/verif/seeded'


def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


assert not sh('git status --porcelain', cwd=R).stdout.strip(), 'repo dirty'
names = sys.argv[1:] or list(SEEDS)
check = '--check' in names
names = [n for n in names if not n.startswith('--')] or list(SEEDS)
for n in names:
    s = SEEDS[n]
    d = f'{D}/{n}'
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in s['edits']:
            p = f'{R}/src/pyhipp/{f}'
            t = open(p).read()
            assert t.count(old) == 1, (n, f, t.count(old))
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff', cwd=R).stdout
        open(f'{d}/patch.diff', 'w').write(diff)
        open(f'{d}/demo.py', 'w').write(s['demo'].lstrip('\n'))
        open(f'{d}/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONPATH=$PWD/src MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(f'{d}/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
        b = sh('bash /opt/vp/build.sh').returncode
        t = sh('bash /opt/vp/test.sh /tmp/seedt.json')
        base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        res = json.load(open('/tmp/seedt.json'))
        passed = set(res.get('passed', [])) if isinstance(res.get('passed'), list) else {k for k, v in res.items() if v in ('passed', True)}
        demo1 = sh(f'bash {d}/demo.sh', cwd=R)
        c = ''
        if check:
            r = sh(f'python3-vt check.py {s["property"]}', cwd='/verif')
            c = f'check rc {r.returncode}: ' + r.stdout[-500:]
    finally:
        sh('git checkout -- .', cwd=R)
    demo0 = sh(f'bash {d}/demo.sh', cwd=R)
    ok = b == 0 and base <= passed and demo0.returncode == 0 and demo1.returncode != 0
    print(n, 'OK' if ok else 'BAD', 'build', b, 'missing tests', sorted(base - passed)[:3], 'demo', demo0.returncode, demo1.returncode, (demo0.stderr if demo0.returncode else '')[-300:], demo1.stderr.strip().splitlines()[-1:] , c, flush=True)
