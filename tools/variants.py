"""Run checks on edited copies of /repo: tools/variants.py FILE [name...]   (FILE defines V: list of (name, prop, [(file, old, new)]))

Used for behaviour-preserving rewrites (checks must stay quiet) and for quick mutants (checks should alarm); /repo itself is not touched."""
import sys, os, subprocess, shutil, json, time
spec = {}
exec(open(sys.argv[1]).read(), spec)
names = sys.argv[2:]
T = f'/tmp/variant.{os.getpid()}'
for name, prop, edits in spec['V']:
    if names and not any(n in name for n in names): continue
    shutil.rmtree(T, ignore_errors=True)
    os.makedirs(T)
    subprocess.run(f'git -C {os.environ.get("VREPO", "/repo")} archive HEAD src | tar x -C {T}', shell=True, check=True)
    bad = None
    for f, old, new in edits:
        p = f'{T}/src/pyhipp/{f}'
        t = open(p).read()
        if t.count(old) != 1: bad = f'{f}: {t.count(old)} matches of {old[:60]!r}'; break
        open(p, 'w').write(t.replace(old, new))
    if bad: print(name, 'BAD', bad, flush=True); continue
    for pr in prop.split(','):
        t0 = time.time()
        r = subprocess.run(['python3-vt', 'check.py', pr], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), capture_output=True, text=True, env=dict(os.environ, PYVC_SRC=f'{T}/src'))
        ls = [l for l in r.stdout.splitlines() if l.startswith(('obligation', 'failing', 'VIOL', f'{pr}:', '  out', '  und', 'undec'))]
        print(name, pr, 'rc', r.returncode, f'{time.time() - t0:.0f}s', '|', ' || '.join(l[:220] for l in ls[-6:]), r.stderr[-300:], flush=True)
shutil.rmtree(T, ignore_errors=True)
