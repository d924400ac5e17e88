"""Run the checks on every planted bug (on copies; /repo is not touched) and record how each is caught in tools/caught.json."""
import sys, os, subprocess, shutil, json, glob, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
names = sys.argv[1:]
out = f'{ROOT}/tools/caught.json'
got = json.load(open(out)) if os.path.exists(out) else {}
T = f'/tmp/allseeds.{os.getpid()}'
for d in sorted(glob.glob(f'{ROOT}/seeded/*')):
    n = os.path.basename(d)
    if names and not any(x in n for x in names): continue
    pr = json.load(open(d + '/meta.json'))['property']
    shutil.rmtree(T, ignore_errors=True); os.makedirs(T)
    subprocess.run(f'git -C {os.environ.get("VREPO", "/repo")} archive HEAD src | tar x -C {T}; cd {T}; git init -q .; git apply {d}/patch.diff', shell=True, check=True)
    t0 = time.time()
    r = subprocess.run(['python3-vt', 'check.py', pr], cwd=ROOT, capture_output=True, text=True, env=dict(os.environ, PYVC_SRC=f'{T}/src'))
    how = [w for w in ('proof',) if r.returncode == 1 and '(refuted)' in r.stdout + r.stderr or 'obligation refuted' in r.stdout] + [w for w in ('input',) if 'failing input' in r.stdout]
    got[n] = ', '.join(how) or f'missed (rc {r.returncode})'
    print(n, r.returncode, got[n], f'{time.time() - t0:.0f}s', flush=True)
    json.dump(got, open(out, 'w'), indent=1, sort_keys=True)
shutil.rmtree(T, ignore_errors=True)
