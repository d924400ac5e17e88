"""Writes /verif/MANIFEST.json from properties.jsonl, the spec modules present and tools/notes.json."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(f'{H}/properties.jsonl')]
notes = json.load(open(f'{H}/tools/notes.json')) if os.path.exists(f'{H}/tools/notes.json') else {}
checks, na = [], []
GEN = ('Every contract obligation is discharged by the verifier (symbolic execution of the real source, z3/cvc5/sympy) for all inputs and '
       'iterations, on every run; floats are treated as reals, integers as unbounded, termination is not proved, library calls are trusted '
       'through stated contracts. A bounded search of the same contracts on the real code runs beside it and is never counted as proved.')
for p in props:
    i = p['id']
    if os.path.exists(f'{H}/pyvc/spec/{i}.py') and os.path.exists(f'{H}/dyn/{i}.py') and not notes.get(i, {}).get('not_applicable'):
        checks.append(dict(property=i, quick_cmd=f'python3-vt check.py {i}', thorough_cmd=f'python3-vt check.py {i} --thorough',
                           evidence_file=f'evidence/{i}.json', technique='contract-based deductive verification (VCs from the real source, SMT)',
                           level='proof', level_note=(notes.get(i, {}).get('note', '') + ' ' + GEN).strip()))
    else:
        na.append(dict(property=i, reason=notes.get(i, {}).get('not_applicable', 'no contract check has been built for it yet')))
json.dump(dict(version=1, setup_cmd='python3-vt tools/setup.py', checks=checks, not_applicable=na,
               notes='check.py runs the verifier on /repo/src as it is; no build is needed; no hooks are used.'),
          open(f'{H}/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
