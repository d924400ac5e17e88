#!/usr/bin/env python3
"""check.py PROP: proof of every contract obligation + bounded conformance search on the real code.

exit 0: held; exit 1: a line `VIOLATION property=<id> replay=<path>` (ending in no-failing-input-found when the verifier
refuted an obligation and the bounded search has no concrete input for it).
"""
import sys, os, json, time, subprocess, signal, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def start_dyn(prop, seed, budget, out):
    for f in (out, out + '.progress'):
        if os.path.exists(f): os.remove(f)
    return subprocess.Popen([os.path.join(HERE, 'dyn', 'go.sh'), prop, 'search', str(seed), str(budget), out],
                            stdout=subprocess.DEVNULL, stderr=open(out + '.err', 'w'), start_new_session=True, cwd=HERE)


def wait_dyn(p, out, stall):
    """wait; kill when one contract evaluation makes no progress for `stall` seconds"""
    while p.poll() is None:
        time.sleep(.1)
        try:
            n, seed, t = json.loads(open(out + '.progress').read())
        except Exception:
            continue
        if time.time() - t > stall:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return dict(counts={}, failures=[dict(contract=n, seed=seed, message=f'does not terminate within {stall} s', inputs={})], hang=True)
    if os.path.exists(out):
        try:
            return json.load(open(out))
        except Exception:
            pass
    err = open(out + '.err').read()[-3000:]
    try:
        n, seed, t = json.loads(open(out + '.progress').read())
        if p.returncode < 0:
            return dict(counts={}, failures=[dict(contract=n, seed=seed, message=f'the process dies with signal {-p.returncode}', inputs={})])
    except Exception:
        pass
    return dict(counts={}, failures=[], error=err)


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    ev = os.path.join(HERE, 'evidence')
    out = os.path.join(ev, f'.{prop}.dyn.json')
    budget = 12 if tier == 'quick' else 150
    has_dyn = os.path.exists(os.path.join(HERE, 'dyn', prop + '.py'))
    p = start_dyn(prop, seed, budget, out) if has_dyn else None
    from pyvc import harness
    has_proof = os.path.exists(os.path.join(HERE, 'pyvc', 'spec', prop + '.py'))
    os.environ['PYVC_UNTIL'] = str(t0 + 480)
    res = harness.run(prop, jobs=8) if has_proof else []
    # an obligation that failed or was not decided, or a case that ran out of its budget, is tried again with more time
    redo = [r for r in res if any(o[1] != 'proved' for o in r['obls']) or r['status'] != 'ok']
    if redo:
        os.environ['PYVC_SLOW'] = '3'
        os.environ['PYVC_UNTIL'] = str(max(time.time() + 90, t0 + 480))
        again = {r['case']: r for r in harness.run(prop, jobs=4, names={r['case'] for r in redo})}
        res = [again[r['case']] if r['case'] in again and again[r['case']]['detail'] != 'out of time' else r for r in res]
    dyn = wait_dyn(p, out, 150 if tier == 'quick' else 300) if p else dict(counts={}, failures=[])
    for f in (out, out + '.progress', out + '.err'):
        if os.path.exists(f): os.remove(f)
    known = known_findings(prop)

    obls = [(r['case'],) + tuple(o) for r in res for o in r['obls']]
    failed = [o for o in obls if o[2] != 'proved']
    refuted = [o for o in failed if o[2] == 'refuted']
    undecided = [o for o in failed if o[2] != 'refuted']
    uns = [r for r in res if r['status'] != 'ok']
    by = {}
    for o in obls:
        if o[2] == 'proved':
            be = 'z3-simplifier' if o[3] == 'trivial' else o[3]
            by[be] = by.get(be, 0) + 1
    fails = []
    for f in dyn['failures']:
        k = next((k for k in known if k.get('contract') == f['contract'] and k.get('match', '\0') in f['message']), None)
        if k: print(f"KNOWN-FINDING: property={prop} {k['what']}")
        else: fails.append(f)
    for k in known:
        if not k.get('contract'): print(f"KNOWN-FINDING: property={prop} {k['what']}")
    proved = not failed and not uns and len(obls) > 0
    trusted = sorted({t for r in res for t in r.get('trusted', [])})
    axioms = sorted({t for r in res for t in r.get('axioms', [])})
    cov = dict(
        obligations=len(obls), discharged=sum(o[2] == 'proved' for o in obls),
        checker_cmd=f'python3-vt check.py {prop}',
        trusted_base=['pyvc symbolic executor and its numpy contracts (/verif/pyvc)', 'z3 4.x, cvc5 1.1.2, sympy',
                      'CPython 3.12 semantics of the executed source'] + ['numpy contract: ' + t for t in trusted]
                     + ['axiom: ' + a for a in axioms],
        by_backend=by, solver_time_s=round(sum(o[4] for o in obls), 2),
        cases=len(res), functions_under_contract=sorted({f for r in res for f in r.get('functions', [])}),
        callee_contracts_used=sorted({c for r in res for c in r.get('contracts', [])}),
        failed_obligations=[o[1] for o in failed][:50],
        outside_the_subset=[dict(case=r['case'], reason=r['detail']) for r in uns],
        bounded_standin=dict(label='bounded, not counted as proved', role='conformance search of the executable contracts on the real code; '
                             'decides alone only the cases listed in outside_the_subset',
                             evaluations=sum(dyn.get('counts', {}).values()), per_contract=dyn.get('counts', {}), seed=seed,
                             error=dyn.get('error', '')),
        samples=[dict(obligation=o[1], backend=o[3], seconds=o[4]) for o in obls[:: max(1, len(obls) // 8)]][:10],
    )
    lines, rc = [], 0
    if fails or refuted:
        rc = 1
        rp = os.path.join(ev, f'{prop}.replay.json')
        if fails:
            f = fails[0]
            rec = dict(property=prop, **f, replay_cmd=f'/verif/dyn/go.sh {prop} replay {rp}',
                       failed_obligations=[dict(obligation=o[1], status=o[2], verifier=o[5]) for o in failed][:20],
                       other_failures=fails[1:6])
            for o in failed[:5]: print(f'obligation not discharged: {o[1]} ({o[2]})')
            print(f"failing input: {f['contract']} seed {f['seed']}: {f['message'][:1000]}")
            lines.append(f'VIOLATION property={prop} replay={rp}')
        else:
            rec = dict(property=prop, failed_obligations=[dict(case=o[0], obligation=o[1], status=o[2], verifier=o[5]) for o in failed],
                       note='the verifier refuted these obligations on the current source; the bounded search found no concrete failing input')
            for o in refuted[:10]: print(f'obligation refuted: {o[1]}: {o[5][:400]}')
            lines.append(f'VIOLATION property={prop} replay={rp} no-failing-input-found')
        json.dump(rec, open(rp, 'w'), indent=1)
    json.dump(dict(property=prop, tier=tier, seed=seed, level='proof', coverage=cov,
                   assumptions=['machine arithmetic treated as mathematical: floats are reals, integers are unbounded',
                                'partial correctness: termination is observed in the bounded search only',
                                'numba-compiled functions behave like their Python source',
                                'library functions satisfy the contracts listed in trusted_base'],
                   wall_s=round(time.time() - t0, 1), violations=len(fails) + len(refuted) if rc else 0),
              open(os.path.join(ev, f'{prop}.json'), 'w'), indent=1)
    print(f'{prop}: {cov["discharged"]}/{len(obls)} obligations discharged in {len(res)} cases {by}; '
          f'{len(uns)} cases outside the subset; {len(undecided)} undecided; bounded search {cov["bounded_standin"]["evaluations"]} evaluations; '
          f'{time.time() - t0:.1f}s')
    for r in uns: print(f"  outside the subset (bounded stand-in): {r['case']}: {r['detail'][:200]}")
    for o in undecided[:10]: print(f'  undecided (bounded stand-in): {o[1]}')
    if dyn.get('error'): print('bounded search did not run: ' + dyn['error'][-600:])
    if dyn.get('error') and not proved and rc == 0: rc = 2
    for l in lines: print(l)
    sys.stdout.flush()
    sys.exit(rc)


def known_findings(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get('known', []) if k['property'] == prop]


if __name__ == '__main__':
    main()
