#!/usr/bin/env python3-vt
""" usage: check.py PROPERTY        (environment: VERIF_SEED, VERIF_TIER)

1. deciding step: every obligation generated from /repo/src for the contracts of the property
   is given to the verifier (pyvc: z3, cvc5);
2. replay: the postconditions are evaluated on the real code, on the counterexamples of the
   verifier and on generated inputs (also the bounded stand-in of what the verifier leaves open).

exit 0: held, 1: VIOLATION line.
"""
import concurrent.futures as cf
import importlib
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
SRC = os.environ.get('VERIF_SRC', '/repo/src')
PY = '/opt/venv/bin/python'
LEVELS = {'quick': 60, 'thorough': 200}          # seconds per contract case
REPLAY = {'quick': 100, 'thorough': 420}         # seconds
MIN = {'quick': 20, 'thorough': 60}


def _run(args):
    modname, name, budget = args
    from contracts import base
    importlib.import_module('contracts.' + modname)
    c = next(c for c in base.CASES if c.name == name)
    return base.run_case(c, os.path.join(SRC, 'razorback'), budget)


def contract_cases(prop):
    from contracts import base
    from contracts.index import MODULES
    out = []
    for m in MODULES.get(prop, ()):
        n0 = len(base.CASES)
        mod = importlib.import_module('contracts.' + m)
        for c in base.CASES:
            if prop in c.prop and c.fn.__module__ == mod.__name__:
                out.append((m, c.name, c.kwds))
    return out


def run_contracts(prop, tier):
    cases = contract_cases(prop)
    res = []
    if not cases:
        return res
    limit = LEVELS[tier]
    import multiprocessing as mp
    ctx = mp.get_context('fork')
    pool = ctx.Pool(min(8, len(cases)), maxtasksperchild=1)
    try:
        jobs = [(name, pool.apply_async(_run, ((m, name, kw.get('budget', limit)),))) for m, name, kw in cases]
        end = time.time() + (280 if tier == 'quick' else 600)
        for name, j in jobs:
            try:
                res.append(j.get(max(1, end - time.time())))
            except mp.TimeoutError:
                res.append(dict(case=name, func=name.split(' ')[0], status='budget', note='time limit', obligations=[],
                                seconds=0, solver_s=0, paths=0, executed=[], assumptions=[]))
            except Exception as e:
                res.append(dict(case=name, func=name.split(' ')[0], status='internal', note=repr(e), obligations=[],
                                seconds=0, solver_s=0, paths=0, executed=[], assumptions=[]))
    finally:
        pool.terminate()
    return res


def start_replay(prop, seed, tier, hints, tag, limit, work):
    out = os.path.join(work, '%s.%s.out.json' % (prop, tag))
    hf = os.path.join(work, '%s.%s.hints.json' % (prop, tag))
    with open(hf, 'w') as f:
        json.dump(hints, f)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', VERIF_SRC=SRC)
    p = subprocess.Popen([PY, os.path.join(HERE, 'replay', 'run.py'), prop, '--seed', seed, '--tier', tier,
                          '--out', out, '--hints', hf, '--limit', str(limit), '--min', str(MIN[tier])],
                         env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd='/')
    return p, out


def end_replay(p, out, limit):
    try:
        txt, _ = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        return dict(error='replay time limit')
    if p.returncode or not os.path.exists(out):
        return dict(error='replay failed: ' + (txt or '')[-3000:])
    return json.load(open(out))


def known_findings(prop):
    path = os.path.join(HERE, 'known_findings.txt')
    res = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                rest = line.split(' ', 2)[2]
                key, _, what = rest.partition(' :: ')
                res.append((key.strip(), what.strip()))
    return res


def main():
    prop = sys.argv[1]
    seed = os.environ.get('VERIF_SEED', '1')
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in LEVELS else 'quick'
    t0 = time.time()
    evid = os.path.join(HERE, 'evidence')
    os.makedirs(evid, exist_ok=True)
    import tempfile
    work = tempfile.mkdtemp(prefix='verif-')
    try:
        code = decide(prop, seed, tier, t0, evid, work)
    finally:
        for f in os.listdir(work):
            os.remove(os.path.join(work, f))
        os.rmdir(work)
    sys.exit(code)


def decide(prop, seed, tier, t0, evid, work):
    manifest = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    level = next((c['level'] for c in manifest['checks'] if c['property'] == prop), 'other')
    proc, out = start_replay(prop, seed, tier, [], 'gen', REPLAY[tier], work)
    cases = run_contracts(prop, tier)
    gen = end_replay(proc, out, REPLAY[tier] + 120)
    obs = [dict(o, case=c['case']) for c in cases for o in c['obligations']]
    bad = [o for o in obs if o['status'] == 'refuted']
    open_ = [o for o in obs if o['status'] == 'unknown']
    undecided = [c for c in cases if c['status'] != 'ok']
    failures = list(gen.get('failures', ()))
    hinted = None
    if (bad or open_) and not failures:
        hints = [o['model'] for o in bad + open_ if o.get('model')][:12]
        # counterexamples, then a deeper search around the failed obligations
        p2, out2 = start_replay(prop, seed + 'x', 'thorough' if tier == 'quick' else tier, hints, 'hint', 150, work)
        hinted = end_replay(p2, out2, 300)
        failures = list(hinted.get('failures', ()))
    for r in (gen, hinted):
        if r and r.get('error'):
            print('replay error:', r['error'])
    code = 0
    kf = known_findings(prop)
    seen_kf = set()
    violations = []
    for f in failures:
        k = next((k for k in kf if k[0] in '%s %s' % (f['scenario'], f['what'])), None)
        if k:
            seen_kf.add(k)
        else:
            violations.append(('input', f))
    if not failures:
        names = []
        for o in bad:
            k = next((k for k in kf if k[0] in o['name']), None)
            if k:
                seen_kf.add(k)
            else:
                names.append(o)
        if names:
            violations.append(('obligation', names))
    for k in sorted(seen_kf):
        print('KNOWN-FINDING: property=%s %s' % (prop, k[1]))
    path = os.path.join(evid, '%s.replay.json' % prop)
    if os.path.exists(path):
        os.remove(path)
    failed_names = [o['name'] for o in bad]
    if violations:
        kind, f = violations[0]
        rec = dict(property=prop, seed=seed, tier=tier, failed_obligations=bad[:20],
                   undischarged=open_[:20], undecided_cases=[(c['case'], c['status'], c['note']) for c in undecided])
        suffix = ''
        if kind == 'input':
            rec['failing_input'] = f
            rec['rerun'] = '%s %s/replay/run.py --replay %s' % (PY, HERE, path)
            print('failing input: %s: %s' % (f['scenario'], f['what']))
            print('   ', json.dumps(f['inputs'])[:1500])
        else:
            suffix = ' no-failing-input-found'
            rec['search'] = {k: v for k, v in (hinted or {}).items() if k != 'samples'}
        for n in failed_names[:10]:
            print('failed obligation:', n)
        with open(path, 'w') as h:
            json.dump(rec, h, indent=1, default=str)
        print('VIOLATION property=%s replay=%s%s' % (prop, path, suffix))
        code = 1
    proved = [o for o in obs if o['status'] == 'proved']
    backends = {}
    for o in proved:
        backends[o['backend']] = backends.get(o['backend'], 0) + 1
    executed = sorted({f for c in cases for f in c['executed']})
    from contracts.index import TRUSTED, BOUNDED
    trusted = list(TRUSTED.get('*', [])) + list(TRUSTED.get(prop, []))
    assumptions = sorted({a for c in cases for a in c['assumptions']})
    cov = dict(
        obligations=len(obs), discharged=len(proved),
        checker_cmd='python3-vt /verif/check.py %s' % prop,
        trusted_base=trusted + assumptions,
        refuted=len(bad), undischarged=len(open_),
        backends=backends,
        contract_cases=[dict(case=c['case'], status=c['status'], obligations=len(c['obligations']),
                             discharged=sum(o['status'] == 'proved' for o in c['obligations']),
                             paths=c['paths'], seconds=c['seconds'], solver_s=c['solver_s'], note=c['note'][-300:])
                        for c in cases],
        functions_under_contract=sorted({c['func'] for c in cases}),
        functions_verified_from_source=executed,
        solver_s=round(sum(c['solver_s'] for c in cases), 2),
        undecided_cases=[c['case'] for c in undecided],
        undischarged_names=[o['name'] for o in open_][:50],
        bounded_stand_in=BOUNDED.get(prop, []),
        evaluations=gen.get('evaluations', 0) + (hinted or {}).get('evaluations', 0),
        distinct_nontrivial=gen.get('distinct', 0),
        rule='inputs drawn at random from VERIF_SEED (see replay/r_%s.py); a case is counted once per distinct '
             'parameter tuple and only when it satisfies the precondition; bounded, never counted as proved'
             % prop.lower(),
        samples=gen.get('samples', []),
        per_scenario=gen.get('per_scenario', {}),
        explanation='obligations are verification conditions generated from /repo/src on this run and discharged for '
                    'all inputs; evaluations are executions of the real code used for replay and bounded stand-ins',
    )
    ev = dict(property=prop, tier=tier, seed=int(seed) if seed.isdigit() else 0, level=level, coverage=cov,
              assumptions=trusted + assumptions, wall_s=round(time.time() - t0, 2),
              violations=len(violations))
    with open(os.path.join(evid, '%s.json' % prop), 'w') as h:
        json.dump(ev, h, indent=1, default=str)
    print('%s: %d/%d obligations discharged, %d refuted, %d undischarged, %d undecided cases; %d executions; %.0f s' % (
        prop, len(proved), len(obs), len(bad), len(open_), len(undecided), cov['evaluations'], time.time() - t0))
    for c in undecided:
        print('   undecided: %s: %s %s' % (c['case'], c['status'], c['note'][:200]))
    for o in open_[:10]:
        print('   undischarged:', o['name'])
    if code == 0 and gen.get('error'):
        return 2
    return code


if __name__ == '__main__':
    main()
