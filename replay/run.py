""" usage: run.py PROPERTY --seed N --tier quick --out FILE [--hints FILE] [--limit SECONDS]
       run.py --replay FILE        (run one recorded failing input again)
"""
import argparse
import hashlib
import importlib
import json
import os
import sys
import time
import warnings

HERE = os.path.dirname(os.path.abspath(__file__))
SRC = os.environ.get('VERIF_SRC', '/repo/src')
sys.path.insert(0, SRC)
sys.path.insert(0, os.path.dirname(HERE))
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')

from replay import core  # noqa: E402


def load(prop):
    import razorback
    assert os.path.abspath(razorback.__file__).startswith(os.path.join(SRC, '')), razorback.__file__
    importlib.import_module('replay.r_%s' % prop.lower())
    return core.SCENARIOS.get(prop, [])


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--seed', default='1')
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--out')
    ap.add_argument('--hints')
    ap.add_argument('--limit', type=float, default=120)
    ap.add_argument('--min', type=float, default=0)
    ap.add_argument('--replay')
    ap.add_argument('--only')
    a = ap.parse_args()
    if a.replay:
        rec = json.load(open(a.replay))
        f = rec['failing_input']
        fn = {n: g for n, g, _, _ in load(rec['property'])}[f['scenario']]
        case = core.Case(f['seed'], f['index'], f['tier'], f.get('hint'))
        r = core.run_one(fn, case, SRC)
        print(json.dumps(r, indent=1) if isinstance(r, dict) else 'holds')
        sys.exit(1 if isinstance(r, dict) else 0)
    hints = json.load(open(a.hints)) if a.hints else []
    t0 = time.time()
    evaluations, keys, samples, failures, skipped = 0, set(), [], [], 0
    per = {}
    scs = load(a.prop)
    if a.only:
        scs = [s for s in scs if s[0] == a.only]
    share = a.limit / max(1, len(scs))
    least = a.min / max(1, len(scs))
    cut = False
    for name, fn, quick, thorough in scs:
        n = quick if a.tier == 'quick' else thorough
        t1 = time.time()
        count = 0
        for i in range(-len(hints), 10 * n):
            spent = time.time() - t1
            if i >= n and (spent > least or n < 10):
                break
            if spent > share:
                cut = True
                break
            hint = hints[-i - 1] if i < 0 else None
            seed = '%s/%s/%s' % (a.seed, a.prop, name)
            case = core.Case(seed, i, a.tier, hint)
            r = core.run_one(fn, case, SRC)
            if r == 'skip':
                skipped += 1
                continue
            evaluations += 1
            count += 1
            if case.key is not None:
                h = hashlib.sha1((name + repr(case.key)).encode()).hexdigest()
                if h not in keys:
                    keys.add(h)
                    if count <= 2:
                        samples.append('%s: %s' % (name, str(case.desc)[:400]))
            if isinstance(r, dict):
                failures.append(dict(scenario=name, seed=seed, index=i, tier=a.tier, hint=hint, **r))
                break
        per[name] = count
    res = dict(evaluations=evaluations, distinct=len(keys), samples=samples[:20], failures=failures,
               skipped=skipped, per_scenario=per, cut=cut, wall_s=round(time.time() - t0, 2))
    txt = json.dumps(res, indent=1)
    if a.out:
        with open(a.out, 'w') as f:
            f.write(txt)
    else:
        print(txt)


main()
