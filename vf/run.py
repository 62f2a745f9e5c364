"""Entry point: python -m vf.run ID [--tier T] [--replay FILE]"""
import argparse
import importlib
import json
import os
import re
import sys
import time
import traceback

from . import core


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier')
    ap.add_argument('--replay')
    ap.add_argument('--part')
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args()
    if a.tier:
        core.TIER = a.tier
    t0 = time.time()
    mod = importlib.import_module('vf.props.' + a.id.lower())
    parts = {p.name: p for p in mod.PARTS}

    if a.replay:
        with open(a.replay) as f:
            r = json.load(f)
        if r['part'].startswith('finding:'):
            print('replay files of known findings are re-run by the check itself')
            return 2
        try:
            core.run_case(parts[r['part']], r['case'], core.Stats())
        except core.Violation as e:
            print(e)
            print('VIOLATION property=%s replay=%s' % (a.id, a.replay))
            return 1
        except core.Abort as e:
            print(e.args[0])
            print('VIOLATION property=%s replay=%s' % (a.id, a.replay))
            return 1
        print('replay passes')
        return 0

    fails = []
    stats = {}
    known = core.known_findings().get(a.id, {})
    probes = getattr(mod, 'FINDINGS', {})
    if set(known) != set(probes):
        print('known_findings.txt and the probes of %s disagree: %s / %s' % (a.id, sorted(known), sorted(probes)))
        return 2
    nknown = 0
    for key, (part, case) in sorted(probes.items()):
        st = core.Stats()
        try:
            core.run_case(parts[part] if isinstance(part, str) else part, core.clean(case), st)
            print('note: known finding %s of %s did not occur on this tree' % (key, a.id))
        except (core.Violation, core.Abort) as e:
            nknown += 1
            print('KNOWN-FINDING: property=%s finding=%s %s [%s]' % (a.id, key, known[key], str(e.args[0])[:160]))
    for part in mod.PARTS:
        if a.part and part.name != a.part:
            continue
        count = part.quick if core.TIER == 'quick' else part.thorough
        count = max(1, int(count * a.scale))
        st = stats[part.name] = core.Stats()
        t1 = time.time()
        fail = core.run_part(part, core.SEED, count, st)
        st.wall = time.time() - t1
        print('%s %-22s %6d cases, %6d non-trivial and distinct, %.1f s  %s' % (
            a.id, part.name, st.evaluations, len(st.keys), st.wall,
            ' '.join('%s=%d' % kv for kv in sorted(st.labels.items()))))
        if fail:
            fails.append((part.name,) + fail)

    vio = []
    rdir = os.path.join(core.HOME, 'evidence', 'replays')
    os.makedirs(rdir, exist_ok=True)
    for name, msg, case in fails:
        path = os.path.join(rdir, '%s-%s.json' % (a.id, re.sub(r'\W+', '_', name)))
        with open(path, 'w') as f:
            json.dump({'property': a.id, 'part': name, 'message': msg, 'case': case}, f, indent=1)
        vio.append((path, msg, case))
    samples = []
    for name, st in stats.items():
        samples.extend(st.samples[:2])
    ev = {
        'property': a.id, 'tier': core.TIER, 'seed': core.SEED, 'level': getattr(mod, 'LEVEL', 'exploration'),
        'coverage': {
            'evaluations': sum(s.evaluations for s in stats.values()),
            'distinct_nontrivial': sum(len(s.keys) for s in stats.values()),
            'rule': mod.RULE,
            'samples': samples[:8],
            'parts': {n: {'evaluations': s.evaluations, 'distinct_nontrivial': len(s.keys),
                          'labels': dict(sorted(s.labels.items()))} for n, s in stats.items()},
            'known_findings_seen': nknown,
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(vio),
    }
    with open(os.path.join(core.HOME, 'evidence', a.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for path, msg, case in vio:
        print(msg)
        print('  case: ' + core.show(case))
        print('VIOLATION property=%s replay=%s' % (a.id, path))
    return 1 if vio else 0


if __name__ == '__main__':
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
