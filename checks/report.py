"""Merges the results of the jobs of a check, writes the evidence file and decides the exit code."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = os.path.join(ROOT, 'known_findings.json')


def known(pid):
    with open(FINDINGS) as f:
        d = json.load(f)
    return [k for k in d['known'] if k['property'] == pid]


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, (int, float)) and not isinstance(v, bool):
            a[k] = a.get(k, 0) + v
        elif isinstance(v, (set, frozenset)):
            a[k] = set(a.get(k, ())) | v
        elif isinstance(v, list):
            a[k] = a.get(k, []) + v
        elif isinstance(v, dict):
            a[k] = merge(a.get(k, {}), v)
        else:
            a[k] = v
    return a


def finish(pid, mod, tier, results, wall, partial=False):
    errors = [r for r in results if r['error']]
    cov = {}
    viol = {}
    for r in results:
        merge(cov, r['coverage'])
        for v in r['violations']:
            viol.setdefault(v['key'], v)
    cov = {k: sorted(v) if isinstance(v, (set, frozenset)) else v for k, v in cov.items()}
    for k, v in list(cov.items()):
        if isinstance(v, list) and len(v) > 400:
            cov[k] = v[:400] + ['... %d more' % (len(v) - 400)]
    cov['explanation'] = mod.EXPLANATION
    cov['rule'] = mod.RULE
    broken = []
    if not partial:
        for name, least in getattr(mod, 'MINIMUM', {}).items():
            got = cov.get(name, 0)
            got = len(got) if isinstance(got, (list, dict)) else got
            if got < least:
                broken.append('%s: %d analysed, at least %d expected' % (name, got, least))
    ks = known(pid)
    fresh, old = [], []
    for key in sorted(viol):
        v = viol[key]
        k = next((k for k in ks if k['key'] == key), None)
        (old if k else fresh).append((v, k))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    path = os.path.join(ROOT, 'evidence', pid + '.json')
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': cov, 'wall_s': round(wall, 1), 'assumptions': list(getattr(mod, 'ASSUMPTIONS', [])),
          'violations': [v for v, _ in fresh] + [dict(v, known=True) for v, _ in old]}
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    for v, k in old:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    for v, _ in fresh:
        print('%s: %s' % (v['where'], v['message']))
        for line in v.get('trace', [])[:8]:
            print('    ' + line)
    if fresh:
        rp = os.path.join(ROOT, 'evidence', pid + '.violations.json')
        with open(rp, 'w') as f:
            json.dump([v for v, _ in fresh], f, indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    for r in errors:
        print('job %s failed:\n%s' % (r['job'], r['error']), file=sys.stderr)
    for b in broken:
        print('incomplete: ' + b, file=sys.stderr)
    if errors or broken:
        return 2
    print('%s holds: %s' % (pid, {k: (len(v) if isinstance(v, (list, dict)) else v) for k, v in cov.items()
                                  if k not in ('explanation', 'rule')}))
    return 0
