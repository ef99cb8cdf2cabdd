#!/usr/bin/env python3
"""Decides one property of the code in /repo by static analysis.

  check.py <ID>          analyse, write evidence/<ID>.json, exit 0 or 1
"""
import json, os, sys, time
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'sa'))
sys.setrecursionlimit(20000)
import build
import rules


def known():
    """Findings recorded as known: (property, key)."""
    out = set()
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding: property='):
                pr, key = l[len('finding: property='):].split(' ', 1)
                out.add((pr, key))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    try:
        dumps = build.dump(rules.witnesses({prop}))
    except build.BuildError as e:
        print(str(e))
        sys.exit(2)
    kn = known()
    r = rules.decide(prop, dumps, tier, not any(p == prop for p, _ in kn))
    viol, listed = [], []
    for v in r['violations']:
        (listed if (prop, v['key']) in kn else viol).append(v)
    cov = r['coverage']
    cov['source'] = build.digest()
    cov['violations'] = len(viol)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov,
          'wall_s': round(time.time() - t0, 2)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for v in listed:
        print('KNOWN-FINDING: property=%s %s' % (prop, v['key']))
    rp = os.path.join(VERIF, 'evidence', prop + '.violations.json')
    if os.path.exists(rp):
        os.remove(rp)
    if viol:
        with open(rp, 'w') as f:
            json.dump({'property': prop, 'source': cov['source'], 'violations': viol}, f, indent=1)
        for v in viol[:12]:
            print('  %s: %s%s' % (v['where'], v['what'], ' [%s]' % v['in'] if v.get('in') else ''))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        sys.exit(1)
    print('%s holds on everything analysed: %s' % (prop, r['summary']))
    sys.exit(0)


main()
