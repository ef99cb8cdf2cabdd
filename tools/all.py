#!/usr/bin/env python3
"""Development: runs every analysis once and prints what each property would report."""
import sys, os
sys.path.insert(0, '/verif/sa'); sys.setrecursionlimit(20000)
import build, rules
props = os.environ.get('PROPS', '').split() or ['C%02d' % i for i in range(1, 25)]
d = build.dump(rules.witnesses(props))
todo, viol, res = rules.decide_all(d, props)
by = {}
for q, s, c, m in viol:
    by.setdefault(q, []).append((s, c, m))
for q in sorted(by):
    print(q, len(by[q]))
    for x in by[q][:int(os.environ.get('N', '3'))]:
        print('    ', ' | '.join(x)[:400])
notes = {}
for r in res:
    for n in r.get('notes', ()):
        notes.setdefault(n, []).append(str(r['task']))
for n, l in list(notes.items())[:int(os.environ.get('NN', '4'))]:
    print('  note', len(l), l[0][:80], n[:500])
print('total', len(viol), 'violations', len(notes), 'notes', 'slowest', sorted([(round(r['wall']), str(r['task'])) for r in res])[-2:])
