#!/usr/bin/env python3
"""Development: one property's tasks, one line each."""
import sys; sys.path.insert(0,'/verif/sa'); sys.setrecursionlimit(20000)
import build, rules
P=sys.argv[1:]
d=build.dump(rules.witnesses(P))
todo, viol, res = rules.decide_all(d, P)
for r in sorted(res,key=lambda r:str(r['task'])):
    if r.get('violations') or r.get('notes'):
        print(r['task'], r.get('violations'), [n.strip()[-int(__import__('os').environ.get('W','200')):] for n in r.get('notes',{})])
print(len(res),'tasks', len(viol),'violations', sum(r.get('cases',0) for r in res), 'cases')
