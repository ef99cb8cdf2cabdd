#!/usr/bin/env python3
"""Development: runs the analyses whose task contains all the words given."""
import sys, os
sys.path.insert(0, '/verif/sa'); sys.setrecursionlimit(20000)
import build, rules, tasks
d = build.dump(build.ALL[:1])
want = {'C%02d' % i for i in range(1, 25)} - {'C10', 'C11', 'C12'}
ctx = rules.context(d, want)
todo = []
for i in sorted(want):
    for t in rules.tasks_of(ctx, i):
        if t not in todo and all(x in str(t) for x in sys.argv[1:]):
            todo.append(t)
res = tasks.run_all(ctx, todo, limit=900)
for x in rules.attribute(res):
    print(x)
for r in res:
    print(r['task'], r.get('outcomes'), r.get('cases'), round(r['wall'], 1), list(r.get('notes', {}).items())[:3])
