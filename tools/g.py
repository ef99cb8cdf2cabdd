"""Runs glue drivers: g.py name... (DUMP=dir of a build)"""
import os, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'sa'))
sys.setrecursionlimit(20000)
import glue, world
from prog import Prog
D = os.environ.get('DUMP', V)
p = Prog(D + '/build/dump/witness.json', 'binschema')
w = world.World(p)
glue.setup(w)
names = glue.drivers(p)
for n in names:
    if len(sys.argv) > 1 and not any(a == n or a.endswith('*') and n.startswith(a[:-1]) for a in sys.argv[1:]):
        continue
    t0 = time.time()
    g = glue.Glue(w, n)
    try:
        g.go()
    except world.Anchor as e:
        print(n, 'ANCHOR', e)
        continue
    print('%-22s %4d outcomes %5d cases %6.1fs %s' % (n, g.outcomes, g.cases, time.time() - t0, g.stats))
    for v in sorted(set(g.violations)):
        print('    VIOL', v[0], v[1][:300])
    for k, c in sorted(g.notes.items()):
        print('    note', c, k[:300])
    for a in sorted(set(g.allocs)):
        print('    alloc', a)
