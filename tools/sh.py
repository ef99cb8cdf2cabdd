import sys, os, time, fnmatch
sys.path.insert(0, '/verif/sa'); sys.setrecursionlimit(20000)
import shapes, world
from prog import Prog
D = os.environ.get('DUMP', '/verif')
crate, mod = sys.argv[1].split('/')
p = Prog(D + '/build/dump/%s.json' % crate, ('binschema', 'shapes'))
from types import SimpleNamespace
w = SimpleNamespace(prog=p)
for n in shapes.roots(p, mod):
    if len(sys.argv) > 2 and not any(fnmatch.fnmatch(n.split('::')[-1], a) for a in sys.argv[2:]):
        continue
    t = time.time()
    s = shapes.Shape(w, n)
    s.go()
    print('%-22s %5.1fs %4d out %5d cases %4d obl  %s' % (n.split('::')[-1], time.time() - t, s.outcomes, s.cases, len(s.seen), shapes.show(s.tree)[:90] if s.tree else None))
    for x in s.violations: print('    VIOL', x)
    for x, k in s.notes.items(): print('    note', k, x[:600])
