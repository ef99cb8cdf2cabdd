#!/usr/bin/env python3
"""Prints why each case of misuse is refused."""
import sys, tempfile, shutil
sys.path.insert(0, '/verif/sa')
import build, misuse
d = build.dump(('misuse',))
dir = tempfile.mkdtemp()
if '-o' in sys.argv:
    sys.argv.remove('-o')
    for c in misuse.cases('open.rs'):
        if len(sys.argv) < 2 or c[0] in sys.argv[1:]:
            print(c[0], misuse.compile(d['rmeta'], dir, c[0] + '.a', c[4], misuse.HEAD28), misuse.compile(d['rmeta'], dir, c[0] + '.b', c[5], misuse.HEAD28))
    sys.exit()
for c in misuse.cases():
    if len(sys.argv) < 2 or c[0] in sys.argv[1:]:
        a = misuse.compile(d['rmeta'], dir, c[0] + '.a', c[4])
        b = misuse.compile(d['rmeta'], dir, c[0] + '.b', c[5])
        print(c[0], a, b if b else '')
shutil.rmtree(dir)
