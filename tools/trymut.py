#!/usr/bin/env python3
"""Development: applies each change of mutants.py to a copy of /repo, builds, runs the
tests (optionally) and all analyses there. Usage: trymut.py [-t] [id-prefix ...]"""
import os, subprocess, sys, shutil
sys.path.insert(0, '/verif/tools')
import mutants
W = os.environ.get('MUTDIR', '/tmp/mw')
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
tests = '-t' in sys.argv
pre = [a for a in sys.argv[1:] if a[0] != '-']
if not os.path.exists(W):
    os.makedirs(W)
    sh('cp -a /repo %s/repo' % W)
sh('mkdir -p %s/verif; rsync -a --delete --exclude seeded --exclude .git --exclude build/dump /verif/ %s/verif/ 2>/dev/null || (rm -rf %s/verif; cp -a /verif %s/verif)' % (W, W, W, W))
sh("sed -i 's#/repo/binschema#%s/repo/binschema#' %s/verif/*/Cargo.toml; sed -i 's#/verif/#%s/verif/#g' %s/verif/tools/all.py" % (W, W, W, W))
for id, prop, f, subs in mutants.M:
    if pre and not any(id.startswith(p) for p in pre):
        continue
    sh('git -C %s/repo fetch -q /repo HEAD; git -C %s/repo checkout -qf FETCH_HEAD' % (W, W))
    p = os.path.join(W, 'repo', f)
    s = open(p).read()
    ok = True
    for a, b in subs:
        if a not in s:
            ok = False
            print('==', id, 'DOES NOT APPLY:', a[:60])
        s = s.replace(a, b)
    if not ok:
        continue
    open(p, 'w').write(s)
    t = ''
    if tests:
        r = sh('cd %s/repo && cargo test --offline --workspace 2>&1 | grep -E "^test result|error|FAILED|failed" | sort | uniq -c' % W)
        t = 'TESTS FAIL' if ('FAILED' in r.stdout or 'error' in r.stdout) else 'tests pass'
    if '-n' in sys.argv:
        r = sh('cd %s/verif && VERIF_REPO=%s/repo python3 -c "import sys; sys.path.insert(0, \'sa\'); import build; build.dump()"' % (W, W))
        print(id, r.stdout[-300:])
        continue
    r = sh('VERIF_REPO=%s/repo python3 %s/verif/tools/all.py' % (W, W))
    got = [l.split()[0] for l in r.stdout.splitlines() if l[:1] == 'C' and l[1:3].isdigit()]
    verdict = ('ok' if not got else 'FALSE ALARM') if prop == 'ok' else ('caught' if prop in got else 'MISSED')
    print('==', id, prop, verdict, got, t, flush=True)
    lines = r.stdout.splitlines()
    if verdict in ('MISSED', 'FALSE ALARM') or prop == 'ok' and len(lines) > 1:
        print('\n'.join(l[:420] for l in lines[:24]), flush=True)
sh('git -C %s/repo checkout -qf .' % W)
