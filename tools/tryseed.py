#!/usr/bin/env python3
"""Development: applies planted bugs to a copy of /repo and runs the check of their property there.
tryseed.py [-b: build only] id-prefix..."""
import os, subprocess, sys, glob, json
V = '/verif'
W = os.environ.get('MUTDIR', '/tmp/mw')
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.exists(W):
    os.makedirs(W)
    sh('cp -a /repo %s/repo' % W)
sh('mkdir -p %s/verif; rsync -a --delete --exclude seeded --exclude .git --exclude build/dump /verif/ %s/verif/ 2>/dev/null || (rm -rf %s/verif; cp -a /verif %s/verif)' % (W, W, W, W))
sh("sed -i 's#/repo/binschema#%s/repo/binschema#' %s/verif/*/Cargo.toml; sed -i 's#/verif/#%s/verif/#g' %s/verif/tools/all.py" % (W, W, W, W))
pre = [a for a in sys.argv[1:] if a[0] != '-']
for d in sorted(glob.glob(V + '/seeded/*')):
    id = os.path.basename(d)
    if pre and not any(id.startswith(p) for p in pre):
        continue
    prop = json.load(open(d + '/meta.json'))['property']
    sh('git -C %s/repo fetch -q /repo HEAD; git -C %s/repo checkout -qf FETCH_HEAD' % (W, W))
    r = sh('git -C %s/repo apply %s/patch.diff' % (W, d))
    if r.returncode:
        print('==', id, 'DOES NOT APPLY')
        continue
    if '-b' in sys.argv:
        r = sh('cd %s/verif && VERIF_REPO=%s/repo python3 -c "import sys; sys.path.insert(0, \'sa\'); import build; build.dump()"' % (W, W))
        print(id, 'built', r.stdout[-300:])
        continue
    r = sh('cd %s/verif && VERIF_REPO=%s/repo python3 check.py %s' % (W, W, prop))
    print('==', id, prop, {0: 'MISSED', 1: 'caught'}.get(r.returncode, 'NO ANSWER'), r.stdout.strip()[:200].replace('\n', ' | '), flush=True)
if '-b' not in sys.argv:
    sh('git -C %s/repo checkout -qf .' % W)
