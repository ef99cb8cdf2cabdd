#!/usr/bin/env python3
"""Development: makes /verif/seeded/<id>/ out of seeds.py and confirms each: the patch applies, touches lines of the
original repository, builds, passes the tests, and its demonstration fails with it only.
Usage: mkseed.py [id-prefix ...]"""
import json, os, re, shutil, subprocess, sys
sys.path.insert(0, '/verif/tools')
import seeds
BASE = '0624ec1'
W = '/tmp/seedw'
REPO = W + '/repo'
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
DEMO = '''#!/bin/bash
# Builds the program beside this file against the crate in the current directory and runs it.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
d="$(mktemp -d)"
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cp "$repo/Cargo.lock" "$d/Cargo.lock"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
binschema = { path = "$repo/binschema" }
serde = { version = "1", features = ["derive"] }
[profile.dev]
debug = 0
[workspace]
T
cd "$d" && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target" timeout 250 cargo run --offline -q
'''
MIS = DEMO.replace('cd "$d" && CARGO', '''export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
cd "$d" && timeout 200 cargo run --offline -q || exit 1
# the same with one misuse must not compile
cp "$here/misuse.rs" src/main.rs
if timeout 80 cargo check --offline -q 2> log; then
    echo "BROKEN: the misuse is accepted"
    exit 1
fi
grep -q '^error' log
''' + chr(0)).split(chr(0))[0]
pre = sys.argv[1:]
os.makedirs(W, exist_ok=True)
if not os.path.exists(REPO):
    sh('cp -a /repo ' + REPO)
bad = []
for s in seeds.S:
    id, prop, f, subs, needs, breaks, main = s
    if pre and not any(id.startswith(p) for p in pre):
        continue
    sh('git -C %s fetch -q /repo HEAD; git -C %s checkout -qf FETCH_HEAD' % (REPO, REPO))
    if isinstance(f, str):
        subs = [(f, a, b) for a, b in subs]
    ok = True
    for g, a, b in subs:
        p = os.path.join(REPO, g)
        t = open(p).read()
        if t.count(a) != 1:
            print(id, 'found', t.count(a), 'times:', a[:70]); ok = False
        open(p, 'w').write(t.replace(a, b))
    if not ok:
        bad.append(id); continue
    d = os.path.join('/verif/seeded', id)
    os.makedirs(d, exist_ok=True)
    diff = sh('git -C %s diff' % REPO).stdout
    open(d + '/patch.diff', 'w').write(diff)
    mis = '//-' in main
    if mis:
        open(d + '/misuse.rs', 'w').write(''.join(l + '\n' for l in main.split('\n') if not l.endswith('//+')))
        main = ''.join(l + '\n' for l in main.split('\n') if not l.endswith('//-'))
    open(d + '/main.rs', 'w').write(main)
    open(d + '/demo.sh', 'w').write(MIS if mis else DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    # lines of the original
    for g in set(x[0] for x in subs):
        orig = set(l.strip() for l in sh('git -C /repo show %s:%s' % (BASE, g)).stdout.splitlines())
        rem = [l[1:].strip() for l in sh('git -C %s diff -U0 -- %s' % (REPO, g)).stdout.splitlines() if l[:1] == '-' and l[:3] != '---']
        if not any(r in orig for r in rem if r and len(r) > 1):
            print(id, 'changes no original line:', rem[:4]); ok = False
        new = [r for r in rem if r not in orig]
        if new:
            print(id, 'NOTE changes lines not original:', new[:3])
    t = sh('cd %s && cargo test --offline --workspace 2>&1' % REPO)
    if t.returncode:
        print(id, 'tests fail', t.stdout[-400:]); ok = False
    r1 = sh('cd %s && bash %s/demo.sh' % (REPO, d))
    r0 = sh('cd /repo && bash %s/demo.sh' % d)
    if r0.returncode:
        print(id, 'demo fails on the unchanged tree:', r0.stdout[-600:]); ok = False
    if not r1.returncode or 'BROKEN' not in r1.stdout and 'panicked' not in r1.stdout and 'error' not in r1.stdout:
        print(id, 'demo with the patch:', r1.returncode, r1.stdout[-600:]); ok = False
    print(id, 'confirmed' if ok else 'NOT CONFIRMED', '| with patch:', [l for l in r1.stdout.splitlines() if 'BROKEN' in l or 'panicked' in l][:1], flush=True)
    if not ok:
        bad.append(id)
        shutil.rmtree(d)
sh('git -C %s checkout -qf .' % REPO)
print('bad:', bad)
