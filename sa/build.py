"""Builds the MIR dump of the crate in /repo (and of the witness crate that
instantiates its generic parts) from the current working tree."""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
DRIVER = os.path.join(BUILD, 'driver', 'release', 'mirdump')
DUMP = os.path.join(BUILD, 'dump')
TARGET = os.path.join(BUILD, 'witness')
ALL = ('witness', 'shapes', 'derived', 'forms', 'errs', 'same', 'misuse')


class BuildError(Exception):
    pass


def run(cmd, cwd, env=None):
    e = dict(os.environ)
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def build_driver():
    rc, out = run(['cargo', '+nightly', 'build', '--release', '--offline', '--target-dir', os.path.join(BUILD, 'driver')],
                  os.path.join(VERIF, 'driver'))
    if rc:
        raise BuildError('the analysis driver does not build:\n' + out[-3000:])


def sysroot():
    rc, out = run(['rustc', '+nightly', '--print', 'sysroot'], VERIF)
    return out.strip()


def dump(witnesses=('witness',)):
    """Rebuilds the crate and the witness crates under the driver; returns the dump paths."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        build_driver()
        os.makedirs(DUMP, exist_ok=True)
        for f in glob.glob(os.path.join(DUMP, '*.json')):
            os.remove(f)
        # cargo decides by time stamps: take no chance
        for pat in ('debug/build/binschema', 'debug/build/witness', 'debug/build/binschema_derive',
                    'debug/.fingerprint/binschema*') + tuple('debug/.fingerprint/%s*' % n for n in ALL):
            for d in glob.glob(os.path.join(TARGET, pat)):
                shutil.rmtree(d, ignore_errors=True)
        env = {
            'LD_LIBRARY_PATH': sysroot() + '/lib',
            'RUSTC_WRAPPER': DRIVER,
            'MIRDUMP_CRATES': ','.join(('binschema',) + ALL),
            'MIRDUMP_OUT': DUMP,
            'MIRDUMP_STOPS': '/dev/null',
            'CARGO_INCREMENTAL': '0',
        }
        res = {'log': {}}
        for n in witnesses or ('witness',):
            rc, out = run(['cargo', '+nightly', 'check', '--offline', '--target-dir', TARGET], os.path.join(VERIF, n), env)
            p = os.path.join(DUMP, 'binschema.json')
            if not os.path.exists(p):
                raise BuildError('the crate does not build under the analysis driver:\n' + out[-3000:])
            res['binschema'] = p
            p = os.path.join(DUMP, n + '.json')
            if os.path.exists(p):
                res[n] = p
            if rc:
                res['log'][n] = out
        if 'misuse' in witnesses:
            res['rmeta'] = rmeta(env)
        for n in ALL:
            # those the others depend on
            p = os.path.join(DUMP, n + '.json')
            if os.path.exists(p):
                res[n] = p
        return res


def rmeta(env):
    """What client code of the crate is compiled against."""
    rc, out = run(['cargo', '+nightly', 'check', '--offline', '--message-format', 'json', '--target-dir', TARGET], os.path.join(VERIF, 'misuse'), env)
    main, dirs, serde = None, [], None
    for l in out.split('\n'):
        if l.startswith('{'):
            m = json.loads(l)
            if m.get('reason') == 'compiler-artifact':
                for f in m['filenames']:
                    d = os.path.dirname(f)
                    if d not in dirs:
                        dirs.append(d)
                    if m['target']['name'] == 'binschema' and f.endswith('.rmeta'):
                        main = f
                    if m['target']['name'] == 'serde' and f.endswith('.rmeta'):
                        serde = f
    return main and (main, dirs, serde)


def digest():
    """Identifies the analysed source."""
    h = hashlib.sha256()
    for d in ('binschema/src', 'binschema_derive/src'):
        for root, _, fs in sorted(os.walk(os.path.join(REPO, d))):
            for f in sorted(fs):
                p = os.path.join(root, f)
                h.update(os.path.relpath(p, REPO).encode())
                h.update(open(p, 'rb').read())
    return h.hexdigest()[:16]
