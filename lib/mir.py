"""Builds the MIR of /repo's current tree (through the shadow workspace and the driver) and loads it.

The result is cached under /verif/.cache keyed by a hash of every source file that can influence it, so
several checks run on one tree compile it once; a changed tree never reuses an old dump.
"""
import os, re, sys, json, hashlib, subprocess, shutil, tempfile, time, fcntl
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(ROOT, '.cache')
CRATES = ['libspartan', 'secq256k1', 'poseidon', 'circuit_reader', 'spartan_wasm', 'gen_spartan_inst', 'mont_params', 'verif_inst']

class BuildError(Exception):
    pass

def _hash_tree(h, top, exts):
    for d, ds, fs in sorted(os.walk(top)):
        ds[:] = sorted(x for x in ds if x not in ('target', 'node_modules', '.git', '.cache', 'build'))
        for f in sorted(fs):
            if f.endswith(exts):
                p = os.path.join(d, f)
                h.update(os.path.relpath(p, top).encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(hashlib.sha256(fh.read()).digest())

def tree_hash():
    h = hashlib.sha256()
    _hash_tree(h, os.path.join(REPO, 'packages'), ('.rs', '.toml'))
    _hash_tree(h, os.path.join(ROOT, 'shadow'), ('.rs', '.toml', '.lock'))
    _hash_tree(h, os.path.join(ROOT, 'driver'), ('.rs',))
    return h.hexdigest()[:24]

def build():
    """Returns the directory with the dumps for the current tree."""
    os.makedirs(CACHE, exist_ok=True)
    key = tree_hash()
    out = os.path.join(CACHE, 'mir-' + key)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(os.path.join(out, 'done')):
            return out
        # keep the cache small
        olds = sorted((d for d in os.listdir(CACHE) if d.startswith('mir-')), key=lambda d: os.path.getmtime(os.path.join(CACHE, d)))
        for d in olds[:-3]:
            shutil.rmtree(os.path.join(CACHE, d), ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        tmp = tempfile.mkdtemp(prefix='mirbuild-')
        try:
            sysroot = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True, cwd=tmp).stdout.strip()
            dh = hashlib.sha256(open(os.path.join(ROOT, 'driver', 'main.rs'), 'rb').read()).hexdigest()[:16]
            drv = os.path.join(CACHE, 'driver-' + dh)
            if not os.path.exists(drv):
                r = subprocess.run(['rustc', '+nightly', '--edition', '2021', '-O', os.path.join(ROOT, 'driver', 'main.rs'), '-o', drv + '.tmp'], capture_output=True, text=True, cwd=tmp)
                if r.returncode:
                    raise RuntimeError('driver does not build: ' + r.stderr[-2000:])
                os.rename(drv + '.tmp', drv)
            env = dict(os.environ)
            env.update(CARGO_NET_OFFLINE='true', LD_LIBRARY_PATH=sysroot + '/lib', RUSTC_WORKSPACE_WRAPPER=drv, MIRDUMP_DIR=out, MIRDUMP_CRATES=','.join(CRATES))
            env['RUSTFLAGS'] = '-Zalways-encode-mir'
            shadow = os.path.join(ROOT, 'shadow')
            if REPO != '/repo':
                # analysing another checkout: the shadow manifests name /repo
                sh2 = os.path.join(tmp, 'shadow')
                shutil.copytree(shadow, sh2)
                for d, _, fs in os.walk(sh2):
                    for f in fs:
                        if f == 'Cargo.toml':
                            p = os.path.join(d, f)
                            s = open(p).read()
                            open(p, 'w').write(s.replace('"/repo/', '"%s/' % REPO))
                shadow = sh2
            r = subprocess.run(['cargo', '+nightly', 'check', '--keep-going', '--offline', '--locked', '--target-dir', os.path.join(tmp, 't')], capture_output=True, text=True, cwd=shadow, env=env)
            # a crate that does not compile fails only the checks that analyse it (see prog)
            open(os.path.join(out, 'stderr'), 'w').write(r.stderr if r.returncode else '')
            if r.returncode:
                for c, b in re.findall(r'could not compile `([\w-]+)`(?: \(bin "([\w-]+)")?', r.stderr):
                    p = os.path.join(out, (b or {'spartan': 'libspartan'}.get(c, c)).replace('-', '_') + '.json')
                    if os.path.exists(p):
                        os.remove(p)
            if not any(os.path.exists(os.path.join(out, c + '.json')) for c in CRATES):
                raise BuildError(r.stderr[-3000:])
            if REPO != '/repo':
                for c in CRATES:
                    p = os.path.join(out, c + '.json')
                    if not os.path.exists(p):
                        continue
                    s = open(p).read()
                    open(p, 'w').write(s.replace('"file":"%s/' % REPO, '"file":"/repo/'))
            open(os.path.join(out, 'done'), 'w').write(str(time.time()))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return out

_progs = {}
def prog(crate):
    if crate not in _progs:
        import absint
        d = build()
        if not os.path.exists(os.path.join(d, crate + '.json')):
            raise BuildError('no MIR for %s\n%s' % (crate, open(os.path.join(d, 'stderr')).read()[-3000:]))
        with open(os.path.join(d, crate + '.json')) as f:
            _progs[crate] = absint.Prog(json.load(f))
    return _progs[crate]
