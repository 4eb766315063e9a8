"""Builds the MIR-facts driver and extracts facts from /repo's current working tree.

Nothing of /repo is executed: `cargo +nightly check` type-checks it, and the driver dumps the
type-checked MIR, resolved callees, evaluated constants and coroutine witnesses as JSON."""
import fcntl, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
DRV_T = os.path.join(BUILD, 'driver')
DRV = os.path.join(DRV_T, 'release', 'mirfacts')


class AnalysisError(Exception):
    pass


def env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CARGO') and k not in ('CARGO_HOME',) or k in ('RUSTUP_TOOLCHAIN', 'RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'RUSTC'):
            del e[k]
    e['CARGO_NET_OFFLINE'] = 'true'
    return e


def run(cmd, cwd, e):
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def hash_tree(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in os.walk(p):
                ds.sort()
                for f in sorted(fs):
                    q = os.path.join(d, f)
                    h.update(q.encode() + b'\0')
                    h.update(open(q, 'rb').read())
        elif os.path.exists(p):
            h.update(p.encode() + b'\0')
            h.update(open(p, 'rb').read())
    return h.hexdigest()


def build_driver():
    stamp = os.path.join(DRV_T, 'stamp')
    h = hash_tree([os.path.join(VERIF, 'driver', 'src'), os.path.join(VERIF, 'driver', 'Cargo.toml')])
    if os.path.exists(DRV) and os.path.exists(stamp) and open(stamp).read() == h:
        return
    e = env()
    e['CARGO_TARGET_DIR'] = DRV_T
    rc, out = run(['cargo', '+nightly', 'build', '--offline', '--release'], os.path.join(VERIF, 'driver'), e)
    if rc:
        raise AnalysisError('driver build failed:\n' + out[-4000:])
    open(stamp, 'w').write(h)


def sysroot_lib():
    rc, out = run(['rustc', '+nightly', '--print', 'sysroot'], '/', env())
    if rc:
        raise AnalysisError('no nightly toolchain: ' + out)
    return os.path.join(out.strip().splitlines()[-1], 'lib')


def extract_models():
    """Facts of the reference models of library functions (sources in /verif/models)."""
    src = os.path.join(VERIF, 'models', 'lib.rs')
    out = os.path.join(BUILD, 'models')
    key = hash_tree([src, os.path.join(VERIF, 'driver', 'src')])
    stamp = os.path.join(out, 'key')
    if not (os.path.exists(stamp) and open(stamp).read() == key):
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        e = env()
        e['MIRFACTS_OUT'] = out
        e['MIRFACTS_CRATE'] = 'models'
        e['LD_LIBRARY_PATH'] = sysroot_lib()
        rc, sr = run(['rustc', '+nightly', '--print', 'sysroot'], '/', e)
        rc, txt = run([DRV, '--sysroot', sr.strip().splitlines()[-1], '--crate-name', 'models', '--crate-type', 'lib', '--edition', '2021',
                       '--emit', 'metadata', '-o', os.path.join(out, 'libmodels.rmeta'), src], out, e)
        if rc:
            raise AnalysisError('models: ' + txt[-3000:])
        open(stamp, 'w').write(key)
    return json.load(open(os.path.join(out, 'facts-lib.json')))


def extract(repo=None):
    """Return (facts_lib, facts_bin).  Re-extracts whenever the sources, manifests or driver changed
    (content hash), so the facts are always those of the current working tree."""
    repo = repo or REPO
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        build_driver()
        key = hash_tree([os.path.join(repo, x) for x in ('src', 'Cargo.toml', 'Cargo.lock', 'build.rs', '.cargo', 'samples')] + [os.path.join(VERIF, 'driver', 'src')])
        out = os.path.join(BUILD, 'facts')
        stamp = os.path.join(out, 'key')
        if not (os.path.exists(stamp) and open(stamp).read() == key):
            shutil.rmtree(out, ignore_errors=True)
            os.makedirs(out)
            tgt = os.path.join(BUILD, 'target')
            fp = os.path.join(tgt, 'debug', '.fingerprint')
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if n.startswith('plusendi-'):
                        shutil.rmtree(os.path.join(fp, n))
            shutil.rmtree(os.path.join(tgt, 'debug', 'build', 'plusendi'), ignore_errors=True)
            e = env()
            e['CARGO_TARGET_DIR'] = tgt
            e['RUSTC_WORKSPACE_WRAPPER'] = DRV
            e['MIRFACTS_OUT'] = out
            e['LD_LIBRARY_PATH'] = sysroot_lib()
            e['CARGO_INCREMENTAL'] = '0'
            had_lock = os.path.exists(os.path.join(repo, 'Cargo.lock'))
            cmd = ['cargo', '+nightly', 'check', '--offline', '--lib', '--bins'] + (['--locked'] if had_lock else [])
            rc, txt = run(cmd, repo, e)
            if rc:
                raise AnalysisError('cargo check of /repo failed:\n' + txt[-4000:])
            for n in ('facts-lib.json', 'facts-bin.json'):
                if not os.path.exists(os.path.join(out, n)):
                    raise AnalysisError('driver produced no ' + n + '\n' + txt[-3000:])
            open(stamp, 'w').write(key)
        lib = json.load(open(os.path.join(out, 'facts-lib.json')))
        bin_ = json.load(open(os.path.join(out, 'facts-bin.json')))
        mod = extract_models()
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)
        lock.close()
    for f in (lib, bin_, mod):
        if f['skipped']:
            raise AnalysisError('bodies not analysed: %s' % f['skipped'])
    return lib, bin_, mod


if __name__ == '__main__':
    t = time.time()
    l, b, m = extract()
    print('lib bodies', len(l['bodies']), 'bin bodies', len(b['bodies']), 'types', len(l['types']), '%.1fs' % (time.time() - t))
