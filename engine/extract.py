"""Build the rustc driver and extract MIR facts from /repo's current working tree."""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
NR = '/root/.rustup/toolchains/nightly-x86_64-unknown-linux-gnu'
WS = os.environ.get('VERIF_WS', '/opt/vp/ws')
CRATES = ['aggregate_verifier', 'batching', 'connection_router', 'gateway', 'multisig', 'multisig_prover',
          'nexus_gateway', 'rewards', 'service_registry', 'voting_verifier', 'axelar_wasm_std',
          'axelar_wasm_std_derive', 'connection_router_api', 'gateway_api', 'report']
FPRINTS = ['aggregate', 'batching', 'connection', 'gateway', 'multisig', 'nexus', 'rewards', 'service', 'voting',
           'axelar', 'report']


class Failure(Exception):
    pass


def tree_hash():
    h = hashlib.sha256()
    for top in ('contracts', 'packages'):
        for dp, dn, fn in sorted(os.walk(os.path.join(REPO, top))):
            dn.sort()
            if '/target' in dp:
                continue
            for f in sorted(fn):
                if f.endswith(('.rs', '.toml', '.json', '.lock')):
                    p = os.path.join(dp, f)
                    h.update(p.encode())
                    with open(p, 'rb') as fh:
                        h.update(hashlib.sha256(fh.read()).digest())
    for p in (os.path.join(REPO, 'Cargo.toml'), os.path.join(WS, 'Cargo.toml'), os.path.join(WS, 'Cargo.lock'),
              os.path.join(VERIF, 'driver/main.rs')):
        if os.path.exists(p):
            with open(p, 'rb') as fh:
                h.update(fh.read())
    return h.hexdigest()


def file_hash(p):
    with open(p, 'rb') as f:
        return hashlib.sha256(f.read()).hexdigest()


def sh(cmd, env=None, cwd=None):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout


def ensure_driver():
    src = os.path.join(VERIF, 'driver/main.rs')
    drv = os.path.join(BUILD, 'driver')
    stamp = os.path.join(BUILD, 'driver.hash')
    hh = file_hash(src)
    if os.path.exists(drv) and os.path.exists(stamp) and open(stamp).read() == hh:
        return drv
    env = dict(os.environ)
    env['LD_LIBRARY_PATH'] = NR + '/lib'
    rc, out = sh([NR + '/bin/rustc', '--edition', '2021', '-O', '-C', 'prefer-dynamic', '-L', NR + '/lib', src, '-o', drv], env=env)
    if rc:
        raise Failure('driver does not build:\n' + out[-4000:])
    with open(stamp, 'w') as f:
        f.write(hh)
    return drv


def ensure_facts(force=False):
    """returns directory with one JSON per workspace crate, up to date with the working tree"""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        drv = ensure_driver()
        facts = os.path.join(BUILD, 'facts')
        stamp = os.path.join(BUILD, 'facts.hash')
        hh = tree_hash()
        if not force and os.path.exists(stamp) and open(stamp).read() == hh and \
                all(os.path.exists('%s/%s.json' % (facts, c)) for c in CRATES if c != 'axelar_wasm_std_derive'):
            return facts
        if os.path.exists(stamp):
            os.unlink(stamp)
        shutil.rmtree(facts, ignore_errors=True)
        os.makedirs(facts)
        tgt = os.path.join(BUILD, 'target')
        fp = os.path.join(tgt, 'debug/.fingerprint')
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(tuple(FPRINTS)):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        env = {}
        rc, out = sh(['bash', '-c', 'source /opt/vp/env.sh >/dev/null 2>&1; env -0'])
        for kv in out.split('\0'):
            if '=' in kv:
                k, v = kv.split('=', 1)
                env[k] = v
        for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTDOCFLAGS', 'RUSTC_WRAPPER', 'CARGO_BUILD_RUSTC'):
            env.pop(k, None)
        env.update({
            'LD_LIBRARY_PATH': NR + '/lib', 'CARGO_TARGET_DIR': tgt, 'CARGO_INCREMENTAL': '0',
            'VERIF_FACTS_DIR': facts, 'VERIF_WS_CRATES': ','.join(CRATES),
            'RUSTC': os.path.join(VERIF, 'driver/rustc.sh'), 'RUSTC_WORKSPACE_WRAPPER': drv,
        })
        rc, out = sh(['cargo', 'check', '--offline', '--workspace', '--lib'], env=env, cwd=WS)
        if rc:
            raise Failure('fact extraction failed (does the tree compile?):\n' + out[-6000:])
        for c in CRATES:
            if c != 'axelar_wasm_std_derive' and not os.path.exists('%s/%s.json' % (facts, c)):
                raise Failure('no facts for crate %s' % c)
        with open(stamp, 'w') as f:
            f.write(hh)
        return facts
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


if __name__ == '__main__':
    t = time.time()
    print(ensure_facts('-f' in sys.argv), '%.1fs' % (time.time() - t))
