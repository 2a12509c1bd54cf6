"""Builds the MIR dumper and dumps the MIR of /repo's current tree."""
import fcntl, json, os, shutil, subprocess, sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PA_REPO', '/repo')
WORK = os.path.join(VERIF, '.work')
DRIVER = os.path.join(VERIF, 'mirdump', 'target', 'debug', 'mirdump')


class BuildError(Exception):
    pass


def run(cmd, cwd, env):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError('%s failed:\n%s' % (' '.join(cmd), p.stdout[-4000:]))
    return p.stdout


def base_env():
    env = dict(os.environ)
    for k in ('RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_TARGET_DIR',
              'CARGO_BUILD_RUSTFLAGS', 'RUSTC', 'RUSTUP_TOOLCHAIN'):
        env.pop(k, None)
    env['CARGO_NET_OFFLINE'] = 'true'
    return env


def build_driver():
    run(['cargo', '+nightly', 'build', '--offline', '--quiet'], os.path.join(VERIF, 'mirdump'), base_env())


def dump():
    """Dumps the current tree; always recompiles the crate.  Returns (dump, graph)."""
    os.makedirs(WORK, exist_ok=True)
    lock = open(os.path.join(WORK, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        build_driver()
        target = os.path.join(WORK, 'target')
        out = os.path.join(WORK, 'dump.%d.json' % os.getpid())
        env = base_env()
        sysroot = subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True, env=env).strip()
        env['LD_LIBRARY_PATH'] = os.path.join(sysroot, 'lib')
        env['CARGO_TARGET_DIR'] = target
        env['RUSTC_WRAPPER'] = DRIVER
        env['MIRDUMP_CRATE'] = 'puzzle_utils'
        env['MIRDUMP_OUT'] = out
        env['RUSTFLAGS'] = '-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=off'
        harness = os.path.join(VERIF, 'harness')
        if REPO != '/repo':
            harness = os.path.join(WORK, 'harness')
            shutil.rmtree(harness, ignore_errors=True)
            shutil.copytree(os.path.join(VERIF, 'harness'), harness)
            p = os.path.join(harness, 'Cargo.toml')
            s = open(p).read().replace('"/repo"', json.dumps(REPO))
            open(p, 'w').write(s)
        # forget the crate so that the wrapper runs again whatever cargo's freshness cache thinks
        for root in ('build', '.fingerprint', 'deps', 'incremental'):
            d = os.path.join(target, 'debug', root)
            if os.path.isdir(d):
                for n in os.listdir(d):
                    if n.startswith('puzzle-utils') or n.startswith('puzzle_utils') or n.startswith('libpuzzle_utils'):
                        q = os.path.join(d, n)
                        shutil.rmtree(q, ignore_errors=True) if os.path.isdir(q) else os.remove(q)
        lockfile = os.path.join(harness, 'Cargo.lock')
        keep = open(lockfile).read() if os.path.exists(lockfile) else None
        try:
            run(['cargo', '+nightly', 'check', '--offline', '--quiet'], harness, env)
        finally:
            if keep is not None and open(lockfile).read() != keep:
                open(lockfile, 'w').write(keep)
        if not os.path.exists(out):
            raise BuildError('the MIR dump was not written')
        d = json.load(open(out))
        g = json.load(open(out + '.graph'))
        os.remove(out)
        os.remove(out + '.graph')
        return d, g
    finally:
        lock.close()


if __name__ == '__main__':
    d, g = dump()
    print(len(d['fns']), 'functions with bodies,', len(g['graph']), 'functions in the call graph')
