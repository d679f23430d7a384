"""Builds the driver, compiles /repo with it, and hands out the dump and the compiled crate."""
import fcntl
import glob
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DRIVER = os.path.join(HERE, '.build', 'driver')
SOURCE = os.path.join(HERE, 'driver', 'main.rs')
REPO = os.environ.get('WEEDLE_REPO', '/repo')


class BuildError(Exception):
    pass


def sysroot():
    return subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], capture_output=True, text=True, check=True).stdout.strip()


def build_driver():
    os.makedirs(os.path.dirname(DRIVER), exist_ok=True)
    with open(os.path.join(HERE, '.build', 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(DRIVER) and os.path.getmtime(DRIVER) >= os.path.getmtime(SOURCE):
            return
        r = subprocess.run(['rustc', '+nightly', '-C', 'opt-level=1', SOURCE, '-o', DRIVER + '.new'], capture_output=True, text=True)
        if r.returncode:
            raise BuildError('the driver does not build:\n' + r.stderr[-3000:])
        os.replace(DRIVER + '.new', DRIVER)


class Tree:
    """One compilation of /repo's working tree."""

    def __init__(self, release=False):
        build_driver()
        self.dir = tempfile.mkdtemp(prefix='weedle-static-')
        self.dump = os.path.join(self.dir, 'dump.json')
        env = dict(os.environ)
        for k in list(env):
            if k.startswith('CARGO_') and k not in ('CARGO_HOME',) or k in ('RUSTC', 'RUSTC_WRAPPER', 'RUSTFLAGS', 'RUSTUP_TOOLCHAIN'):
                del env[k]
        env['LD_LIBRARY_PATH'] = sysroot() + '/lib'
        env['RUSTC_WORKSPACE_WRAPPER'] = DRIVER
        env['WEEDLE_DUMP'] = self.dump
        env['CARGO_TARGET_DIR'] = os.path.join(self.dir, 'target')
        env['CARGO_INCREMENTAL'] = '0'
        env['RUSTFLAGS'] = '-Zmir-opt-level=0 -Zalways-encode-mir -Awarnings'
        cmd = ['cargo', '+nightly', 'build', '--offline', '--lib'] + (['--release'] if release else [])
        r = subprocess.run(cmd, cwd=REPO, env=env, capture_output=True, text=True)
        if r.returncode or not os.path.exists(self.dump):
            self.close()
            raise BuildError('the crate does not build:\n' + r.stderr[-3000:])
        libs = glob.glob(os.path.join(self.dir, 'target', '**', 'lib*.r*'), recursive=True)
        self.search = sorted({os.path.dirname(x) for x in libs})
        lib = [x for x in libs if os.path.basename(x).startswith('libweedle')]
        self.lib = sorted(lib, key=lambda x: not x.endswith('.rmeta'))[0]

    def rustc(self, name, source):
        """Type-checks and borrow-checks a user of the crate; returns its errors [(line, code, message)]."""
        import json
        p = os.path.join(self.dir, name + '.rs')
        with open(p, 'w') as f:
            f.write(source)
        r = subprocess.run(['rustc', '+nightly', '--edition', '2018', '--crate-type', 'lib', '--emit=metadata', '-Awarnings',
                            '--error-format=json', '--extern', 'weedle=' + self.lib] + [y for x in self.search for y in ('-L', x)] + [
                            '-o', os.path.join(self.dir, name + '.rmeta'), p], capture_output=True, text=True)
        out = []
        for l in r.stderr.splitlines():
            if not l.startswith('{'):
                continue
            m = json.loads(l)
            if m.get('level') != 'error':
                continue
            for s in m['spans']:
                if s['is_primary']:
                    while s.get('expansion') and not s['file_name'].startswith(self.dir):
                        s = s['expansion']['span']
                    out.append((s['line_start'], (m.get('code') or {}).get('code'), m['message']))
                    break
        if r.returncode and not out:
            out.append((0, None, r.stderr[-400:]))
        return out

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)
