"""Compile /repo with the MIR-dumping rustc wrapper into a scratch directory and load the dumps."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
DRIVER = os.path.join(VERIF, 'driver')
BIN = os.path.join(DRIVER, 'target', 'release', 'mirdump')


class ExtractError(Exception):
    pass


def env():
    e = dict(os.environ)
    home = e.get('HOME') or '/root'
    e['PATH'] = os.pathsep.join([os.path.join(home, '.cargo', 'bin'), '/root/.cargo/bin', e.get('PATH', '/usr/bin:/bin')])
    for k in ('RUSTFLAGS', 'CARGO_BUILD_RUSTFLAGS', 'CARGO_TARGET_DIR', 'RUSTC', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER'):
        e.pop(k, None)
    return e


def build_driver():
    if os.path.exists(BIN):
        newest = max(os.path.getmtime(os.path.join(d, f)) for d, _, fs in os.walk(os.path.join(DRIVER, 'src')) for f in fs)
        if os.path.getmtime(BIN) >= newest:
            return
    r = subprocess.run(['cargo', '+nightly', 'build', '--release', '--offline', '--manifest-path', os.path.join(DRIVER, 'Cargo.toml')],
                       env=env(), capture_output=True, text=True)
    if r.returncode:
        raise ExtractError('driver build failed:\n' + r.stderr[-4000:])


def extract():
    """{name: dump}"""
    build_driver()
    e = env()
    e['LD_LIBRARY_PATH'] = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], env=e, capture_output=True, text=True).stdout.strip() + '/lib'
    work = tempfile.mkdtemp(prefix='mirdump.')
    try:
        out = os.path.join(work, 'out')
        os.mkdir(out)
        e['RUSTC_WRAPPER'] = BIN
        e['MIRDUMP_CRATES'] = 'huff,huff_coding'
        e['MIRDUMP_OUT'] = out
        r = subprocess.run(['cargo', '+nightly', 'check', '--workspace', '--offline', '--locked',
                            '--manifest-path', os.path.join(REPO, 'Cargo.toml'), '--target-dir', os.path.join(work, 't')],
                           env=e, capture_output=True, text=True)
        if r.returncode:
            raise ExtractError('cargo check failed:\n' + r.stderr[-4000:])
        res = {}
        for n in ('huff.bin', 'huff.lib', 'huff_coding.lib'):
            p = os.path.join(out, n + '.json')
            if not os.path.exists(p):
                raise ExtractError('missing dump ' + n)
            with open(p) as f:
                res[n] = json.load(f)
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    import pickle
    pickle.dump(extract(), open(sys.argv[1], 'wb'))
