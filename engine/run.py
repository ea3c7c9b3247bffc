"""Building the facts from /repo's current tree and running the analyses."""
import hashlib
import json
import multiprocessing
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')


class Broken(Exception):
    """the check cannot give an answer"""


def sh(cmd, env=None, cwd=None, timeout=800):
    return subprocess.run(cmd, env=env, cwd=cwd, timeout=timeout, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)


def base_env():
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CARGO_') and k not in ('CARGO_HOME',) or k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER'):
            del e[k]
    e['RUSTUP_TOOLCHAIN'] = 'nightly'
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_INCREMENTAL'] = '0'
    e['CARGO_TERM_COLOR'] = 'never'
    e.setdefault('HOME', '/root')
    return e


def sysroot():
    r = sh(['rustc', '--print', 'sysroot'], env=base_env())
    if r.returncode:
        raise Broken('no nightly rustc: ' + r.stderr)
    return r.stdout.strip()


def driver():
    """the MIR dumper, built from /verif/driver (once per version of its source)"""
    h = hashlib.sha256()
    src = os.path.join(VERIF, 'driver')
    for f in ('Cargo.toml', 'src/main.rs', 'src/json.rs'):
        h.update(open(os.path.join(src, f), 'rb').read())
    exe = os.path.join(BUILD, 'mirdump-' + h.hexdigest()[:16])
    if os.path.exists(exe):
        return exe
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='drv', dir=BUILD)
    try:
        e = base_env()
        e['CARGO_TARGET_DIR'] = tmp
        r = sh(['cargo', 'build', '--release', '--offline'], env=e, cwd=src)
        if r.returncode:
            raise Broken('driver does not build:\n' + r.stderr[-3000:])
        os.rename(os.path.join(tmp, 'release', 'mirdump'), exe)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


def dump(want=('adextopa_core', 'witness'), crate='witness'):
    """compile /repo and the witness programs, return {crate: path of its MIR}, and the directory"""
    exe = driver()
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='run', dir=BUILD)
    e = base_env()
    e['CARGO_TARGET_DIR'] = os.path.join(tmp, 'target')
    e['LD_LIBRARY_PATH'] = os.path.join(sysroot(), 'lib')
    e['RUSTC_WRAPPER'] = exe
    e['MIRDUMP_CRATES'] = ','.join(want)
    e['MIRDUMP_OUT'] = tmp
    r = sh(['cargo', 'check', '--offline', '--quiet'], env=e, cwd=os.path.join(VERIF, crate))
    shutil.rmtree(os.path.join(tmp, 'target'), ignore_errors=True)
    if r.returncode:
        shutil.rmtree(tmp, ignore_errors=True)
        raise Broken('/repo and the witness programs do not build:\n' + r.stderr[-4000:])
    out = {c: os.path.join(tmp, c + '.json') for c in want}
    for c, p in out.items():
        if not os.path.exists(p):
            shutil.rmtree(tmp, ignore_errors=True)
            raise Broken('no MIR was written for ' + c)
    return out, tmp


def load(paths):
    import ir
    return ir.Program(list(paths.values()))


_prog = None
_fn = None


def _work(job):
    t = time.time()
    try:
        return job, _fn(_prog, job), time.time() - t, None
    except Exception as e:          # noqa: reported by the parent as a broken check
        import traceback
        return job, None, time.time() - t, traceback.format_exc()[-3000:]


def parallel(prog, fn, jobs, procs=8):
    global _prog, _fn
    _prog, _fn = prog, fn
    import gc
    gc.freeze()
    ctx = multiprocessing.get_context('fork')
    sys.setrecursionlimit(20000)
    with ctx.Pool(min(procs, max(1, len(jobs))), maxtasksperchild=1) as p:
        for r in p.imap_unordered(_work, jobs, chunksize=1):
            yield r
