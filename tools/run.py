#!/usr/bin/env python3
"""Build and run checks against /repo's working tree.

  run.py check ID [engine options]   build check_ID and run it
  run.py setup                       build everything (fills the compiler cache)

The tier comes from VERIF_TIER and the seed from VERIF_SEED.
"""
import fcntl
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
SRC = os.path.join(BUILD, 'src')
BIN = os.path.join(BUILD, 'b')
VENV = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def env():
    e = {k: v for k, v in os.environ.items()
         if k not in ('CXXFLAGS', 'CFLAGS', 'LDFLAGS', 'CPATH', 'LIBRARY_PATH')}
    e.update(CC='/usr/bin/gcc', CXX='/usr/bin/g++', LC_ALL='C.UTF-8',
             CCACHE_DIR=os.path.join(BUILD, 'ccache'), CCACHE_NOHASHDIR='1',
             CCACHE_MAXSIZE='6G', CCACHE_COMPRESSLEVEL='1',
             CCACHE_SLOPPINESS='include_file_mtime,include_file_ctime,time_macros,'
             'pch_defines')
    return e


def layout():
    os.makedirs(SRC, exist_ok=True)
    for name in ('common', 'units', 'core', 'variable', 'dataset', 'templates',
                 'cmake', 'test', 'python'):
        link = os.path.join(SRC, name)
        target = os.path.join(REPO, 'lib', name)
        if not (os.path.islink(link) and os.readlink(link) == target):
            if os.path.lexists(link):
                os.unlink(link)
            os.symlink(target, link)
    mine = os.path.join(VERIF, 'cmake', 'CMakeLists.txt')
    copy = os.path.join(SRC, 'CMakeLists.txt')
    if not os.path.exists(copy) or open(mine).read() != open(copy).read():
        shutil.copyfile(mine, copy)


def sh(cmd, log):
    with open(log, 'a') as f:
        f.write('$ ' + ' '.join(cmd) + '\n')
        f.flush()
        return subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT,
                              env=env()).returncode


def build(targets, keep_going=False):
    os.makedirs(BUILD, exist_ok=True)
    log = os.path.join(BUILD, 'build.log')
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        layout()
        open(log, 'w').close()
        configure = ['cmake', '-S', SRC, '-B', BIN, '-G', 'Ninja',
                     '-DCMAKE_BUILD_TYPE=Harness', '-DVERIF=' + VERIF]
        if shutil.which('ccache'):
            configure.append('-DCMAKE_CXX_COMPILER_LAUNCHER=ccache')
        rc = sh(configure, log)
        if rc == 0:
            rc = sh(['ninja', '-C', BIN] + (['-k', '0'] if keep_going else []) +
                    list(targets), log)
    if rc != 0:
        with open(log) as f:
            tail = f.read().splitlines()
        errors = [x for x in tail if 'error' in x.lower()][:20]
        print('\n'.join(errors + tail[-30:]))
        print(f'ERROR: build failed, see {log}')
    return rc


def known(prop):
    """Known findings of a property: lines 'known: property=ID law/signature text'."""
    out = []
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            parts = line.split()
            if len(parts) >= 3 and parts[0] == 'known:' and \
                    parts[1] == 'property=' + prop:
                out.append(parts[2])
    return out


def script(prop):
    """The check of a property of the Python layer."""
    path = os.path.join(VERIF, 'harness', 'python', prop + '.py')
    return path if os.path.exists(path) else None


def target(prop):
    """What to build: C50 and C51 replace the bindings and need nothing."""
    if not script(prop):
        return ['check_' + prop]
    with open(script(prop)) as f:
        return ['_scipp'] if '# interpreter: _scipp' in f.read() else []


def check(prop, extra):
    t0 = time.time()
    if target(prop) and build(target(prop)) != 0:
        return 2
    t1 = time.time()
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    out = os.path.join(BUILD, 'replays')
    os.makedirs(out, exist_ok=True)
    start = [os.path.join(BIN, 'harness', 'check_' + prop)]
    e = dict(os.environ, PYTHONHASHSEED='0')
    if script(prop):
        start = ['python3-vt', script(prop)]
        if target(prop):
            start[0] = os.path.join(BIN, 'python', '_scipp')
            e.update(PYTHONPATH=os.path.join(REPO, 'src') + ':' + VENV, PYTHONDONTWRITEBYTECODE='1',
                     OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
    cmd = start + ['--out', out,
           '--evidence', os.path.join(VERIF, 'evidence', prop + '.json')]
    for k in known(prop):
        cmd += ['--known', k]
    rc = subprocess.run(cmd + extra, env=e).returncode
    print(f'{prop}: build {t1 - t0:.1f} s, run {time.time() - t1:.1f} s')
    return rc


def all_ids():
    with open(os.path.join(VERIF, 'MANIFEST.json')) as f:
        return [c['property'] for c in json.load(f)['checks']]


def main():
    if sys.argv[1] == 'setup':
        return build(sorted({t for i in all_ids() for t in target(i)}), keep_going=True)
    return check(sys.argv[2], sys.argv[3:])


if __name__ == '__main__':
    sys.exit(main())
