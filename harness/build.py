"""Bring the Cython extensions of the repository up to date with its sources.

Same scheme (and same stamp) as the sandbox's own build: everything that is
written is ignored by git.
"""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')


class BuildError(Exception):
    pass


def _ext_hash():
    files = []
    for top in ('src', 'setup.py', 'pyproject.toml'):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            files.append(top)
        for d, dirs, fs in os.walk(p):
            for f in fs:
                if f.endswith(('.pyx', '.pxi', '.pxd', '.h', '.so')):
                    files.append(os.path.relpath(os.path.join(d, f), REPO))
    out = []
    for f in sorted(set(files), key=lambda s: s.encode()):
        with open(os.path.join(REPO, f), 'rb') as h:
            out.append('%s  %s\n' % (hashlib.sha256(h.read()).hexdigest(), f))
    return ''.join(out)


def build():
    os.makedirs(os.path.join(REPO, 'build'), exist_ok=True)
    # The lock lives out of the repository, since build/ gets removed.
    lockname = os.path.join(tempfile.gettempdir(), 'verif-pydsm-build.lock')
    with open(lockname, 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        stamp = os.path.join(REPO, 'build', '.ext-stamp')
        if (os.path.isfile(stamp) and
                os.path.isfile(os.path.join(REPO, 'src/pydsm/_version.py'))):
            with open(stamp) as h:
                if h.read().rstrip('\n') == _ext_hash().rstrip('\n'):
                    return 'extensions up to date'
        shutil.rmtree(os.path.join(REPO, 'build'), ignore_errors=True)
        for pat in ('src/pydsm/delsig/_simulateDSM_*.c',
                    'src/pydsm/delsig/*.so', 'src/pydsm/_version.py'):
            for f in glob.glob(os.path.join(REPO, pat)):
                os.unlink(f)
        r = subprocess.run([sys.executable, 'setup.py', '-q', 'build_ext',
                            '--inplace'], cwd=REPO, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise BuildError(r.stdout[-4000:])
        os.makedirs(os.path.join(REPO, 'build'), exist_ok=True)
        with open(stamp, 'w') as h:
            h.write(_ext_hash())
        return 'extensions rebuilt'
