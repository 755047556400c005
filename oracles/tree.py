"""
A scratch copy of the package, with its extension modules built from the
current Fortran sources of the repository.
"""

import glob
import hashlib
import os
import shutil
import subprocess
import sysconfig
import sys

PY = '/opt/venv/bin/python'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(HERE, '.build')


def _suffix():
    return subprocess.run([PY, '-c', 'import sysconfig; print(sysconfig.get_config_var("EXT_SUFFIX"))'],
                          capture_output=True, text=True, check=True).stdout.strip()


def build(repo, name, suffix):
    """Path to the extension module built from the current source, or None (and the log)"""
    src = os.path.join(repo, 'atooms/postprocessing', name + '.f90')
    if not os.path.exists(src):
        return None, 'missing ' + src
    digest = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:24]
    out = os.path.join(CACHE, digest, name + '_wrap' + suffix)
    if os.path.exists(out):
        return out, ''
    work = os.path.join(CACHE, '%s-%d' % (digest, os.getpid()))
    os.makedirs(work, exist_ok=True)
    try:
        shutil.copy(src, work)
        env = dict(os.environ, PATH='/opt/venv/bin:' + os.environ.get('PATH', '/usr/bin:/bin'), LC_ALL='C.UTF-8')
        r = subprocess.run([PY, '-m', 'numpy.f2py', '-c', '--backend', 'meson', '--build-dir', os.path.join(work, 'b'),
                            '-m', name + '_wrap', name + '.f90'], cwd=work, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        so = os.path.join(work, name + '_wrap' + suffix)
        if not os.path.exists(so):
            return None, r.stdout[-3000:]
        os.makedirs(os.path.dirname(out), exist_ok=True)
        tmp = out + '.%d' % os.getpid()
        shutil.copy(so, tmp)
        os.replace(tmp, out)
        return out, ''
    finally:
        shutil.rmtree(work, ignore_errors=True)


def stage(repo, dest, extensions=('realspace', 'fourierspace')):
    """Copy the package to `dest`; return the list of problems"""
    pkg = os.path.join(dest, 'atooms/postprocessing')
    os.makedirs(pkg)
    problems = []
    shutil.copy(os.path.join(repo, 'atooms/__init__.py'), os.path.join(dest, 'atooms'))
    for path in glob.glob(os.path.join(repo, 'atooms/postprocessing/*')):
        if os.path.isfile(path) and not path.endswith('.so'):
            shutil.copy(path, pkg)
        elif os.path.isdir(path) and not path.endswith('__pycache__'):
            shutil.copytree(path, os.path.join(pkg, os.path.basename(path)), ignore=shutil.ignore_patterns('*.so', '__pycache__'))
    suffix = _suffix()
    for name in extensions:
        so, log = build(repo, name, suffix)
        if so is None:
            problems.append('%s: cannot build: %s' % (name, log))
        else:
            shutil.copy(so, os.path.join(pkg, name + '_wrap' + suffix))
    return problems


if __name__ == '__main__':
    print(stage(sys.argv[1], sys.argv[2]))
