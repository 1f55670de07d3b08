"""Builds the compiled packages of /repo's current working tree outside /repo.

stage(['num', 'ld', 'disc', 'hist', 'fnd'], scratch) -> list of sys.path entries.
Shared objects are cached under /verif/.build by a digest of every build input."""
import fcntl
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import time

from .core import HERE, REPO

CACHE = f'{HERE}/.build'
PKG = {'num': 'cpp-numintegrator', 'ld': 'cpp-ld-funcs', 'disc': 'cpp-disc-integrator',
       'hist': 'histogram_maker', 'fnd': 'fornberg-num-deriv'}
SISTERS = {'disc': ['num', 'ld']}
INPUTS = ('.pyx', '.pxd', '.pxi', '.cpp', '.h', '.hpp', '.f90', '.f2py_f2cmap',
          '_custom_build.py', 'setup.py', 'pyproject.toml')

BUILDER = r'''
import glob, os, shutil, subprocess, sys
pkg, base = sys.argv[1:3]
os.chdir(base)
for pyx in glob.glob('**/*.pyx', recursive=True):
    for ext in ('.c', '.cpp'):
        if os.path.exists(pyx[:-4] + ext):
            os.remove(pyx[:-4] + ext)
if pkg == 'fnd':
    subprocess.run([sys.executable, 'setup.py', 'build', '--build-base', 'build',
                    '--build-lib', 'build/lib'], check=True)
else:
    sys.path.insert(0, base)
    import _custom_build
    from setuptools import Extension, setup
    if len(sys.argv) > 3:      # controlled-scheduler variant, see mc/sched
        def instrumented(*a, **k):
            k['extra_compile_args'] = [f for f in k.get('extra_compile_args', []) if f != '-shared'] + ['-fsanitize=thread', '-g0']
            k['extra_link_args'] = ['-shared', '-Wl,-Bsymbolic', '-lstdc++', '-lm']
            k['extra_objects'] = [*k.get('extra_objects', []), sys.argv[3]]
            k['language'] = k.get('language')
            return Extension(*a, **k)
        _custom_build.Extension = instrumented
    def get_install_paths(self):
        ni = '../cpp-numintegrator/num_integrator'
        ld = '../cpp-ld-funcs/ld_funcs'
        return ni, ld, ni, ld
    _custom_build.build_py.get_install_paths = get_install_paths
    _custom_build.build_py.run = lambda self: None
    setup(script_name='setup.py',
          script_args=['build_py', 'build_ext', '--inplace', '--force',
                       '--build-temp', 'build/temp/objs', '--parallel', '6'])
'''


def _files(pkg):
    base = f'{REPO}/{PKG[pkg]}'
    for root, dirs, files in os.walk(base):
        dirs[:] = sorted(d for d in dirs if d not in ('build', '__pycache__', 'tests'))
        for f in sorted(files):
            if f.endswith('.so') or f.endswith('.pyc'):
                continue
            yield os.path.join(root, f)


def _generated(path):
    """A .c/.cpp lying beside a .pyx of the same name is Cython output."""
    stem, ext = os.path.splitext(path)
    return ext in ('.c', '.cpp') and os.path.exists(stem + '.pyx')


RT = f'{HERE}/mc/sched/rt.cpp'


def digest(pkg, sched=False):
    h = hashlib.sha256()
    if sched:
        with open(RT, 'rb') as fh:
            h.update(fh.read())
    for p in [pkg, *SISTERS.get(pkg, [])]:
        for f in _files(p):
            if f.endswith(INPUTS) and '_tests.cpp' not in f and not _generated(f):
                h.update(os.path.relpath(f, REPO).encode() + b'\0')
                with open(f, 'rb') as fh:
                    h.update(fh.read() + b'\0')
    with open(__file__, 'rb') as fh:
        h.update(fh.read())
    return h.hexdigest()[:20]


def _copy(pkg, dst):
    base = f'{REPO}/{PKG[pkg]}'
    for f in _files(pkg):
        if _generated(f):
            continue
        t = os.path.join(dst, os.path.relpath(f, base))
        os.makedirs(os.path.dirname(t), exist_ok=True)
        shutil.copyfile(f, t)


def so_dir(pkg, sched=False):
    """Directory with the shared objects of pkg, built if needed."""
    os.makedirs(CACHE, exist_ok=True)
    name = f'S{pkg}' if sched else pkg
    out = f'{CACHE}/{name}-{digest(pkg, sched)}'
    with open(f'{CACHE}/{name}.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(f'{out}/done'):
            os.utime(f'{out}/done')
            return out
        for old in glob.glob(f'{CACHE}/{name}-*'):
            done = f'{old}/done'                             # another run may be copying what was used lately
            if len(glob.glob(f'{CACHE}/{name}-*')) > 3 and not (os.path.exists(done) and time.time() - os.path.getmtime(done) < 1800):
                shutil.rmtree(old, ignore_errors=True)
        tmp = f'{CACHE}/tmp-{name}-{os.getpid()}'
        shutil.rmtree(tmp, ignore_errors=True)
        for p in [pkg, *SISTERS.get(pkg, [])]:
            _copy(p, f'{tmp}/{PKG[p]}')
        with open(f'{tmp}/builder.py', 'w') as fh:
            fh.write(BUILDER)
        extra = []
        if sched:
            extra = [f'{tmp}/rt.o']
            subprocess.run(['g++', '-std=c++17', '-O2', '-fPIC', '-fno-builtin', '-fvisibility=hidden',
                            '-c', RT, '-o', extra[0]], check=True)
        r = subprocess.run([sys.executable, f'{tmp}/builder.py', pkg, f'{tmp}/{PKG[pkg]}', *extra],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           stdin=subprocess.DEVNULL)
        if r.returncode:
            shutil.rmtree(tmp, ignore_errors=True)
            raise RuntimeError(f'build of {pkg} failed:\n' + r.stdout.decode()[-3000:])
        base = f'{tmp}/{PKG[pkg]}'
        os.makedirs(out, exist_ok=True)
        root = f'{base}/build/lib' if pkg == 'fnd' else base
        n = 0
        for so in glob.glob(f'{root}/**/*.so', recursive=True):
            rel = os.path.relpath(so, root)
            if rel.startswith('build/'):
                continue
            os.makedirs(os.path.dirname(f'{out}/{rel}'), exist_ok=True)
            shutil.copyfile(so, f'{out}/{rel}')
            n += 1
        if not n:
            raise RuntimeError(f'no shared object built for {pkg}')
        if pkg == 'fnd':
            for py in glob.glob(f'{root}/**/*.py', recursive=True):
                rel = os.path.relpath(py, root)
                os.makedirs(os.path.dirname(f'{out}/{rel}'), exist_ok=True)
                shutil.copyfile(py, f'{out}/{rel}')
        shutil.rmtree(tmp, ignore_errors=True)
        open(f'{out}/done', 'w').close()
    return out


def stage(pkgs, scratch, sched=False):
    """Trees with current Python sources and current shared objects."""
    paths = []
    for pkg in pkgs:
        so = so_dir(pkg, sched)
        dst = f'{scratch}/stage/{PKG[pkg]}'
        if not os.path.exists(dst):
            if pkg != 'fnd':
                _copy(pkg, dst)
            shutil.copytree(so, dst, dirs_exist_ok=True)
        paths.append(dst)
    return paths


PURE = ['aesolver', 'gyre-tools', 'hough-func-tools', 'num-tools', 'py-combinations',
        'util-tools']


def use(ctx, pkgs=(), pure=PURE, stubs=True, sched=False):
    for p in reversed(stage(pkgs, ctx.scratch, sched)):
        sys.path.insert(0, p)
    for p in pure:
        sys.path.insert(0, f'{REPO}/{p}')
    if stubs:
        sys.path.append(f'{HERE}/mc/stubs')


if __name__ == '__main__':
    for p in PKG:
        print(p, so_dir(p))
