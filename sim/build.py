"""Build the simulated igakit from /repo's current working tree.

Nothing of the repository's own build output is used: the Fortran kernels and
the f2py wrapper are compiled here, from the sources in the tree, with a
basic-block hook (-fsanitize-coverage=trace-pc) that is the scheduler's seam
inside the kernels.  The result is cached by content hash.
"""
import hashlib, os, shutil, subprocess, sys, sysconfig, fcntl, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('IGASIM_REPO', '/repo')
PY = os.environ.get('IGASIM_PYTHON', '/opt/venv/bin/python')
NATIVE = os.path.join(VERIF, 'sim', 'native')
CACHE = os.environ.get('IGASIM_BUILD', os.path.join(VERIF, '.build'))


class BuildError(Exception):
    pass


def _run(cmd, cwd=None, env=None):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd), r.stdout[-4000:]))
    return r.stdout


def _pyinfo():
    code = ("import sys,sysconfig,json,numpy,os;"
            "print(json.dumps({'inc':sysconfig.get_paths()['include'],"
            "'ext':sysconfig.get_config_var('EXT_SUFFIX'),"
            "'np':numpy.get_include(),'f2py':os.path.join(os.path.dirname(numpy.__file__),'f2py','src'),"
            "'site':os.path.dirname(os.path.dirname(numpy.__file__)),'npv':numpy.__version__,'v':sys.version}))")
    import json
    # -S plus explicit site-packages: the editable install's import hook must
    # not run (it would rebuild /repo in place)
    site = site_packages()
    env = dict(os.environ, PYTHONPATH=site, PYTHONDONTWRITEBYTECODE='1')
    return json.loads(_run([PY, '-S', '-c', code], env=env))


def site_packages():
    cands = glob.glob(os.path.join(os.path.dirname(os.path.dirname(PY)), 'lib', 'python3*', 'site-packages'))
    for c in cands:
        if os.path.isdir(os.path.join(c, 'numpy')):
            return c
    raise BuildError('no numpy next to %s' % PY)


def _hash(files, extra=''):
    h = hashlib.sha256(extra.encode())
    for f in sorted(files):
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    return h.hexdigest()[:20]


def _locked(path):
    fh = open(path, 'w')
    fcntl.flock(fh, fcntl.LOCK_EX)
    return fh


def build_native():
    """libsim.so and _simkit; returns their directory."""
    files = [os.path.join(NATIVE, f) for f in ('sim.h', 'libsim.c', 'simkit.c')]
    info = _pyinfo()
    out = os.path.join(CACHE, 'native-' + _hash(files, info['v'] + info['npv']))
    os.makedirs(CACHE, exist_ok=True)
    with _locked(os.path.join(CACHE, '.lock')):
        if os.path.exists(os.path.join(out, 'ok')):
            return out, info
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        _run(['gcc', '-O2', '-Wall', '-Werror', '-shared', '-fPIC', '-o', os.path.join(out, 'libsim.so'),
              os.path.join(NATIVE, 'libsim.c'), '-lpthread', '-ldl'])
        _run(['gcc', '-O2', '-Wall', '-shared', '-fPIC', '-I' + info['inc'], '-I' + info['np'],
              '-o', os.path.join(out, '_simkit' + info['ext']), os.path.join(NATIVE, 'simkit.c')])
        open(os.path.join(out, 'ok'), 'w').close()
    return out, info


VARIANTS = {
    # as meson builds it (-O3), plus the basic block hook
    'plain': ['-O3', '-fPIC', '-w', '-fsanitize-coverage=trace-pc'],
    # the same source with every array index checked
    'bounds': ['-O1', '-fPIC', '-w', '-fcheck=bounds', '-fsanitize-coverage=trace-pc'],
}


def build_package(variant='plain', repo=None):
    """Compile igakit from the working tree; returns the directory to put on sys.path."""
    repo = repo or REPO
    src = os.path.join(repo, 'igakit')
    info = _pyinfo()
    files = sorted(glob.glob(os.path.join(src, '**', '*.py'), recursive=True) +
                   glob.glob(os.path.join(src, '**', '*.f90'), recursive=True) +
                   glob.glob(os.path.join(src, '**', '*.pyf'), recursive=True) +
                   glob.glob(os.path.join(src, '**', '*.[ch]'), recursive=True))
    rel = [os.path.relpath(f, repo) for f in files]
    h = hashlib.sha256((info['v'] + info['npv'] + ' '.join(VARIANTS[variant])).encode())
    for f, r in zip(files, rel):
        h.update(r.encode())
        with open(f, 'rb') as fh:
            h.update(fh.read())
    with open(os.path.abspath(__file__), 'rb') as fh:
        h.update(fh.read())
    out = os.path.join(CACHE, 'pkg-%s-%s' % (variant, h.hexdigest()[:20]))
    os.makedirs(CACHE, exist_ok=True)
    with _locked(os.path.join(CACHE, '.lock-' + variant)):
        if os.path.exists(os.path.join(out, 'ok')):
            return out
        _prune(variant)
        shutil.rmtree(out, ignore_errors=True)
        pkg = os.path.join(out, 'igakit')
        tmp = os.path.join(out, 'tmp')
        os.makedirs(pkg)
        os.makedirs(tmp)
        for f, r in zip(files, rel):
            if f.endswith('.py'):
                dst = os.path.join(out, r)
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                shutil.copyfile(f, dst)
        env = dict(os.environ, PYTHONPATH=site_packages(), PYTHONDONTWRITEBYTECODE='1')
        _run([PY, '-S', '-m', 'numpy.f2py', '--build-dir', tmp, os.path.join(src, 'igalib.pyf')], cwd=tmp, env=env)
        objs = []
        f90 = [f for f in files if f.endswith('.f90')] + glob.glob(os.path.join(tmp, '*.f90'))
        for f in f90:
            o = os.path.join(tmp, os.path.basename(f) + '.o')
            flags = VARIANTS[variant]
            if f.startswith(tmp):
                flags = ['-O2', '-fPIC', '-w']
            _run(['gfortran'] + flags + ['-J' + tmp, '-c', f, '-o', o], cwd=tmp)
            objs.append(o)
        inc = ['-I' + info['inc'], '-I' + info['np'], '-I' + info['f2py']]
        for f in glob.glob(os.path.join(tmp, '*.c')) + [os.path.join(info['f2py'], 'fortranobject.c')]:
            o = os.path.join(tmp, os.path.basename(f) + '.o')
            _run(['gcc', '-O2', '-DNDEBUG', '-fPIC', '-w', '-fvisibility=hidden'] + inc + ['-c', f, '-o', o], cwd=tmp)
            objs.append(o)
        _run(['gcc', '-shared', '-o', os.path.join(pkg, 'igalib' + info['ext'])] + objs + ['-lgfortran', '-lm'])
        shutil.rmtree(tmp, ignore_errors=True)
        open(os.path.join(out, 'ok'), 'w').close()
    return out


def _prune(variant, keep=6):
    old = sorted(glob.glob(os.path.join(CACHE, 'pkg-%s-*' % variant)), key=os.path.getmtime)
    for d in old[:-keep] if len(old) > keep else []:
        shutil.rmtree(d, ignore_errors=True)


def build_all(variants=('plain',)):
    native, info = build_native()
    return native, {v: build_package(v) for v in variants}, info


if __name__ == '__main__':
    try:
        n, p, i = build_all(tuple(VARIANTS))
    except BuildError as e:
        print(e)
        sys.exit(2)
    print(n)
    for k in p:
        print(k, p[k])
