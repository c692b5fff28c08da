"""Compiles the harnesses from /repo's current working tree (content-hashed cache in /verif/build)."""
import fcntl, hashlib, os, subprocess, sys, glob, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('CAFES_REPO', '/repo')
PETSC = '/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real'
BASE_ENV = dict(
    LC_ALL='C.UTF-8', OMPI_CC='gcc', OMPI_CXX='g++',
    OMPI_ALLOW_RUN_AS_ROOT='1', OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1',
    OMPI_MCA_btl='self,vader', OMPI_MCA_rmaps_base_oversubscribe='1',
    OMPI_MCA_ess_singleton_isolated='1', OMPI_MCA_oob_tcp_if_include='lo',
    OMPI_MCA_hwloc_base_binding_policy='none', OMPI_MCA_btl_vader_single_copy_mechanism='none',
    OMPI_MCA_mpi_yield_when_idle='1',
    OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')


def env(extra=None):
    e = dict(os.environ)
    e.update(BASE_ENV)
    e.setdefault('HOME', '/root')
    if extra:
        e.update(extra)
    return e


# variant -> extra flags
VARIANTS = {
    'plain': ['-O1', '-g', '-D_GLIBCXX_ASSERTIONS', '-fno-omit-frame-pointer'],
    'san': ['-O1', '-g', '-D_GLIBCXX_ASSERTIONS', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
            '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr', '-Wl,--no-as-needed'],
    'valgrind': ['-O0', '-g', '-fno-omit-frame-pointer'],
}
# harness -> (source, flags)
TARGETS = {
    'fem2': ('harness/fem.cpp', ['-DDIM=2']),
    'fem3': ('harness/fem.cpp', ['-DDIM=3']),
    'part2': ('harness/part.cpp', ['-DDIM=2']),
    'part3': ('harness/part.cpp', ['-DDIM=3']),
    'geom2': ('harness/geom.cpp', ['-DDIM=2']),
    'geom3': ('harness/geom.cpp', ['-DDIM=3']),
    'sing2': ('harness/sing.cpp', ['-DDIM=2']),
    'sing3': ('harness/sing.cpp', ['-DDIM=3']),
    'tri2': ('harness/tri.cpp', ['-DDIM=2']),
    'tri3': ('harness/tri.cpp', ['-DDIM=3']),
}
NEEDS_QHULL = ('tri2', 'tri3')


class BuildError(Exception):
    pass


def _files():
    fs = []
    for root in ('cafes', 'external_packages'):
        for d, _, names in os.walk(os.path.join(REPO, root)):
            fs += [os.path.join(d, n) for n in names if n.endswith(('.hpp', '.h', '.cpp', '.c', '.hh', '.ipp', '.tpp', '.inl'))]
    fs += glob.glob(os.path.join(VERIF, 'harness', '*'))
    return sorted(f for f in fs if os.path.isfile(f))


_h = None


def tree_hash():
    global _h
    if _h is None:
        m = hashlib.sha256()
        for f in _files():
            m.update(f.encode() + b'\0')
            m.update(open(f, 'rb').read())
            m.update(b'\0')
        _h = m.hexdigest()
    return _h


def qhull(variant):
    """the bundled qhull, as a static library"""
    src = sorted([f for f in glob.glob(os.path.join(REPO, 'external_packages/qhull/libqhull_r/*.c')) if 'userprintf_r.c' not in f] +  # QhullQh.cpp replaces it
                
                 [f for f in glob.glob(os.path.join(REPO, 'external_packages/qhull/libqhullcpp/*.cpp')) if 'usermem' not in f])
    m = hashlib.sha256(' '.join(VARIANTS[variant]).encode())
    for f in _files():
        if '/external_packages/' in f:
            m.update(f.encode() + open(f, 'rb').read())
    lib = os.path.join(VERIF, 'build', 'qhull-%s-%s.a' % (variant, m.hexdigest()[:20]))
    os.makedirs(os.path.dirname(lib), exist_ok=True)
    if os.path.exists(lib):
        return lib
    with open(lib + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(lib):
            return lib
        with tempfile.TemporaryDirectory() as t:
            # qhull itself is third party: memory errors that cafes provokes in it are watched, its arithmetic is not
            fl = ['-fsanitize=address' if f.startswith('-fsanitize=') else f for f in VARIANTS[variant] if not f.startswith(('-Wl', '-fno-sanitize'))]
            inc = '-I' + os.path.join(REPO, 'external_packages/qhull')
            ps, objs = [], []
            for i, f in enumerate(src):
                objs.append(os.path.join(t, '%d.o' % i))
                ps.append(subprocess.Popen((['gcc'] if f.endswith('.c') else ['g++', '-std=gnu++14']) + ['-w', '-c', inc, f, '-o', objs[-1]] + fl,
                                           env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
                if len(ps) % 8 == 0:
                    for p in ps:
                        p.wait()
            for p in ps:
                o = p.communicate()[0]
                if p.returncode:
                    raise BuildError('cannot build qhull (%s):\n%s' % (variant, o[-4000:]))
            subprocess.run(['ar', 'rcs', lib + '.tmp'] + objs, check=True)
        os.rename(lib + '.tmp', lib)
    return lib


def binary(target, variant='plain'):
    src, fl = TARGETS[target]
    flags = VARIANTS[variant] + fl
    key = hashlib.sha256((tree_hash() + target + ' '.join(flags)).encode()).hexdigest()[:20]
    d = os.path.join(VERIF, 'build')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, '%s-%s-%s' % (target, variant, key))
    if os.path.exists(out):
        return out
    with open(out + '.lock', 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(out):
            return out
        cmd = ['mpicxx', '-std=gnu++14', '-w', '-include', os.path.join(VERIF, 'harness/petsc_compat.h'),
               '-I' + os.path.join(REPO, 'cafes'), '-I' + os.path.join(REPO, 'external_packages/qhull'),
               '-I' + PETSC + '/include', '-I/usr/include/hdf5/openmpi'] + flags + \
              [os.path.join(VERIF, src), '-o', out + '.tmp', '-L' + PETSC + '/lib', '-lpetsc_real',
               '-L/usr/lib/x86_64-linux-gnu/hdf5/openmpi', '-lhdf5']
        if target in NEEDS_QHULL:
            cmd.insert(cmd.index('-o'), qhull(variant))
        p = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise BuildError('cannot build %s (%s):\n%s' % (target, variant, p.stdout[-4000:]))
        # keep the cache small: only the most recent builds of a target
        olds = sorted((f for f in glob.glob(os.path.join(d, '%s-%s-*' % (target, variant)))
                       if not f.endswith(('.lock', '.tmp'))), key=os.path.getmtime)
        for old in olds[:-3]:
            for f in (old, old + '.lock'):
                try:
                    os.unlink(f)
                except OSError:
                    pass
        os.rename(out + '.tmp', out)
    return out
