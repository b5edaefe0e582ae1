"""Build sfepy's C/Cython extensions out of tree from a repository's current sources.

The result goes to CACHE/ext-<hash of all C/Cython sources>/ and nothing in the
repository is touched.  Imported by bootstrap.py, which makes Python load the
extensions from there (never the in-place .so files, which may be stale).
"""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile
from concurrent.futures import ThreadPoolExecutor

EXT = {  # module -> extra sources ('@common': static library sources)
    'sfepy.discrete.common.extmods._fmfield': ['@common'],
    'sfepy.discrete.common.extmods.cmapping': ['@common'],
    'sfepy.discrete.common.extmods.assemble': [],
    'sfepy.discrete.common.extmods.cmesh': ['geomtrans.c', 'mesh.c', 'meshutils.c',
                                            'sort.c', 'common_python.c'],
    'sfepy.discrete.common.extmods.crefcoors': ['refcoors.c', 'geomtrans.c', 'mesh.c',
                                                '@common'],
    'sfepy.discrete.common.extmods._geommech': ['@common'],
    'sfepy.discrete.fem.extmods.bases': ['lagrange.c', '@common'],
    'sfepy.discrete.fem.extmods.lobatto_bases': ['lobatto.c', 'lobatto1d.c', '@common'],
    'sfepy.discrete.iga.extmods.igac': ['nurbs.c', '@common'],
    'sfepy.mechanics.extmods.ccontres': ['contres.c', '@common'],
    'sfepy.terms.extmods.terms': ['@glob', '@common'],
}
COMMON = 'sfepy/discrete/common/extmods'
COMMON_SRC = ['fmfield.c', 'geommech.c', 'common_python.c']
PATTERNS = ('.c', '.h', '.pyx', '.pxd', '.h.in', 'CMakeLists.txt')
FLAGS = ['-O2', '-fPIC', '-fwrapv', '-fno-strict-overflow', '-DNDEBUG', '-w']
DEFS = ['-DSFEPY_PLATFORM=0', '-Dinline=inline',
        '-DNPY_NO_DEPRECATED_API=NPY_2_0_API_VERSION']


def source_files(repo):
    out = []
    for d, _, files in os.walk(os.path.join(repo, 'sfepy')):
        if not d.endswith('extmods'):
            continue
        for f in sorted(files):
            if f.endswith(PATTERNS) and f != 'version.h':
                out.append(os.path.relpath(os.path.join(d, f), repo))
    return sorted(out)


def source_hash(repo, extra=''):
    h = hashlib.sha256()
    for f in source_files(repo):
        h.update(f.encode())
        h.update(open(os.path.join(repo, f), 'rb').read())
    h.update(open(os.path.join(repo, 'sfepy/version.py'), 'rb').read())
    h.update(open(__file__, 'rb').read())
    h.update(extra.encode())
    h.update(sys.version.encode())
    return h.hexdigest()[:20]


def _run(cmd, cwd):
    env = {k: v for k, v in os.environ.items() if k not in ('LD_PRELOAD', 'PYTHONMALLOC')}
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        raise RuntimeError('build failed: %s\n%s' % (' '.join(cmd), p.stdout.decode()[-4000:]))


def build(repo, cache, sanitize=False, verbose=False):
    """Return the directory with the built extensions (module path layout)."""
    key = source_hash(repo, 'san' if sanitize else '')
    dest = os.path.join(cache, ('san-' if sanitize else 'ext-') + key)
    if os.path.exists(os.path.join(dest, '.done')):
        return dest
    os.makedirs(cache, exist_ok=True)
    work = tempfile.mkdtemp(prefix='sfepybuild', dir=cache)
    try:
        for f in source_files(repo):
            os.makedirs(os.path.join(work, os.path.dirname(f)), exist_ok=True)
            shutil.copyfile(os.path.join(repo, f), os.path.join(work, f))
        for mod in EXT:  # packages, so that cython resolves cimports
            d = work
            for p in mod.split('.')[:-1]:
                d = os.path.join(d, p)
                open(os.path.join(d, '__init__.py'), 'a').close()
        ver = {}
        for line in open(os.path.join(repo, 'sfepy/version.py')):
            if line.startswith('__version__') and not ver:
                ver['__version__'] = line.split('=')[1].strip().strip('"\'')
        vin = open(os.path.join(work, COMMON, 'version.h.in')).read()
        with open(os.path.join(work, COMMON, 'version.h'), 'w') as fd:
            fd.write(vin.replace('"0.0.0"', '"%s"' % ver['__version__']))

        import numpy
        inc = ['-I' + sysconfig.get_config_var('INCLUDEPY'), '-I' + numpy.get_include(),
               '-I' + os.path.join(work, COMMON)]
        flags = list(FLAGS)
        ldflags = []
        if sanitize:
            flags.remove('-O2')
            flags.remove('-fwrapv')
            flags.remove('-fno-strict-overflow')
            flags += ['-O1', '-g', '-fno-omit-frame-pointer', '-fwrapv', '-fno-strict-overflow',
                      '-fsanitize=address', '-fsanitize-recover=address']
            ldflags += ['-fsanitize=address']
        cc = 'gcc'
        ext_suffix = sysconfig.get_config_var('EXT_SUFFIX')
        cython = os.path.join(os.path.dirname(sys.executable), 'cython')

        pool = ThreadPoolExecutor(max_workers=os.cpu_count())
        objs = {}

        def compile_c(src, more=()):  # src relative to work
            obj = src + '.o'
            _run([cc] + flags + list(more) + DEFS + inc + ['-I' + os.path.join(work, os.path.dirname(src)),
                                             '-c', src, '-o', obj], work)
            return obj

        def cythonize_compile(src):
            out = src[:-4] + '__cy.c'
            _run([cython, '-3', src, '-o', out], work)
            return compile_c(out, ['-O1'])

        def want(src, fn=compile_c):
            if src not in objs:
                objs[src] = pool.submit(fn, src)
            return objs[src]

        links = {}
        # The biggest ones first.
        for mod in sorted(EXT, key=lambda m: m != 'sfepy.terms.extmods.terms'):
            base = mod.replace('.', '/')
            d = os.path.dirname(base)
            futs = [want(base + '.pyx', cythonize_compile)]
            extra = []
            for e in EXT[mod]:
                if e == '@common':
                    extra += [os.path.join(COMMON, f) for f in COMMON_SRC]
                elif e == '@glob':
                    extra += sorted(os.path.relpath(f, work)
                                    for f in glob.glob(os.path.join(work, d, '*.c'))
                                    if not f.endswith('__cy.c'))
                else:
                    extra.append(os.path.join(d, e))
            seen = []
            for e in extra:
                if e not in seen:
                    seen.append(e)
            futs += [want(e) for e in seen]
            links[mod] = futs
        out = os.path.join(work, 'out')
        for mod, futs in links.items():
            so = os.path.join(out, mod.replace('.', '/') + ext_suffix)
            os.makedirs(os.path.dirname(so), exist_ok=True)
            _run([cc, '-shared', '-o', so] + [f.result() for f in futs] + ldflags + ['-lm'], work)
        pool.shutdown()
        open(os.path.join(out, '.done'), 'w').close()
        try:
            os.rename(out, dest)
        except OSError:
            pass
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return dest


if __name__ == '__main__':
    import time
    t = time.time()
    d = build(sys.argv[1], sys.argv[2], sanitize='san' in sys.argv[3:])
    print(d, '%.1f s' % (time.time() - t))
