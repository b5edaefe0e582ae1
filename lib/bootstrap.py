"""Environment for running sfepy straight from the repository working tree.

Must be imported before numpy/sfepy.  Sets thread limits and a scratch HOME,
builds the extensions from the current sources and installs an import hook so
that they (and never the in-place .so files) are used.
"""
import atexit
import importlib.machinery
import importlib.util
import os
import shutil
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
VENV_PY = '/opt/venv/bin/python'
HYP = ['/opt/veriftools/pyvenv/lib/python3.12/site-packages']

for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS', 'NUMEXPR_NUM_THREADS'):
    os.environ[k] = '1'
os.environ['MPLBACKEND'] = 'Agg'
os.environ['JAX_PLATFORMS'] = 'cpu'
os.environ['XLA_FLAGS'] = '--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1'
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True


def reexec(sanitize=False):
    """Run under /opt/venv's Python with a fixed hash seed."""
    if sanitize and 'VERIF_ASAN_LOG' not in os.environ:
        import subprocess
        lib = subprocess.check_output(['gcc', '-print-file-name=libasan.so']).decode().strip()
        cxx = subprocess.check_output(['gcc', '-print-file-name=libstdc++.so']).decode().strip()
        lib, cxx = os.path.realpath(lib), os.path.realpath(cxx)
        log = tempfile.mkdtemp(prefix='vasan')
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONMALLOC='malloc', LD_PRELOAD=' '.join([lib, cxx]), VERIF_ASAN_LOG=log,
                   ASAN_OPTIONS='halt_on_error=0:suppress_equal_pcs=0:detect_leaks=0:handle_segv=0:'
                                'redzone=256:handle_abort=0:allocator_may_return_null=1:quarantine_size_mb=64:'
                                'detect_odr_violation=0:malloc_context_size=6:log_path=%s/asan' % log)
        env.pop('PYTHONPATH', None)
        os.execve(VENV_PY, [VENV_PY, '-W', 'ignore'] + sys.argv, env)
    if (os.environ.get('PYTHONHASHSEED') != '0'
            or os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv')):
        env = dict(os.environ, PYTHONHASHSEED='0')
        env.pop('PYTHONPATH', None)
        os.execve(VENV_PY, [VENV_PY, '-W', 'ignore'] + sys.argv, env)


SCRATCH = None


def setup(sanitize=False):
    global SCRATCH
    from buildext import EXT, build
    SCRATCH = tempfile.mkdtemp(prefix='vsfepy')
    pid = os.getpid()

    def _clean():
        if os.getpid() == pid:
            shutil.rmtree(SCRATCH, ignore_errors=True)
            if sanitize:
                shutil.rmtree(os.environ['VERIF_ASAN_LOG'], ignore_errors=True)
    atexit.register(_clean)
    os.makedirs(os.path.join(SCRATCH, 'home'))
    os.makedirs(os.path.join(SCRATCH, 'cwd'))
    os.environ['HOME'] = os.path.join(SCRATCH, 'home')
    os.environ['TMPDIR'] = SCRATCH
    tempfile.tempdir = None
    os.chdir(os.path.join(SCRATCH, 'cwd'))

    # Only hypothesis and its dependency are taken from the tools' environment.
    hyp = os.path.join(SCRATCH, 'hyp')
    os.makedirs(hyp)
    for d in HYP:
        for n in os.listdir(d):
            if (n in ('hypothesis', 'sortedcontainers') or n.startswith('_hypothesis')):
                os.symlink(os.path.join(d, n), os.path.join(hyp, n))
    ext_dir = build(REPO, CACHE, sanitize=sanitize)
    suffix = importlib.machinery.EXTENSION_SUFFIXES[0]

    class Finder:
        @classmethod
        def find_spec(cls, fullname, path=None, target=None):
            if fullname in EXT:
                return importlib.util.spec_from_file_location(
                    fullname, os.path.join(ext_dir, fullname.replace('.', '/') + suffix))
            return None
    sys.meta_path.insert(0, Finder)
    sys.path.insert(0, REPO)
    sys.path.append(hyp)
    import warnings
    warnings.simplefilter('ignore')
    import sfepy
    assert os.path.realpath(sfepy.__file__) == os.path.realpath(
        os.path.join(REPO, 'sfepy/__init__.py')), sfepy.__file__
    from sfepy.base.base import output
    output.set_output(quiet=True)
    return ext_dir
