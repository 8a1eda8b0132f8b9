"""Import the real `wilson` package from /repo's working tree.

The git submodule wilson/wcxf/bases (definition files of the EFTs and bases) is
empty in /repo, so `import wilson` fails there.  A scratch overlay directory is
made of symbolic links to every file of /repo/wilson, plus a link
wilson/wcxf/bases -> /verif/bases.  What is executed is /repo's own code: the
overlay contains no Python file of its own, and nothing is written below /repo.
"""
import atexit
import os
import shutil
import sys
import tempfile

VERIF = os.path.abspath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
REPO = os.environ.get('WILSON_REPO', '/repo')
BASES = os.environ.get('WILSON_BASES', os.path.join(VERIF, 'bases'))
overlay_dir = None

sys.dont_write_bytecode = True
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ.setdefault(v, '1')


def make_overlay():
    """Create the overlay (once per process tree); returns its path."""
    global overlay_dir
    if overlay_dir is not None:
        return overlay_dir
    top = tempfile.mkdtemp(prefix='wilson_overlay_')
    pid = os.getpid()

    def clean():
        if os.getpid() == pid:
            shutil.rmtree(top, ignore_errors=True)
    atexit.register(clean)
    src = os.path.join(REPO, 'wilson')
    bases = os.path.join(src, 'wcxf', 'bases')
    have = os.path.isdir(bases) and any(f.endswith('.json') for f in os.listdir(bases))
    for d, dirs, files in os.walk(src):
        rel = os.path.relpath(d, REPO)
        dirs[:] = [x for x in dirs if x != '__pycache__'
                   and not (os.path.join(d, x) == bases and not have)]
        os.makedirs(os.path.join(top, rel), exist_ok=True)
        for f in files:
            os.symlink(os.path.join(d, f), os.path.join(top, rel, f))
    if not have:
        os.symlink(BASES, os.path.join(top, 'wilson', 'wcxf', 'bases'))
    overlay_dir = top
    return top


def boot():
    if 'wilson' in sys.modules and hasattr(sys.modules['wilson'], 'Wilson'):
        return sys.modules['wilson']
    top = make_overlay()
    sys.path.insert(0, top)
    import warnings
    warnings.filterwarnings('ignore')
    import wilson
    real = os.path.realpath(wilson.__file__)
    assert real.startswith(os.path.realpath(REPO) + os.sep), real
    return wilson


def subprocess_env():
    """Environment in which a child python imports wilson from the overlay."""
    env = dict(os.environ)
    env['PYTHONPATH'] = make_overlay()
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    return env
