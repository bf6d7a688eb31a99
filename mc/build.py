"""Build the package under test in a scratch directory.

The checks never import from /repo: the working tree is copied to a scratch
directory, the Cython extension is compiled there, and the directory is removed
when the process that created it ends.
"""
import atexit
import os
import shutil
import subprocess
import sys
import tempfile

REPO = os.environ.get("MP_REPO", "/repo")
_IGNORE = shutil.ignore_patterns(
    "__pycache__", "*.pyc", "*.so", "*.c", "*.nbi", "*.nbc", ".git")


class BuildError(Exception):
    pass


def environment(scratch):
    env = dict(os.environ)
    env.update(PYTHONDONTWRITEBYTECODE="1", NUMBA_DISABLE_JIT="1",
               MPLBACKEND="Agg", OMP_NUM_THREADS="1",
               OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0",
               MPLCONFIGDIR=os.path.join(scratch, "mpl"),
               HOME=scratch)
    return env


def build():
    """Copy, compile and make importable. Returns the scratch directory."""
    scratch = tempfile.mkdtemp(prefix="mpverif-")
    owner = os.getpid()

    def cleanup():
        if os.getpid() == owner:
            shutil.rmtree(scratch, ignore_errors=True)
    atexit.register(cleanup)

    os.makedirs(os.path.join(scratch, "mpl"))
    src = os.path.join(scratch, "src")
    os.makedirs(src)
    shutil.copytree(os.path.join(REPO, "movement_primitives"),
                    os.path.join(src, "movement_primitives"), ignore=_IGNORE)
    for name in ("setup.py", "setup.cfg", "pyproject.toml", "README.md",
                 "MANIFEST.in"):
        path = os.path.join(REPO, name)
        if os.path.exists(path):
            shutil.copy(path, src)
    env = environment(scratch)
    res = subprocess.run(
        [sys.executable, "setup.py", "build_ext", "--inplace"], cwd=src,
        env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if res.returncode != 0:
        raise BuildError(res.stdout.decode("utf8", "replace")[-4000:])
    os.environ.update({k: env[k] for k in (
        "PYTHONDONTWRITEBYTECODE", "NUMBA_DISABLE_JIT", "MPLBACKEND",
        "OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MPLCONFIGDIR")})
    sys.dont_write_bytecode = True
    sys.path.insert(0, src)
    return scratch
