"""Process set-up: pins every environment knob that could leak nondeterminism
into a simulated run, then imports graphicle from /repo."""
import ctypes
import os
import shutil
import sys
import tempfile

REPO = "/repo"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

_PIN = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "NUMBA_NUM_THREADS": "8",
    "OMP_NUM_THREADS": "1",
    "OPENBLAS_NUM_THREADS": "1",
    "MKL_NUM_THREADS": "1",
    "LANG": "C.UTF-8",
    "HOME": "/root",
}


def reexec(hashseed="0"):
    """Re-exec this interpreter once with a pinned environment, a private
    numba cache, and (best effort) address-space randomisation off."""
    if os.environ.get("GSIM_BOOTED") == "1":
        return
    env = dict(os.environ)
    env.update(_PIN)
    for k in ("PYTHONWARNINGS", "PYTHONPATH", "NUMBA_DISABLE_JIT", "NUMBA_THREADING_LAYER", "PYTHONMALLOC"):
        env.pop(k, None)
    env["PYTHONHASHSEED"] = hashseed
    env["GSIM_BOOTED"] = "1"
    env["GSIM_ASLR_OFF"] = "0"
    try:
        libc = ctypes.CDLL(None, use_errno=True)
        ADDR_NO_RANDOMIZE = 0x0040000
        cur = libc.personality(0xFFFFFFFF)
        if cur != -1 and libc.personality(cur | ADDR_NO_RANDOMIZE) != -1:
            env["GSIM_ASLR_OFF"] = "1"
    except Exception:
        pass
    sys.stdout.flush()
    sys.stderr.flush()
    os.execve(sys.executable, [sys.executable] + sys.argv, env)


class CacheDir:
    """A private numba cache shared by the processes of one check."""

    def __init__(self):
        self.own = "GSIM_CACHE" not in os.environ
        self.path = os.environ.get("GSIM_CACHE") or tempfile.mkdtemp(prefix="gsim-nb-")
        os.environ["NUMBA_CACHE_DIR"] = self.path

    def child_env(self, hashseed):
        env = dict(os.environ)
        env["GSIM_CACHE"] = self.path
        env["PYTHONHASHSEED"] = str(hashseed)
        return env

    def close(self):
        if self.own:
            shutil.rmtree(self.path, ignore_errors=True)


def import_graphicle():
    """Import the code under test from /repo's working tree, with the lock
    constructors it could reach replaced by schedulable ones."""
    from . import core

    core.install_lock_seam()
    sys.path.insert(0, REPO)
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        import graphicle

    where = os.path.abspath(graphicle.__file__)
    if not where.startswith(REPO + "/"):
        raise RuntimeError(f"graphicle imported from {where}, not from {REPO}")
    return graphicle
