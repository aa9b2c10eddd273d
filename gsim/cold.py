"""Separately started processes ("nodes") under drawn configurations.

Parent side: Node(config).run(request) starts one and returns its answer.
Child side: `python -m gsim.cold FD` reads a request from stdin, imports the
package under that configuration and writes the answer to FD."""
import ctypes
import os
import pickle
import random
import shutil
import subprocess
import sys
import tempfile

from . import boot

KEEP = ("PATH", "HOME", "NUMBA_CACHE_DIR", "PYTHONDONTWRITEBYTECODE", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "OMP_NUM_THREADS", "LANG",
        "NUMBA_NUM_THREADS")
BASE = {"hash": "0", "aslr": False, "flags": [], "env": {}, "cwd": None, "cold": False, "first": [], "threads": None, "junk": False,
        "gc": True, "order": 0, "twice": False, "skip": 0.0}


class Failed(Exception):
    """A node which gave no answer: the message says how it ended."""


def draw(rng, cold=False):
    """A configuration."""
    c = dict(BASE)
    c["hash"] = str(rng.randrange(1, 4294967295)) if rng.random() < 0.9 else "random"
    c["aslr"] = rng.random() < 0.5
    c["flags"] = rng.choice([[], [], ["-O"], ["-O"], ["-OO"], ["-X", "utf8"], ["-s"], ["-X", "importtime"][:0]])
    env = {}
    n = rng.choice([2, 3, 5, 8, 16])
    env["NUMBA_NUM_THREADS"] = str(n)
    if rng.random() < 0.5:
        env["LANG"] = env["LC_ALL"] = rng.choice(["C", "POSIX", "C.UTF-8"])
    if rng.random() < 0.3:
        env["TZ"] = rng.choice(["UTC", "Asia/Tokyo", "America/Los_Angeles"])
    if rng.random() < 0.3:
        env["NUMBA_THREADING_LAYER"] = rng.choice(["workqueue", "omp"])
    if rng.random() < 0.4:
        env["MALLOC_PERTURB_"] = str(rng.randint(1, 255))
    if rng.random() < 0.3:
        env["PYTHONMALLOC"] = rng.choice(["malloc", "debug"])
    if rng.random() < 0.4:
        env["TMPDIR"] = "tmp"
    if rng.random() < 0.3:
        env["HOME"] = rng.choice(["tmp", "/nonexistent", ""])
    if rng.random() < 0.3:
        env["GRAPHICLE_" + rng.choice(["DEBUG", "SEED", "THREADS", "CACHE"])] = rng.choice(["0", "1", "7"])
    if rng.random() < 0.3:
        env["PYTHONWARNINGS"] = rng.choice(["default", "ignore"])
    c["env"] = env
    c["cwd"] = rng.choice([None, "tmp", "tmp", "/"])
    c["cold"] = cold
    c["first"] = rng.sample(["pandas", "networkx", "scipy.optimize", "numba", "fastjet", "graphicle.select", "graphicle.data", "graphicle.calculate",
                             "graphicle.matrix", "graphicle.transform", "mcpid.lookup", "rich", "random", "graphicle.base"], rng.randint(0, 4))
    c["threads"] = rng.choice([None, None] + list(range(1, n + 1)))
    c["junk"] = rng.random() < 0.5
    c["gc"] = rng.random() < 0.8
    c["order"] = rng.randrange(1, 1 << 30)
    c["twice"] = rng.random() < 0.4
    c["skip"] = rng.choice([0.0, 0.0, 0.3, 0.6])
    return c


def start(cfg, request, timeout=240):
    """Run request in a process configured by cfg."""
    scratch = tempfile.mkdtemp(prefix="gsim-node-")
    try:
        env = {k: os.environ[k] for k in KEEP if k in os.environ}
        env["PYTHONHASHSEED"] = cfg["hash"]
        env["GSIM_BOOTED"] = "1"
        tmp = os.path.join(scratch, "t")
        os.mkdir(tmp)
        for k, v in cfg["env"].items():
            env[k] = tmp if v == "tmp" else v
        if cfg["cold"]:
            env["NUMBA_CACHE_DIR"] = os.path.join(scratch, "nb")
        cwd = {None: boot.VERIF, "tmp": tmp, "/": "/"}[cfg["cwd"]]
        r, w = os.pipe()
        env["GSIM_NODE"] = "1" if cfg["aslr"] else "0"
        code = "import sys; sys.path.insert(0, %r); from gsim import cold; cold.main(%d)" % (boot.VERIF, w)
        with open(os.path.join(scratch, "req"), "wb") as fh:
            pickle.dump((cfg, request), fh)
        with open(os.path.join(scratch, "req"), "rb") as fin, open(os.path.join(scratch, "err"), "wb") as ferr:
            p = subprocess.Popen([sys.executable, "-B", *cfg["flags"], "-c", code], stdin=fin, stdout=subprocess.DEVNULL, stderr=ferr,
                                 env=env, cwd=cwd, pass_fds=(w,), process_group=0)
        os.close(w)
        chunks = []
        import select
        import time
        end = time.monotonic() + timeout
        try:
            while True:
                left = end - time.monotonic()
                if left <= 0:
                    raise Failed("hung")
                ready, _, _ = select.select([r], [], [], min(left, 5))
                if ready:
                    b = os.read(r, 1 << 20)
                    if not b:
                        break
                    chunks.append(b)
        finally:
            os.close(r)
            try:
                os.killpg(p.pid, 9)
            except OSError:
                pass
            p.wait()
        with open(os.path.join(scratch, "err"), "rb") as fh:
            err = fh.read().decode(errors="replace")
        if not chunks:
            raise Failed(err.strip().splitlines()[-1] if err.strip() else f"status {p.returncode}")
        st, val = pickle.loads(b"".join(chunks))
        if st != "ok":
            raise Failed(val)
        return val
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


# ------------------------------------------------------------------ child side
def digest(v):
    from .runner import Outcome, dig
    o = Outcome()
    dig(o, v)
    return o.digest.hexdigest()


def main(fd):
    aslr = os.environ.pop("GSIM_NODE", None)
    if aslr is not None:
        # once more, with address randomisation as configured
        try:
            libc = ctypes.CDLL(None)
            cur = libc.personality(0xFFFFFFFF)
            libc.personality((cur & ~0x0040000) if aslr == "1" else (cur | 0x0040000))
        except Exception:
            pass
        os.execv(sys.executable, sys.orig_argv)
    cfg, request = pickle.load(sys.stdin.buffer)
    try:
        res = ("ok", serve(cfg, request))
    except BaseException as e:  # noqa: BLE001
        import traceback
        res = ("error", f"{type(e).__name__}: {e}\n" + "".join(traceback.format_tb(e.__traceback__)[-3:]))
    data = pickle.dumps(res)
    while data:
        data = data[os.write(fd, data):]
    os._exit(0)


def serve(cfg, request):
    import gc
    import importlib
    import warnings
    sys.setrecursionlimit(3000)
    if not cfg["gc"]:
        gc.disable()
    sys.path.insert(0, boot.REPO)
    warnings.simplefilter("ignore")
    block(request.get("block", ()))
    for m in cfg["first"]:
        if m.split(".")[0] not in request.get("block", ()):
            importlib.import_module(m)
    if request["fn"] == "probe":
        return importlib.import_module(request["module"]).probe(cfg, request)
    import graphicle as gcl
    where = os.path.abspath(gcl.__file__)
    if not where.startswith(boot.REPO + "/"):
        raise RuntimeError(f"graphicle imported from {where}")
    if cfg["threads"]:
        import numba
        numba.set_num_threads(cfg["threads"])
    if cfg["junk"]:
        import numpy as np
        junk = [np.full(n, np.nan) for n in (4, 16, 64, 100, 256, 1000, 5000) for _ in range(20)]
        del junk
    fn = getattr(importlib.import_module(request["module"]), request["fn"])
    return fn(gcl, cfg, request)


def block(names):
    """Modules which cannot be imported here."""
    for n in names:
        sys.modules[n] = None


def queries(gcl, cfg, request):
    """Answers of queries, each on objects of its own: {index: digest}, and
    canonical values of those asked for in full."""
    from . import ops, ops_graph, ops_pdg, pure  # noqa: F401
    items = request["items"]
    order = [i for i, _, _ in items]
    rng = random.Random(cfg["order"])
    if cfg["order"]:
        rng.shuffle(order)
    if cfg["skip"]:
        order = [i for i in order if i in request.get("keep", ()) or rng.random() >= cfg["skip"]]
    by = {i: (w, a) for i, w, a in items}
    worlds = request["worlds"]
    out, full = {}, {}
    for rnd in range(2 if cfg["twice"] else 1):
        for i in order:
            w, a = by[i]
            v = pure.answer(gcl, worlds[w], a)
            d = digest(v)
            if i in out and out[i] != d:
                return {"digest": out, "full": {i: v}, "again": i}
            out[i] = d
            if i in request.get("full", ()):
                full[i] = v
    return {"digest": out, "full": full}
