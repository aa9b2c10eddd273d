"""Executes one simulated run of client programs and checks it."""
import copy
import gc
import hashlib
import os
import random
import sys
import warnings

import numpy as np

from . import core, ops, ops_graph, ops_pdg  # noqa: F401
from .core import Sim, Schedule, HarnessError, INJECTED, DeadlockError

RETRY = 10_000  # operation numbers of retries
AUDIT = 20_000


class Outcome:
    """What one run produced."""

    def __init__(self):
        self.viol = []  # (message, client, op)
        self.pre = []
        self.faults = []
        self.steps = self.switches = self.ops = 0
        self.log = 0
        self.digest = hashlib.sha256()
        self.stats = {}
        self.crashed = False

    def bad(self, msg, client=-1, op=-1):
        if len(self.viol) < 20:
            self.viol.append((msg, client, op))

    def bump(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n


def dig(out, v):
    """Fold a canonical value into the run's digest (floats bit for bit)."""
    h = out.digest
    if isinstance(v, np.ndarray):
        h.update(str(v.shape).encode())
        if v.dtype.kind == "f":
            w = np.ascontiguousarray(v, dtype=np.float64).copy()
            w[np.isnan(w)] = np.nan
            h.update(w.tobytes())
        else:
            h.update(np.ascontiguousarray(v).tobytes())
    elif isinstance(v, (tuple, list)):
        for x in v:
            dig(out, x)
    elif isinstance(v, dict):
        for k in v:
            h.update(str(k).encode())
            dig(out, v[k])
    else:
        h.update(repr(v).encode())


def make_sim(spec, kinds=()):
    """A simulator for spec: searching, or replaying recorded decisions."""
    if "pre" in spec:
        sched = Schedule(replay=[tuple(x) for x in spec["pre"]], first=spec.get("first", 0))
        faults = {(c, o, k): n for c, o, k, n in spec.get("faults", [])}
        sim = Sim(sched, faults=faults)
        sim.fault_kinds = tuple(spec.get("fault_kinds", ()))
    else:
        rng = random.Random(spec["sseed"])
        sched = Schedule(rng, p=spec.get("p", 0.05), p_op=spec.get("p_op", 0.5), first=spec.get("first", 0))
        sim = Sim(sched, fault_rng=random.Random(spec["sseed"] ^ 0x5F5F5F), fault_p=spec.get("fault_p", 0.02),
                  fault_kinds=tuple(spec.get("fault_kinds", ())))
    if spec.get("crash"):
        sim.crash = tuple(spec["crash"])
    return sim


def finish_sim(sim, out):
    out.pre = list(sim.sched.recorded)
    out.faults = [f[:4] for f in sim.fired]
    out.steps += sim.steps
    out.switches += sim.switches
    out.log = sim.log
    for f in sim.fired:
        out.bump("fault_" + f[2])
    if sim.deadlock:
        out.bad("deadlock: every client waits for a lock")
    if sim.stuck:
        out.bad(f"no progress: an operation did not finish within {sim.MAX_STEPS} steps")
    dig(out, [sim.steps, sim.switches, sim.log, len(sim.fired)])


def attempt(sim, c, i, fn, *args):
    """One operation under the simulator.  Returns (result or exception,
    whether a fault was injected into it)."""
    n = len(sim.fired)
    sim.begin(c, i)
    try:
        r = fn(*args)
    except (HarnessError, SystemExit):
        c.mask = True
        raise
    except BaseException as e:  # noqa: BLE001 - injected faults are BaseExceptions
        c.mask = True
        r = e.with_traceback(None)
        e = None
    sim.end(c)
    hit = any(f[0] == c.idx and f[1] == i for f in sim.fired[n:])
    return r, hit


class Frozen:
    """Byte images of everything a query is handed."""

    def __init__(self, objs):
        self.arrays = []
        self.objs = objs
        for i, s in enumerate(objs.src):
            self.arrays.append((f"momentum source {i}", s))
        for i, p in enumerate(objs.pmu):
            self.arrays.append((f"momenta {i}", ops.raw(p)))
        for i, p in enumerate(objs.codes):
            self.arrays.append((f"codes {i}", ops.raw(p)))
        for i, g in enumerate(objs.graph):
            for n in ("pdg", "pmu", "color", "helicity", "status", "final"):
                self.arrays.append((f"event {i} {n}", ops.raw(getattr(g, n))))
            self.arrays.append((f"event {i} edges", ops.raw(g.adj)))
            self.arrays.append((f"event {i} weights", g.adj.weights))
        self.image = [(n, a.tobytes(), a.shape) for n, a in self.arrays]
        self.parts = [(f"momenta {i}", p, "_data", ops.raw(p)) for i, p in enumerate(objs.pmu)]
        for i, g in enumerate(objs.graph):
            self.parts += [(f"event {i} adjacency", g.adj, "_data", ops.raw(g.adj)), (f"event {i} weights", g.adj, "weights", g.adj.weights)]
            self.parts += [(f"event {i} {n}", getattr(g, n), "_data", ops.raw(getattr(g, n))) for n in ("pdg", "pmu", "color", "helicity", "status", "final")]

    def changed(self):
        for n, a, img, shp in self.objs.given:
            if a.shape != shp or a.tobytes() != img:
                return n
        for (n, a), (_, img, shp) in zip(self.arrays, self.image):
            if a.shape != shp or a.tobytes() != img:
                return n
        for n, o, attr, arr in self.parts:
            now = ops.raw(o) if attr == "_data" else getattr(o, attr)
            if now is not arr and now.tobytes() != arr.tobytes():
                return n
        for n, x, img in self.objs.args:
            if not ops.same(ops.canon(self.objs.gcl, x), img, 0, 0):
                return n
        return None


def audit_ops(world):
    """Queries over every shared object, used to reveal damaged caches."""
    out = []
    for p in range(len(world["pmu"])):
        for f in ("pt", "eta", "rapidity", "phi", "theta", "mass", "mass_t"):
            out.append({"f": f, "p": p})
        out.append({"f": "delta_R", "p": p, "q": p, "pseudo": True, "threads": 1})
        out.append({"f": "pmu_ser", "p": p})
    for k, cs in enumerate(world.get("codes", [])):
        if cs:
            out += [{"f": "lookup", "k": k, "c": c} for c in ("name", "mass", "charge", "width_bounds", "quarks")]
    for g in range(len(world["ev"])):
        for f in ("graph_eta", "nodes", "roots", "leaves", "matrix", "graph_cols", "hard_mask"):
            out.append({"f": f, "g": g})
        out.append({"f": "hierarchy", "g": g, "pre": False})
    return out


def warn_ok(gcl, world, a, r, spec):
    """A caller who turns the library's stability warning into an error gets
    that error, for momenta which deserve it."""
    return (spec.get("warn") == "error" and isinstance(r, gcl.base.NumericalStabilityWarning))


def run_shared(gcl, spec, frozen=False, audit=False, watch=None, keep=True, coherent=False):
    """Clients query shared objects; every answer is compared to the model."""
    out = Outcome()
    world = spec["world"]
    objs = ops.Objs(gcl, world)
    sim = make_sim(spec)
    fz = Frozen(objs) if frozen else None
    held = []  # (client, op, raw, canonical)
    res = {}

    def one(c, i, a):
        if watch:
            watch.op[c.idx] = a
            watch.before(c)
        was = copy.deepcopy(a) if frozen else None
        r, hit = attempt(sim, c, i, ops.run, objs, a)
        got = ops.canon(gcl, r)
        out.ops += 1
        out.bump("op_" + a["f"])
        where = f"{a['f']}{ {k: v for k, v in a.items() if k != 'f'} }"
        if isinstance(r, DeadlockError):
            return r, hit
        if hit and isinstance(r, BaseException):
            out.bump("failed_ops")
        elif isinstance(r, Warning) and warn_ok(gcl, world, a, r, spec):
            out.bump("warned_ops")
        else:
            m = ops.check(got, _expect(world, a))
            if m:
                out.bad(f"{ops.brief(where, 200)}: {m}", c.idx, i)
        dig(out, got)
        if coherent and not isinstance(r, BaseException):
            m = ops.coherent(gcl, r)
            if m:
                out.bad(f"the result of {ops.brief(where, 200)} {m}", c.idx, i)
        if watch:
            m = watch.after(c)
            if m:
                out.bad(f"after {a['f']}: {m}", c.idx, i)
        if frozen and a != was:
            out.bad(f"{a['f']} changed an argument it was given: {ops.brief(was, 150)} is now {ops.brief(a, 150)}", c.idx, i)
        if fz is not None and (frozen != "failed" or hit):
            m = fz.changed()
            if m:
                out.bad(f"{a['f']} left {m} modified", c.idx, i)
        if keep and not isinstance(r, BaseException) and i % 3 != 2:
            held.append((c.idx, i, r, got, a["f"]))
        return r, hit

    def body(prog):
        def go(c):
            if watch:
                watch.enter(c)
            for a in prog:
                i = a["n"]
                r, hit = one(c, i, a)
                if hit and isinstance(r, BaseException):
                    one(c, RETRY + i, a)
        return go

    for prog in spec["clients"]:
        sim.add(body(prog))
    if spec.get("fault_kinds"):
        sim.faultable = lambda c, o: o < RETRY
    sim.run()
    if audit and not (sim.deadlock or sim.stuck):
        aud = Sim(Schedule(replay=[]))
        box = {}

        def go(c):
            for i, a in enumerate(audit_ops(world)):
                r, _ = attempt(aud, c, AUDIT + i, ops.run, objs, a)
                m = ops.check(ops.canon(gcl, r), _expect(world, a))
                out.ops += 1
                if m and not warn_ok(gcl, world, a, r, spec):
                    out.bad(f"afterwards, {ops.brief(a, 200)}: {m}", -1, AUDIT + i)
        aud.add(go)
        aud.run()
    for ci, i, raw, got, f in held:
        if not ops.same(ops.canon(gcl, raw), got, 0, 0):
            out.bad(f"the result of {f} changed after it was returned", ci, i)
    finish_sim(sim, out)
    return out


_EXP = {}


def _expect(world, a):
    return ops.expect(world, a)


# ------------------------------------------------------------ process settings
class Settings:
    """Process-wide and per-thread settings a library must leave alone."""

    def __init__(self, gcl):
        import numba
        self.nb = numba
        self.local = {}
        self.op = {}
        self.base = self.shared()

    def shared(self):
        import pandas as pd
        import random as pyrandom
        import locale
        import signal
        import threading
        st = np.random.get_state()
        return {
            "warning filters": tuple(map(tuple, warnings.filters)) if True else None,
            "warning display hook": id(warnings.showwarning),
            "numpy global random state": (st[0], st[1].tobytes(), *st[2:]),
            "python random state": hash(pyrandom.getstate()),
            "environment variables": hash(tuple(sorted(os.environ.items()))),
            "working directory": os.getcwd(),
            "recursion limit": sys.getrecursionlimit(),
            "thread switch interval": sys.getswitchinterval(),
            "garbage collector": (gc.isenabled(), gc.get_threshold()),
            "pandas chained-assignment option": repr(pd.get_option("mode.chained_assignment")),
            "pandas display options": (pd.get_option("display.max_rows"), pd.get_option("display.precision")),
            "locale": locale.setlocale(locale.LC_ALL),
            "interrupt handler": id(signal.getsignal(signal.SIGINT)),
            "exception hook": id(sys.excepthook),
            "numba thread maximum": self.nb.config.NUMBA_NUM_THREADS,
            "module search path": tuple(sys.path),
            "live threads": None,
        }

    def thread(self):
        return {
            "kernel thread count": self.nb.get_num_threads(),
            "numpy error handling": tuple(sorted(np.geterr().items())),
            "numpy error callback": id(np.geterrcall()),
            "numpy buffer size": np.getbufsize(),
            "numpy print options": repr(np.get_printoptions()),
        }

    def enter(self, c):
        pass

    def before(self, c):
        self.local[c.idx] = self.thread()

    def after(self, c):
        now = self.thread()
        for k, v in self.local[c.idx].items():
            if now[k] != v:
                return f"{k} was {v}, now {now[k]}"
        return None

    def final(self):
        now = self.shared()
        for k, v in self.base.items():
            if now[k] != v:
                return f"{k} changed"
        return None
