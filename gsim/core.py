"""The simulator: real caller threads, released one at a time.

Clients are real OS threads.  Exactly one holds the baton.  sys.monitoring
reports every point inside graphicle's own code at which CPython could switch
threads (function entry, call, return from a call into foreign code, backward
jump); at each of them a seeded PRNG, or a recorded decision list, chooses
whether another client runs next and whether a fault is injected there.
"""
import _thread
import ast
import gc
import os
import random
import sys
import threading
import types

from .boot import REPO

TOOL = 3
PKG = os.path.join(REPO, "graphicle") + os.sep
_alloc = _thread.allocate_lock
_get_ident = _thread.get_ident
_RealLock = threading.Lock
_RealRLock = threading.RLock


class HarnessError(Exception):
    """Something is wrong with the simulator, not with graphicle."""


class InjectedMemoryError(MemoryError):
    pass


class InjectedInterrupt(KeyboardInterrupt):
    pass


class InjectedIOError(OSError):
    pass


INJECTED = (InjectedMemoryError, InjectedInterrupt, InjectedIOError)

_CLIENTS = {}  # thread ident -> Client, only while a simulation runs


# ------------------------------------------------------------------- locks
class SimLock:
    """A lock whose waiters are parked in the simulator, so that blocking is
    a scheduling decision and a deadlock is detected rather than suffered."""

    def __init__(self, reentrant=False):
        self.owner = None
        self.depth = 0
        self.reentrant = reentrant

    def acquire(self, blocking=True, timeout=-1):
        me = _get_ident()
        if self.reentrant and self.owner == me:
            self.depth += 1
            return True
        client = _CLIENTS.get(me)
        while self.owner is not None:
            if not blocking or timeout == 0:
                return False
            if client is None:
                raise HarnessError("lock contended outside a simulation")
            if timeout is not None and timeout > 0:
                # simulated time: a bounded wait on a held lock may expire
                if not client.sim.block(client, self, timed=True):
                    return False
            else:
                client.sim.block(client, self)
        self.owner = me
        self.depth = 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        if self.reentrant and self.owner != _get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self.depth -= 1
        if self.depth == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *exc):
        self.release()

    # threading.Condition protocol
    def _is_owned(self):
        return self.owner == _get_ident()

    def _release_save(self):
        st = (self.owner, self.depth)
        self.owner, self.depth = None, 0
        return st

    def _acquire_restore(self, st):
        self.acquire()
        self.depth = st[1]


def _from_repo():
    f = sys._getframe(2)
    while f is not None and f.f_code.co_filename.endswith("threading.py"):
        f = f.f_back
    return f is not None and f.f_code.co_filename.startswith(PKG)


def install_lock_seam():
    def lock():
        return SimLock() if _from_repo() else _RealLock()

    def rlock(*a):
        return SimLock(True) if _from_repo() else _RealRLock(*a)

    threading.Lock = lock
    threading.RLock = rlock


# --------------------------------------------------------- instrumentation
_EXCLUDED_NAMES = {
    "set_num_threads", "get_num_threads", "get_thread_id", "catch_warnings",
    "simplefilter", "filterwarnings", "resetwarnings", "errstate", "seterr",
    "geterr", "setbufsize", "contextmanager", "ExitStack", "callback",
    "acquire", "release", "warn", "isinstance", "issubclass", "len", "type",
    "super", "getattr", "hasattr", "setattr", "delattr", "next", "iter",
    "id", "hash", "callable", "locals", "globals", "vars", "close", "_thread_scope",
    "TypeVar", "cast", "overload", "get_state", "set_state",
    "__setattr__", "__delattr__", "__enter__", "__exit__", "object", "Lock", "RLock",
}
_CLEANUP = {}  # filename -> list of (first, last) line ranges


def _cleanup_ranges(filename):
    """Lines that run while an exception is being cleaned up: the bodies of
    finally/except clauses and of __exit__/__del__.  No fault is injected there
    (a second fault during clean-up would defeat any implementation)."""
    got = _CLEANUP.get(filename)
    if got is None:
        got = []
        try:
            with open(filename) as fh:
                tree = ast.parse(fh.read())
        except Exception:
            tree = ast.Module([], [])
        for node in ast.walk(tree):
            bodies = []
            if isinstance(node, ast.Try):
                bodies = [node.finalbody] + [h.body for h in node.handlers]
            elif isinstance(node, ast.FunctionDef) and node.name in ("__exit__", "__del__", "__enter__"):
                bodies = [node.body]
            elif isinstance(node, ast.FunctionDef) and any(
                "contextmanager" in ast.dump(d) for d in node.decorator_list
            ):
                bodies = [node.body]
            for b in bodies:
                if b:
                    got.append((b[0].lineno, max(getattr(s, "end_lineno", s.lineno) for s in b)))
        _CLEANUP[filename] = got
    return got


def _in_cleanup(frame):
    depth = 0
    while frame is not None and depth < 60:
        fn = frame.f_code.co_filename
        if fn.startswith(PKG):
            line = frame.f_lineno or 0
            for a, b in _cleanup_ranges(fn):
                if a <= line <= b:
                    return True
        frame = frame.f_back
        depth += 1
    return False


def _call_name(callee):
    return getattr(callee, "__name__", None) or type(callee).__name__


def _is_repo_func(callee):
    code = getattr(callee, "__code__", None)
    if code is None:
        code = getattr(getattr(callee, "__func__", None), "__code__", None)
    return code is not None and code.co_filename.startswith(PKG)


class Fault:
    __slots__ = ("client", "op", "kind", "at", "fired", "name")

    def __init__(self, client, op, kind, at):
        self.client, self.op, self.kind, self.at = client, op, kind, at
        self.fired = False
        self.name = None


class Client:
    __slots__ = ("sim", "idx", "body", "lock", "done", "thread", "mask", "op",
                 "ev", "allocs", "rets", "waiting", "pending", "error", "entered")

    def __init__(self, sim, idx, body):
        self.sim, self.idx, self.body = sim, idx, body
        self.lock = _alloc()
        self.lock.acquire()
        self.done = False
        self.mask = True
        self.op = -1
        self.ev = self.allocs = self.rets = 0
        self.waiting = None
        self.pending = False
        self.error = None
        self.entered = False


class Schedule:
    """Decides preemptions.  mode 'random': drawn from a PRNG and recorded;
    mode 'replay': looked up."""

    def __init__(self, rng=None, p=0.0, p_op=0.5, replay=None, first=0):
        self.rng, self.p, self.p_op = rng, p, p_op
        self.replay = None
        if replay is not None:
            self.replay = {(c, o, e): t for c, o, e, t in replay}
        self.first = first
        self.recorded = []

    def pick(self, client, others, boundary):
        key = (client.idx, client.op, client.ev)
        if self.replay is not None:
            t = self.replay.get(key)
            if t is not None and any(o.idx == t for o in others):
                self.recorded.append(key + (t,))
                return t
            return None
        p = self.p_op if boundary else self.p
        if self.rng.random() >= p:
            return None
        t = others[self.rng.randrange(len(others))].idx if len(others) > 1 else others[0].idx
        self.recorded.append(key + (t,))
        return t


class Sim:
    """One simulated run."""

    MAX_STEPS = 400_000

    def __init__(self, schedule, fault_rng=None, fault_p=0.0, faults=None, fault_kinds=()):
        self.sched = schedule
        self.clients = []
        self.steps = 0
        self.switches = 0
        self.log = 0  # rolling digest of (client, code, offset) events
        self.fault_rng, self.fault_p = fault_rng, fault_p
        self.fault_kinds = tuple(fault_kinds)
        self.faults = faults  # replay: dict (client, op, kind) -> at
        self.armed = {}  # (client, op) -> kind drawn in search mode
        self.fired = []  # [(client, op, kind, at, callee)]
        self.main = _alloc()
        self.main.acquire()
        self.fatal = None
        self.faultable = None  # optional predicate(client, op) -> bool
        self.deadlock = False
        self.stuck = False
        self.crash = None  # (client, op, event) at which the process dies
        self.crashed = False
        self.probes = set()

    # -- building -----------------------------------------------------
    def add(self, body):
        c = Client(self, len(self.clients), body)
        self.clients.append(c)
        return c

    # -- switching ----------------------------------------------------
    def _runnable(self, me=None):
        out = []
        for c in self.clients:
            if c is me or c.done:
                continue
            if c.waiting is not None and c.waiting.owner is not None:
                continue
            out.append(c)
        return out

    def _transfer(self, me, target):
        self.switches += 1
        target.lock.release()
        me.lock.acquire()
        if self.fatal is not None:
            raise SystemExit

    def point(self, me, boundary=False):
        """A point where the running client may lose the baton."""
        others = self._runnable(me)
        if not others:
            return
        t = self.sched.pick(me, others, boundary)
        if t is not None:
            self._transfer(me, self.clients[t])

    def block(self, me, lock, timed=False):
        me.waiting = lock
        try:
            others = self._runnable(me)
            if not others:
                if timed:
                    return False
                self.deadlock = True
                self.fatal = "deadlock"
                raise DeadlockError("every client is waiting for a lock")
            # deterministic: lowest index, unless the schedule says otherwise
            t = self.sched.pick(me, others, True)
            self._transfer(me, self.clients[t] if t is not None else others[0])
            return True
        finally:
            me.waiting = None

    def _finish(self, me):
        me.done = True
        others = self._runnable(me)
        if others:
            t = self.sched.pick(me, others, True)
            (self.clients[t] if t is not None else others[0]).lock.release()
        else:
            self.main.release()

    def _main(self, c):
        c.lock.acquire()
        _CLIENTS[_get_ident()] = c
        try:
            if self.fatal is None:
                c.body(c)
        except SystemExit:
            pass
        except BaseException as exc:  # noqa: BLE001 - harness bug
            import traceback
            c.error = exc
            self.fatal = self.fatal or ("client error: " + traceback.format_exc())
        finally:
            c.mask = True
            _CLIENTS.pop(_get_ident(), None)
            self._finish(c)

    def run(self):
        for c in self.clients:
            c.thread = threading.Thread(target=self._main, args=(c,), daemon=True)
            c.thread.start()
        first = self.sched.first % len(self.clients)
        self.clients[first].lock.release()
        if not self.main.acquire(timeout=240):
            raise HarnessError("simulated run did not finish in 240 s of real time")
        for c in self.clients:
            if not c.done:  # parked for ever: release it so it can exit
                self.fatal = self.fatal or "stuck"
                c.lock.release()
        for c in self.clients:
            c.thread.join(timeout=60)
        if self.fatal is not None and not self.deadlock and not self.stuck and not self.crashed:
            raise HarnessError(self.fatal)

    # -- operations ---------------------------------------------------
    def begin(self, client, op):
        """Called by the client body just before operation number op."""
        if self.fatal is not None:
            raise SystemExit
        client.op = op
        client.ev = client.allocs = client.rets = 0
        client.pending = False
        if self.faults is None and self.fault_kinds and self.fault_rng is not None:
            if (self.faultable is None or self.faultable(client.idx, op)) and self.fault_rng.random() < 0.6:
                self.armed[(client.idx, op)] = (
                    self.fault_kinds[self.fault_rng.randrange(len(self.fault_kinds))],
                    self.fault_p * (10.0 ** self.fault_rng.uniform(-1.0, 0.7)),
                )
        self.point(client, boundary=True)
        client.entered = True
        client.mask = False

    def end(self, client):
        client.mask = True
        client.ev += 1
        if self.crash and self.crash[0] == client.idx and self.crash[1] == client.op:
            self.die()
        self.armed.pop((client.idx, client.op), None)

    def die(self):
        """The process is lost: every client stops where it is."""
        self.fatal, self.crashed = "crash", True
        for c in self.clients:
            c.mask = True
        raise SystemExit

    # -- faults -------------------------------------------------------
    def want(self, client, kind, ordinal):
        key = (client.idx, client.op)
        if self.faults is not None:
            return self.faults.get(key + (kind,)) == ordinal
        arm = self.armed.get(key)
        if arm is None or arm[0] != kind:
            return False
        return self.fault_rng.random() < arm[1]

    def fire(self, client, kind, ordinal, name):
        self.armed.pop((client.idx, client.op), None)
        self.fired.append((client.idx, client.op, kind, ordinal, name))


class quiet:
    """The harness's own work inside an operation: no switch, no fault."""

    def __enter__(self):
        self.c = _CLIENTS.get(_get_ident())
        if self.c is not None:
            self.was, self.c.mask = self.c.mask, True

    def __exit__(self, *exc):
        if self.c is not None:
            self.c.mask = self.was


class DeadlockError(Exception):
    pass


# --------------------------------------------------------------- callbacks
def _tick(c, code, off):
    s = c.sim
    s.steps += 1
    c.ev += 1
    s.log = (s.log * 1000003 ^ hash((c.idx, off, code.co_firstlineno))) & 0xFFFFFFFFFFFFFFFF
    if s.steps > s.MAX_STEPS:
        s.fatal = "step budget exhausted"
        s.stuck = True
        raise SystemExit
    if s.crash and s.crash[0] == c.idx and s.crash[1] == c.op and c.ev >= s.crash[2]:
        s.die()


def _on_start(code, off):
    c = _CLIENTS.get(_get_ident())
    if c is None or c.mask:
        return
    c.pending = False
    _tick(c, code, off)
    c.sim.point(c)


def _eligible(callee, name):
    if name in _EXCLUDED_NAMES:
        return False
    if isinstance(callee, type) and issubclass(callee, BaseException):
        return False
    return not _in_cleanup(sys._getframe(2))


def _on_call(code, off, callee, arg0):
    c = _CLIENTS.get(_get_ident())
    if c is None or c.mask:
        return
    if _is_repo_func(callee):
        return  # PY_START of the callee is the switch point
    _tick(c, code, off)
    c.pending = True
    s = c.sim
    if s.fault_kinds or s.faults:
        name = _call_name(callee)
        if _eligible(callee, name):
            c.allocs += 1
            if s.want(c, "alloc", c.allocs):
                s.fire(c, "alloc", c.allocs, name)
                raise InjectedMemoryError("injected at call of " + name)
    s.point(c)


def _on_c_return(code, off, callee, arg0):
    c = _CLIENTS.get(_get_ident())
    if c is None or c.mask:
        return
    _tick(c, code, off)
    c.pending = False
    s = c.sim
    if s.fault_kinds or s.faults:
        name = _call_name(callee)
        if _eligible(callee, name):
            c.rets += 1
            if s.want(c, "intr", c.rets):
                s.fire(c, "intr", c.rets, name)
                raise InjectedInterrupt("injected after " + name)
    s.point(c)


def _on_c_raise(code, off, callee, arg0):
    c = _CLIENTS.get(_get_ident())
    if c is not None:
        c.pending = False


def _on_line(code, line):
    c = _CLIENTS.get(_get_ident())
    if c is None or c.mask or not c.pending:
        return
    c.pending = False  # a Python-level foreign function returned
    _tick(c, code, line)
    c.sim.point(c)


def _on_jump(code, off, dest):
    c = _CLIENTS.get(_get_ident())
    if c is None or c.mask or dest > off:
        return
    _tick(c, code, off)
    c.sim.point(c)


_ON = {"codes": 0, "seen": set()}


def _walk(code, out):
    if code in out:
        return
    out.add(code)
    for const in code.co_consts:
        if isinstance(const, types.CodeType):
            _walk(const, out)


def instrument():
    """Switch monitoring on for every code object of the package."""
    mon = sys.monitoring
    ev = mon.events
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, "gsim")
        mon.register_callback(TOOL, ev.PY_START, _on_start)
        mon.register_callback(TOOL, ev.PY_RESUME, _on_start)
        mon.register_callback(TOOL, ev.CALL, _on_call)
        mon.register_callback(TOOL, ev.C_RETURN, _on_c_return)
        mon.register_callback(TOOL, ev.C_RAISE, _on_c_raise)
        mon.register_callback(TOOL, ev.LINE, _on_line)
        mon.register_callback(TOOL, ev.JUMP, _on_jump)
    found = set()
    for obj in gc.get_objects():
        if type(obj) is types.FunctionType:
            fn = obj.__code__.co_filename
            if fn.startswith(PKG) or ("attrs generated" in fn and "graphicle" in fn):
                _walk(obj.__code__, found)
    found = {c for c in found if c.co_name != "<module>"}
    want = ev.PY_START | ev.PY_RESUME | ev.CALL | ev.JUMP | ev.LINE
    for code in found - _ON["seen"]:
        if code.co_filename.startswith(PKG):
            mon.set_local_events(TOOL, code, want)
        elif "getattr" in code.co_filename:
            mon.set_local_events(TOOL, code, want)
    _ON["seen"] |= found
    _ON["codes"] = len(_ON["seen"])
    if not _ON["codes"]:
        raise HarnessError("no graphicle code found to instrument")
    return _ON["codes"]
