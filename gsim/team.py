"""Parallel kernels opened: the loop bodies of a kernel compiled for several
workers are executed from its Python source by a simulated team, one array
access at a time, under a seeded scheduler.

A kernel is opened only where doing so is sound: run by one worker in order,
the opened kernel has to give what the compiled one gives on one worker.  If it
cannot be opened the compiled kernel is used as it is, and counted."""
import ast
import inspect
import random
import sys
import textwrap
import threading

import numpy as np

from . import core
from .core import HarnessError

_TEAM = {}  # thread ident -> (team, worker index)


class Shared(np.ndarray):
    """Memory the team shares: every access is a point where the team's
    scheduler may hand over to another worker."""

    def __array_finalize__(self, obj):
        pass

    def __getitem__(self, key):
        _touch()
        return super().__getitem__(key)

    def __setitem__(self, key, val):
        _touch()
        super().__setitem__(key, val)

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        _touch()
        if out is not None:
            kw["out"] = tuple(plain(o) for o in out)
        r = getattr(ufunc, method)(*map(plain, inputs), **kw)
        return share(r) if isinstance(r, np.ndarray) and r.ndim else r


def plain(x):
    if isinstance(x, Shared):
        return x.view(np.ndarray)
    if isinstance(x, tuple):
        return tuple(plain(v) for v in x)
    return x


def share(x):
    return x.view(Shared) if type(x) is np.ndarray and x.ndim else x


def _touch():
    t = _TEAM.get(core._get_ident())
    if t is not None:
        t[0].touch(t[1])


class _Stop(BaseException):
    pass


class Team:
    """One parallel loop's workers."""

    def __init__(self, run, size):
        self.run_, self.size = run, size
        self.rng, self.p = run.rng, run.p
        self.main = core._alloc()
        self.main.acquire()
        self.locks, self.alive, self.error = [], [], None
        self.dead = False

    def chunks(self, n):
        w, rng = self.size, self.rng
        how = self.run_.division
        idx = list(range(n))
        if how == "even" or w == 1:
            q, r = divmod(n, w)
            out, at = [], 0
            for i in range(w):
                k = q + (i < r)
                out.append(idx[at:at + k])
                at += k
        elif how == "cuts":
            cuts = sorted(rng.randint(0, n) for _ in range(w - 1))
            out = [idx[a:b] for a, b in zip([0] + cuts, cuts + [n])]
        else:  # every iteration to anyone, in any order
            if how == "shuffled":
                rng.shuffle(idx)
            out = [[] for _ in range(w)]
            for i in idx:
                out[rng.randrange(w)].append(i)
        return out

    def touch(self, me):
        self.run_.accesses += 1
        if self.run_.accesses > 60_000:
            raise _Stop
        if self.rng.random() < self.p and sum(self.alive) > 1:
            self.main.release()
            self.locks[me].acquire()
            if self.dead:
                raise _Stop

    def worker(self, me, todo, body, red):
        self.locks[me].acquire()
        _TEAM[core._get_ident()] = (self, me)
        try:
            with np.errstate(all="ignore"):
                for i in todo:
                    if self.dead:
                        break
                    body(i, red)
        except _Stop:
            pass
        except BaseException as e:  # noqa: BLE001
            self.error = self.error or e
            self.dead = True
        finally:
            _TEAM.pop(core._get_ident(), None)
            self.alive[me] = False
            self.main.release()

    def loop(self, body, n, reds):
        """Run body(i) for range(n); reds: {name: (op, identity)}.  Returns the
        per-worker partial values, in worker order."""
        parts = self.chunks(n)
        acc = [dict((k, i) for k, (_, i) in reds.items()) for _ in parts]
        self.alive = [True] * len(parts)
        self.locks = []
        threads = []
        for k, todo in enumerate(parts):
            lk = core._alloc()
            lk.acquire()
            self.locks.append(lk)
        for k, todo in enumerate(parts):
            threads.append(threading.Thread(target=self.worker, args=(k, todo, body, acc[k]), daemon=True))
            threads[-1].start()
        client = self.run_.client
        while any(self.alive):
            live = [k for k, a in enumerate(self.alive) if a]
            k = live[self.rng.randrange(len(live))] if len(live) > 1 else live[0]
            if client is not None:
                client.ev += 1
                client.sim.steps += 1
                client.sim.point(client)
            self.run_.turns += 1
            self.run_.log = (self.run_.log * 1000003 ^ (k + 1)) & 0xFFFFFFFFFFFFFFFF
            self.locks[k].release()
            self.main.acquire()
        for t in threads:
            t.join(timeout=60)
        if self.error is not None:
            raise self.error
        if self.dead or self.run_.accesses > 60_000:
            raise _Stop
        return acc


# ------------------------------------------------------------- transformation
class Unopenable(Exception):
    pass


def _is_prange(node, glob):
    import numba
    if not isinstance(node, ast.Call):
        return False
    try:
        return eval(compile(ast.Expression(node.func), "<f>", "eval"), glob) is numba.prange
    except Exception:
        return False


class _Names(ast.NodeVisitor):
    def __init__(self):
        self.stores, self.augs, self.loads = set(), {}, set()

    def visit_Name(self, n):
        (self.loads if isinstance(n.ctx, ast.Load) else self.stores).add(n.id)

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            self.augs.setdefault(n.target.id, set()).add(type(n.op))
        else:
            self.visit(n.target)
        self.visit(n.value)

    def _comp(self, n):
        sub = _Names()
        for g in n.generators:
            sub.visit(g)
        for f in ("elt", "key", "value"):
            if hasattr(n, f):
                sub.visit(getattr(n, f))
        self.loads |= sub.loads - sub.stores

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp


class _Reductions(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Name(self, n):
        if n.id in self.names:
            return ast.copy_location(ast.Subscript(ast.Name("__red", ast.Load()), ast.Constant(n.id), n.ctx), n)
        return n


class _Continue(ast.NodeTransformer):
    """continue of the parallel loop itself becomes return."""

    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(None), n)

    def visit_Break(self, n):
        raise Unopenable("break")

    def visit_Return(self, n):
        raise Unopenable("return inside the parallel loop")

    def visit_For(self, n):
        return n

    visit_While = visit_FunctionDef = visit_For


class _Returns(ast.NodeVisitor):
    def visit_Return(self, n):
        raise Unopenable("return inside the parallel loop")


class _Open(ast.NodeTransformer):
    IDENT = {ast.Add: 0, ast.Sub: 0, ast.Mult: 1, ast.BitOr: 0}

    def __init__(self, glob, known):
        self.glob, self.known, self.count, self.depth = glob, set(known), 0, 0

    def visit_Assign(self, n):
        v = _Names()
        for t in n.targets:
            v.visit(t)
        self.known |= v.stores
        return n

    def visit_AnnAssign(self, n):
        if n.value is None:
            return ast.copy_location(ast.Pass(), n)
        return self.visit_Assign(ast.copy_location(ast.Assign([n.target], n.value), n))

    def visit_AugAssign(self, n):
        return n

    def visit_FunctionDef(self, n):
        if self.depth:
            raise Unopenable("nested function")
        self.depth += 1
        n.body = [self.visit(s) for s in n.body]
        n.body = [x for s in n.body for x in (s if isinstance(s, list) else [s])]
        return n

    def visit_For(self, n):
        if not _is_prange(n.iter, self.glob):
            v = _Names()
            v.visit(n.target)
            self.known |= v.stores
            self.generic_visit(n)
            return n
        if n.orelse or not isinstance(n.target, ast.Name) or n.iter.keywords:
            raise Unopenable("unusual loop")
        for s in n.body:
            _Returns().visit(s)
        names = _Names()
        for s in n.body:
            names.visit(s)
        reds = {k: v for k, v in names.augs.items() if k not in names.stores and k != n.target.id and k in self.known}
        private = (names.stores | set(names.augs)) - set(reds) - {n.target.id}
        for k, ops in reds.items():
            if len(ops) != 1 or next(iter(ops)) not in self.IDENT:
                raise Unopenable(f"reduction of {k}")
        body = [_Continue().visit(s) for s in n.body]
        body = [_Reductions(set(reds)).visit(s) for s in body]
        i = self.count
        self.count += 1
        first = sorted(private & self.known)
        fn = ast.FunctionDef(
            name=f"__body{i}",
            args=ast.arguments(posonlyargs=[], args=[ast.arg(n.target.id), ast.arg("__red")] + [ast.arg(k) for k in first],
                               kwonlyargs=[], kw_defaults=[], defaults=[ast.Name(k, ast.Load()) for k in first]),
            body=body or [ast.Pass()], decorator_list=[], type_params=[])
        table = ast.Dict([ast.Constant(k) for k in reds],
                         [ast.Tuple([ast.Constant(next(iter(v)).__name__), ast.Constant(self.IDENT[next(iter(v))])], ast.Load())
                          for k, v in reds.items()])
        call = ast.Call(ast.Name("__team", ast.Load()), [ast.Name(fn.name, ast.Load()), ast.Tuple(list(n.iter.args), ast.Load()), table], [])
        out = [fn]
        if reds:
            out.append(ast.Assign([ast.Name(f"__part{i}", ast.Store())], call))
            for k, v in reds.items():
                out.append(ast.Assign([ast.Name(k, ast.Store())], ast.Call(
                    ast.Name("__fold", ast.Load()),
                    [ast.Name(k, ast.Load()), ast.Constant(next(iter(v)).__name__), ast.Name(f"__part{i}", ast.Load()), ast.Constant(k)], [])))
        else:
            out.append(ast.Expr(call))
        self.known |= private
        return [ast.fix_missing_locations(ast.copy_location(x, n)) for x in out]


def _fold(val, how, parts, name):
    for p in parts:
        v = p[name]
        val = val + v if how in ("Add", "Sub") else val * v if how == "Mult" else val | v
    return val


class _Numpy:
    """numpy, whose new arrays are shared memory, and whose unwritten memory
    holds whatever the run's seed says."""

    def __init__(self, run):
        object.__setattr__(self, "_run", run)

    def empty(self, *a, **k):
        return self._poison(np.empty(*a, **k))

    def empty_like(self, x, *a, **k):
        return self._poison(np.empty_like(plain(x), *a, **k))

    def _poison(self, arr):
        run = self._run()
        if arr.dtype.kind == "f":
            arr.fill(run.poison)
        elif arr.dtype.kind == "c":
            arr.fill(complex(run.poison, run.poison))
        elif arr.dtype.kind in "iu":
            arr.fill(int(abs(run.poison)) % 100 if run.poison == run.poison else 77)
        elif arr.dtype.kind == "b":
            arr.fill(run.poison != run.poison or run.poison > 50)
        return share(arr)

    def __getattr__(self, name):
        v = getattr(np, name)
        if isinstance(v, (type, np.ufunc)) or not callable(v):
            return v

        def call(*a, **k):
            _touch()
            return share(v(*[plain(x) for x in a], **{n: plain(x) for n, x in k.items()}))
        return call


class _Numba:
    def __init__(self, run):
        self._run = run

    def prange(self, *a):
        return range(*map(int, a))

    def get_thread_id(self):
        t = _TEAM.get(core._get_ident())
        return t[1] if t else 0

    def get_num_threads(self):
        return self._run().size

    def __getattr__(self, name):
        import numba
        return getattr(numba, name)


class Run:
    """One execution of an opened kernel."""

    def __init__(self, size, p, division, poison, rng, client):
        self.size, self.p, self.division, self.poison, self.rng, self.client = size, p, division, poison, rng, client
        self.accesses = self.turns = self.log = 0


class Opened:
    """Stands where a compiled parallel kernel was."""

    def __init__(self, lab, name, disp):
        self.lab, self.name, self.disp = lab, name, disp
        self.__name__ = name
        self.py_func = disp.py_func
        self.fn = None
        self.why = None
        try:
            self.fn = self._compile()
        except Unopenable as e:
            self.why = str(e)
        except (OSError, SyntaxError, TypeError, ValueError) as e:
            self.why = f"{type(e).__name__}: {e}"

    def _compile(self):
        py = self.disp.py_func
        glob = py.__globals__
        if py.__closure__:
            raise Unopenable("closure")
        fn = ast.parse(textwrap.dedent(inspect.getsource(py))).body[0]
        if not isinstance(fn, ast.FunctionDef):
            raise Unopenable("not a function")
        fn.decorator_list = []
        fn.returns = None
        for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs:
            a.annotation = None
        if not any(_is_prange(n, glob) for n in ast.walk(fn)):
            raise Unopenable("no parallel loop")
        tree = ast.Module([_Open(glob, [a.arg for a in fn.args.args]).visit(fn)], [])
        code = compile(ast.fix_missing_locations(tree), f"<opened {self.name}>", "exec")
        lab = self.lab
        ns = {}
        for k, v in glob.items():
            if v is np:
                v = lab.numpy
            elif type(v).__name__ == "module" and v.__name__ == "numba":
                v = lab.numba
            elif lab.is_parallel(v):
                v = lab.inner(v)
            elif lab.is_dispatcher(v):
                v = (lambda d: lambda *a: share(d(*map(plain, a))))(v)
            elif v is getattr(lab.nb, "prange"):
                v = lab.numba.prange
            elif isinstance(v, Opened):
                v = lab.inner(v.disp)
            ns[k] = v
        ns["__team"] = lab.loop
        ns["__fold"] = _fold
        exec(code, ns)
        return ns[fn.name]

    def __call__(self, *args, **kw):
        return self.lab.call(self, args, kw)


class Lab:
    """Opens every parallel kernel of the package and runs the opened ones."""

    def __init__(self, gcl):
        import numba
        self.gcl, self.nb = gcl, numba
        self.cur = {}  # thread ident -> Run
        self.numpy = _Numpy(self.run)
        self.numba = _Numba(self.run)
        self.opened, self.sites = {}, []
        self.reset(0)
        for mname, mod in sorted(sys.modules.items()):
            if mod is None or not (mname == "graphicle" or mname.startswith("graphicle.")):
                continue
            for k, v in list(vars(mod).items()):
                if self.is_parallel(v):
                    self.sites.append((mod, k, v))
        for mod, k, v in self.sites:
            if id(v) not in self.opened:
                self.opened[id(v)] = Opened(self, k, v)

    def reset(self, seed):
        self.seed, self.calls, self.stats, self.problem, self.sizes, self.log, self.why = seed, {}, {}, None, {}, 0, None

    def is_dispatcher(self, v):
        return hasattr(v, "py_func") and hasattr(v, "targetoptions")

    def is_parallel(self, v):
        return self.is_dispatcher(v) and bool(v.targetoptions.get("parallel"))

    def run(self):
        t = _TEAM.get(core._get_ident())
        if t is not None:
            return t[0].run_
        return self.cur[core._get_ident()]

    def install(self):
        for mod, k, v in self.sites:
            setattr(mod, k, self.opened[id(v)])

    def remove(self):
        for mod, k, v in self.sites:
            setattr(mod, k, v)

    def bump(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def inner(self, disp):
        def call(*args):
            o = self.opened.get(id(disp))
            if o is None or o.fn is None:
                return share(disp(*map(plain, args)))
            return o.fn(*map(share, args))
        return call

    def loop(self, body, bounds, reds):
        me = _TEAM.get(core._get_ident())
        idx = range(*map(int, bounds))
        if me is not None:  # a parallel loop inside another one is not divided
            acc = {k: i for k, (_, i) in reds.items()}
            for i in idx:
                body(i, acc)
            return [acc]
        run = self.cur[core._get_ident()]
        t = Team(run, run.size)
        return t.loop(lambda k, red: body(idx[k], red), len(idx), reds)

    def execute(self, o, args, kw, run):
        me = core._get_ident()
        keep = self.cur.get(me)
        self.cur[me] = run
        try:
            with np.errstate(all="ignore"):
                return plain(o.fn(*map(share, args), **{k: share(v) for k, v in kw.items()}))
        finally:
            if keep is None:
                self.cur.pop(me, None)
            else:
                self.cur[me] = keep

    def call(self, o, args, kw):
        client = core._CLIENTS.get(core._get_ident())
        who = client.idx if client else -1
        size = self.nb.get_num_threads()
        self.sizes.setdefault(who, []).append((size, max([np.shape(a)[0] for a in args if np.ndim(a)] or [0])))
        self.bump("kernel_calls")
        if o.fn is None:
            self.bump("kernels_not_opened")
            return o.disp(*args, **kw)

        def copies():
            return [a.copy() if isinstance(a, np.ndarray) else a for a in args], {k: v.copy() if isinstance(v, np.ndarray) else v for k, v in kw.items()}

        n = self.calls[who, client.op if client else 0] = self.calls.get((who, client.op if client else 0), 0) + 1
        rng = random.Random(f"{self.seed}:{who}:{client.op if client else 0}:{n}")
        mask = client.mask if client else None
        if client:
            client.mask = True
        try:
            try:
                a1, k1 = copies()
                one = self.execute(o, a1, k1, Run(1, 0.0, "even", float("nan"), rng, None))
                a2, k2 = copies()
                two = self.execute(o, a2, k2, Run(1, 0.0, "even", 61.5, rng, None))
            except HarnessError:
                raise
            except BaseException as e:  # noqa: BLE001
                one = e
                two = None
            finally:
                pass
            a3, k3 = copies()
            self.nb.set_num_threads(1)
            try:
                real = o.disp(*a3, **k3)
            except Exception as e:  # noqa: BLE001
                real = e
            finally:
                self.nb.set_num_threads(size)
            bad_memory = two is not None and not alike(one, two)
            if not bad_memory and (isinstance(one, BaseException) or not alike(one, real, 1e-6)):
                # not the same computation: do not judge it by this
                self.bump("kernels_not_opened")
                self.why = f"{o.name}: {one!r:.120} against {real!r:.120}"
                return o.disp(*args, **kw)
            if bad_memory:
                self.problem = self.problem or (f"the result of a kernel ({len(args)} arguments, shapes "
                                                f"{[np.shape(a) for a in args]}) depends on memory nobody has written")
            run = Run(size if size > 1 or rng.random() < 0.3 else rng.randint(1, 8), self.p(rng),
                      rng.choice(["even", "even", "cuts", "any", "shuffled"]), rng.choice([float("nan"), 1e300, 61.5, -3.25]), rng, client)
            try:
                r = self.execute(o, args, kw, run)
            except _Stop:
                self.bump("kernels_too_long")
                return o.disp(*args, **kw)
            self.bump("kernels_opened")
            self.bump("team_turns", run.turns)
            self.bump("team_accesses", run.accesses)
            self.bump(f"team_of_{run.size}")
            self.log = (self.log * 31 ^ run.log) & 0xFFFFFFFFFFFFFFFF
            if not alike(r, real, 1e-6):
                self.problem = self.problem or (f"a kernel divided among {run.size} workers ({run.division}) gives {str(r)[:200]}, "
                                                f"undivided it gives {str(real)[:200]}")
            return r
        finally:
            if client:
                client.mask = mask

    def p(self, rng):
        return rng.choice([0.02, 0.1, 0.3, 0.7])


def alike(a, b, rtol=0.0):
    if isinstance(a, BaseException) or isinstance(b, BaseException):
        return type(a) is type(b)
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(alike(x, y, rtol) for x, y in zip(a, b))
    try:
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        with np.errstate(all="ignore"):
            return bool(np.allclose(a, b, rtol=rtol, atol=rtol * 1e-3, equal_nan=True)) if a.dtype.kind in "fc" else bool(np.array_equal(a, b))
    except Exception:
        return False
