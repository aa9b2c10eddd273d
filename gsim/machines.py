"""Histories: each client owns objects and applies reads and writes to them,
in lockstep with a model.  Operations carry their own seed and are made
concrete against the model's current state, so a history stays meaningful when
operations are removed from it."""
import copy as pycopy
import random

import numpy as np

from . import gen, model as M, ops, ops_graph, ops_pdg  # noqa: F401
from .core import HarnessError, DeadlockError
from .runner import Outcome, make_sim, finish_sim, attempt, dig, RETRY, AUDIT
from .ops import canon, check, brief, same, SKIP, Exc, Pred, mask as mask_c, group as group_c, key_rows, live_key, draw_key

COLS = ("pdg", "pmu", "color", "helicity", "status", "final")


class Step:
    """One concrete operation.

    run:    performs it on the real objects
    expect: what it must return (as in ops.check), or None
    commit: applies it to the model, given the real result
    writes: the real effect happens inside run (so that an interrupted run may
            leave either the old or the new state); otherwise commit performs it
    """

    def __init__(self, run, expect=None, commit=None, writes=False, what="", snap=False):
        self.run, self.expect, self.commit, self.writes, self.what = run, expect, commit, writes, what
        self.after = None  # a further check once committed


class Machine:
    def __init__(self, gcl, init, fresh=True):
        self.gcl = gcl
        self.init = init
        self.setup(random.Random(init["r"]))

    def setup(self, rng):
        raise NotImplementedError

    def step(self, a):
        return getattr(self, "do_" + a["f"])(random.Random(a["r"]), a)

    def mismatch(self):
        return None

    def audits(self):
        return []


def run_history(gcl, spec, cls, audit=True, built=None, extra=()):
    out = Outcome()
    sim = make_sim(spec)
    machines = built if built is not None else [cls(gcl, init) for init in spec["init"]]
    done = []

    def one(c, m, st, n, name):
        r, hit = attempt(sim, c, n, st.run)
        out.ops += 1
        out.bump("op_" + name)
        if isinstance(r, DeadlockError):
            return r, True, False
        failed = isinstance(r, BaseException) and hit
        label = f"{name} {st.what}"
        if failed:
            out.bump("failed_ops")
            bad = m.mismatch()
            if bad and st.writes:
                if st.commit:
                    st.commit(None)
                worse = m.mismatch()
                if worse:
                    out.bad(f"{brief(label, 200)} failed and left neither the old nor the new state: {worse}", c.idx, n)
                return r, True, True
            if bad:
                out.bad(f"{brief(label, 200)} failed and left a change: {bad}", c.idx, n)
            return r, True, bad is not None
        got = canon(gcl, r)
        dig(out, got)
        bad = check(got, st.expect) if st.expect is not None else None
        if bad is None and isinstance(r, BaseException) and not isinstance(st.expect, Exc) and st.expect is not SKIP:
            bad = f"raised {type(r).__name__}: {r}"
        if bad:
            out.bad(f"{brief(label, 200)}: {bad}", c.idx, n)
        if st.commit is not None and not isinstance(r, BaseException):
            st.commit(r)
        bad = (st.after and st.after()) or m.mismatch()
        if bad:
            out.bad(f"after {brief(label, 200)}: {bad}", c.idx, n)
        return r, False, False

    def body(m, prog):
        def go(c):
            for a in prog:
                if out.viol:
                    return
                st = m.step(a)
                if st is None:
                    continue
                r, failed, applied = one(c, m, st, a["n"], a["f"])
                if failed and not applied and not out.viol:
                    one(c, m, st, RETRY + a["n"], a["f"])
            if audit and not out.viol:
                for k, st in enumerate(m.audits()):
                    one(c, m, st, AUDIT + k, "audit")
            done.append(c.idx)
        return go

    for m, prog in zip(machines, spec["clients"]):
        sim.add(body(m, prog))
    if spec.get("fault_kinds"):
        sim.faultable = lambda c, o: o < RETRY
    sim.run()
    out.crashed = sim.crashed
    if not out.viol and not (sim.deadlock or sim.stuck or sim.crashed):
        # nothing another client did later may have reached earlier objects
        for ci, m in enumerate(list(machines) + list(extra)):
            bad = m.mismatch()
            if bad:
                out.bad(f"at the end, client {ci}: {bad}", ci, -1)
    finish_sim(sim, out)
    return out


def histories(rng, fs, weights, nc=(1, 1, 2, 2, 3), n=(4, 14)):
    k = rng.choice(nc)
    init = [{"r": rng.randrange(1 << 30)} for _ in range(k)]
    if k > 1 and rng.random() < 0.5:
        init = [dict(init[0]) for _ in range(k)]  # twins: the same data in every client
    progs = []
    for _ in range(k):
        progs.append([{"f": rng.choices(fs, weights)[0], "r": rng.randrange(1 << 30)} for _ in range(rng.randint(*n))])
    if k > 1 and rng.random() < 0.3:
        progs = [[dict(a) for a in progs[0]] for _ in range(k)]
    return {"init": init, "clients": progs}


def raw(o):
    return np.asarray(ops.raw(o))


def differs(real, want):
    """Compare a leaf's stored data with the model's, exactly."""
    a = raw(real)
    w = np.asarray(want)
    if a.size == 0 and w.size == 0:
        return len(a) != len(w)
    return a.shape != w.shape or not np.array_equal(a, w, equal_nan=a.dtype.kind == "f")


class Shim:
    """What the query operations expect to run against."""

    def __init__(self, m):
        self.gcl = m.gcl
        self.pmu, self.graph, self.codes, self.given, self.args = [], [], [], [], []
        self.world = {"pmu": [], "ev": [], "tidy": [], "codes": []}

    def inp(self, x, what=""):
        return x


# ================================================================== C06
def _edges_like(rng, n):
    """n edges of a random DAG with integer vertices, some of them final."""
    out = []
    for i in range(n):
        s = -rng.randint(1, max(1, n // 2 + 1))
        d = rng.randint(1, n + 3) if rng.random() < 0.4 else s - rng.randint(1, 3)
        out.append([s, d])
    return out


PQ = ("pt", "eta", "rapidity", "phi", "theta", "mass", "mass_t", "x", "y", "z", "energy", "pmu_iter", "pmu_ser",
      "pmu_len", "delta_R", "delta_R_aff", "combined_mass", "aggregate_momenta", "shift_rapidity", "shift_phi",
      "pmu_getitem_eta", "pmu_copy", "pmu_sum", "pmu_arith")
GQ = ("hard_mask", "in_range", "pdg_mask", "pdg_prop", "graph_eta", "graph_ser", "nodes", "roots", "leaves", "matrix",
      "graph_cols", "hierarchy", "hard_descendants", "adj_eq", "graph_copy", "graph_getitem", "hadron_vertices",
      "vertex_descendants")


class Box:
    """A real object with the model's copy of its data."""
    __slots__ = ("real", "val")

    def __init__(self, real, val):
        self.real, self.val = real, val


class Mutation(Machine):
    """Data replaced in every way callers can; then every derived quantity."""

    def setup(self, rng):
        gcl = self.gcl
        ev = gen.event(rng, True)
        self.ev = {k: pycopy.deepcopy(v) for k, v in ev.items()}
        self.ev0 = dict(self.ev)
        self.g = ops.build_graph(gcl, ev)
        self.boxes = []
        for _ in range(2):
            rows = np.array(gen.momenta(rng, gen.size(rng, 1, 8) if rng.random() < 0.99 else rng.choice(gen.LONG), 0.1), dtype="<f8")
            self.boxes.append(Box(gcl.MomentumArray(rows.copy()), rows))
        rows = np.array(ev["pmu"], dtype="<f8")
        self.gbox = Box(self.g.particles.pmu, rows)
        self.boxes.append(self.gbox)
        self.slots = list(self.boxes)

    # -- views of the model --------------------------------------------
    def world(self):
        sh = Shim(self)
        ev = dict(self.ev)
        ev["pmu"] = self.gbox.val.tolist()
        sh.world["ev"] = [ev]
        sh.world["pmu"] = [b.val.tolist() for b in self.slots]
        sh.world["tidy"] = [False] * len(self.slots)
        sh.pmu = [b.real for b in self.slots]
        sh.graph = [self.g]
        return sh

    def mismatch(self):
        for i, b in enumerate(self.slots):
            if differs(b.real, b.val):
                return f"momenta {i} hold {brief(raw(b.real).tolist())}, expected {brief(b.val.tolist())}"
        if self.g.particles.pmu is not self.gbox.real and differs(self.g.particles.pmu, self.gbox.val):
            return "the event's momenta are not the ones assigned"
        for c in ("pdg", "color", "helicity", "status", "final"):
            if differs(getattr(self.g.particles, c), self.ev[c]):
                return f"the event's {c} hold {brief(raw(getattr(self.g.particles, c)).tolist())}, expected {brief(self.ev[c])}"
        if differs(self.g.adj, self.ev["edges"]):
            return "the event's edges changed"
        w = np.asarray(self.g.adj.weights)
        if w.shape != (len(self.ev["weights"]),) or not np.array_equal(w, self.ev["weights"]):
            return f"edge weights are {brief(w.tolist())}, expected {brief(self.ev['weights'])}"
        return None

    # -- queries --------------------------------------------------------
    def _query(self, name, rng, sh):
        a = ops.OPS[name].draw(rng, sh.world)
        a["f"] = name
        return Step(lambda: ops.run(sh, a), ops.expect(sh.world, a), what=str({k: v for k, v in a.items() if k != "m"}))

    def do_q(self, rng, a):
        # sets without momenta: the plain quantities only
        full = all(len(b.val) for b in self.slots)
        return self._query(rng.choice(PQ if full else PQ[:13]), rng, self.world())

    def do_gq(self, rng, a):
        name = rng.choice(GQ)
        if name == "hierarchy" and (self.ev["status"] != self.ev0["status"] or self.ev["edges"] != self.ev0["edges"]):
            name = "hard_mask"  # no longer the record of a physical hard process
        return self._query(name, rng, self.world())

    # -- momenta --------------------------------------------------------
    def _rows(self, rng, n):
        return np.array(gen.momenta(rng, n, 0.1), dtype="<f8").reshape(-1, 4)

    def _size(self, rng, b):
        return len(b.val) if b is self.gbox or rng.random() < 0.5 else gen.size(rng, 0, 8)

    def do_set(self, rng, a):
        b = rng.choice(self.slots)
        rows = self._rows(rng, self._size(rng, b))
        form = rng.choice(["np", "list", "rec", "obj", "objq", "fortran", "perm", "tuple", "f4"])
        gcl = self.gcl
        want = rows
        if form == "np":
            v = rows.copy()
        elif form == "list":
            v = rows.tolist()
        elif form == "tuple":
            v = [tuple(r) for r in rows.tolist()]
        elif form == "fortran":
            v = np.array(rows, order="F")
        elif form == "f4":
            v = rows.astype("<f4")
            want = v.astype("<f8")
        elif form in ("rec", "perm"):
            names = list("xyze")
            if form == "perm":
                rng.shuffle(names)
            v = np.empty(len(rows), dtype=[(k, "<f8") for k in names])
            for k in names:
                v[k] = rows[:, "xyze".index(k)]
        else:
            v = gcl.MomentumArray(rows.copy())
            if form == "objq" and len(rows):
                v.eta, v.mass, v.rapidity  # the donor has its own derived values

        def run():
            b.real.data = v

        def commit(_):
            b.val = np.array(want, dtype="<f8")
        return Step(run, None, commit, True, f"({form}, {len(rows)} rows)")

    def do_bad(self, rng, a):
        b = rng.choice(self.slots)
        v = rng.choice([np.zeros((3, 5)), [1.0, 2.0, 3.0], [[1.0, 2.0]], "text", np.ones((2, 3))])

        def run():
            b.real.data = v
        return Step(run, Exc("ValueError", "TypeError"), None, False, "(unusable data)")

    def do_iop(self, rng, a):
        b = rng.choice(self.slots)
        o = rng.choice(["+=", "-=", "*=", "+= other", "add.at", "out"])
        i = [k for k, s in enumerate(self.slots) if s is b][0]
        s = gen.r6(rng.uniform(0.5, 2.0))
        other = self._rows(rng, len(b.val))
        if not len(b.val):
            return None
        if o == "-=":
            other = b.val * gen.r6(rng.uniform(0.1, 0.8))  # what is left is physical
        k = rng.randrange(len(b.val))

        def run():
            p = b.real
            if o == "+=":
                p += other
            elif o == "-=":
                p -= other
            elif o == "*=":
                p *= s
            elif o == "+= other":
                p += self.gcl.MomentumArray(other.copy())
            elif o == "add.at":
                np.add.at(p, [k], other[k])
            else:
                np.multiply(p, s, out=p)
            return p

        def commit(r):
            v = b.val.copy()
            if o in ("+=", "+= other"):
                v = v + other
            elif o == "-=":
                v = v - other
            elif o in ("*=", "out"):
                v = v * s
            else:
                v[k] = v[k] + other[k]
            b.val = v
            if r is not None and r is not b.real:
                # the caller's variable now names another object
                if b is self.gbox:
                    nb = Box(r, v)
                    self.slots = [nb if (j == i) else x for j, x in enumerate(self.slots)]
                else:
                    b.real = r
        return Step(run, None, commit, True, o)

    def do_new(self, rng, a):
        src = rng.choice(self.slots)
        j = rng.randrange(2)
        how = rng.choice(["+", "-", "*", "copy", "key", "pickcopy", "shift_rapidity", "shift_phi"])
        n = len(src.val)
        if how.startswith("shift"):
            sh = self.world()
            if not all(len(b.val) for b in self.slots):
                return None
            x = dict(ops.OPS[how].draw(rng, sh.world), f=how)
            exp = ops.expect(sh.world, x)

            def commit(r):
                if isinstance(r, self.gcl.MomentumArray):
                    self.slots[j] = Box(r, np.array(raw(r)))
            return Step(lambda: ops.run(sh, x), exp, commit, False, how)
        s = gen.r6(rng.uniform(0.5, 2.0))
        other = self._rows(rng, n)
        if how == "-":
            other = src.val * gen.r6(rng.uniform(0.1, 0.8))
        key = draw_key(rng, n) if n else ["mask", []]
        if key[0] == "slice" or not n:
            key = ["mask", [bool(rng.getrandbits(1)) for _ in range(n)]]
        v, p, gcl = src.val, src.real, self.gcl
        res = {"+": lambda: p + other, "-": lambda: p - other, "*": lambda: p * s, "copy": lambda: p.copy(),
               "key": lambda: p[live_key(gcl, key)], "pickcopy": lambda: pycopy.deepcopy(p)}[how]
        want = {"+": v + other, "-": v - other, "*": v * s, "copy": v.copy(), "pickcopy": v.copy(),
                "key": np.array([v[i] for i in key_rows(key, n)]).reshape(-1, 4)}[how]

        def commit(r):
            self.slots[j] = Box(r, want)
        return Step(res, ("pmu", want), commit, False, how)

    def do_alias(self, rng, a):
        """Another name for the same momenta, or the event's own."""
        j = rng.randrange(2)
        src = rng.choice([b for b in self.slots])

        def commit(_):
            self.slots[j] = src
        return Step(lambda: None, None, commit, False, "")

    def do_put(self, rng, a):
        """Give the event another set of momenta."""
        n = len(self.ev["pdg"])
        cands = [b for b in self.slots if len(b.val) == n and b is not self.gbox]
        if cands and rng.random() < 0.6:
            nb = rng.choice(cands)
        else:
            rows = self._rows(rng, n)
            p = self.gcl.MomentumArray(rows.copy())
            if rng.random() < 0.5:
                p.mass, p.eta
            nb = Box(p, rows)

        def run():
            self.g.particles.pmu = nb.real

        def commit(_):
            self.gbox = nb
            self.slots[2] = nb
        st = Step(run, None, commit, True, "")
        return st

    # -- the event's other columns --------------------------------------
    def _col(self, rng, c, new, form):
        cls = {"pdg": "PdgArray", "status": "StatusArray", "helicity": "HelicityArray", "final": "MaskArray", "color": "ColorArray"}[c]

        def run():
            ps = self.g.particles
            if form == "attr":
                setattr(ps, c, getattr(self.gcl, cls)(new))
            elif form == "list":
                getattr(ps, c).data = new
            elif form == "np":
                getattr(ps, c).data = np.array(new)
            elif form == "via":
                getattr(self.g, c).data = new

        def commit(_):
            self.ev = dict(self.ev, **{c: new})
        return Step(run, None, commit, True, f"{c} by {form}")

    def do_col(self, rng, a):
        n = len(self.ev["pdg"])
        c = rng.choice(["pdg", "status", "status", "helicity", "final", "color"])
        old = self.ev[c]
        if c == "pdg":
            pool = [1, -1, 5, -5, 6, -6, 21, 11, -12, 23, 24, 211, 2212]
            new = [rng.choice(pool) if rng.random() < 0.5 else v for v in old]
        elif c == "status":
            new = [rng.choice([-21, -22, -23, 23, 24, 51, 83, 91, 1]) if rng.random() < 0.4 else v for v in old]
        elif c == "helicity":
            new = [rng.choice([-1, 0, 1, 9]) for _ in range(n)]
        elif c == "color":
            new = [[rng.randint(0, 200), rng.randint(0, 200)] for _ in range(n)]
        else:
            new = [rng.random() < 0.5 for _ in range(n)]
        return self._col(rng, c, new, rng.choice(["attr", "list", "np", "via"]))

    def do_icol(self, rng, a):
        """In-place arithmetic on the status codes / a mask entry."""
        n = len(self.ev["pdg"])
        if rng.random() < 0.5:
            k, v = rng.randrange(n), rng.random() < 0.5
            new = list(self.ev["final"])
            new[k] = v

            def run():
                self.g.final[k] = v
            return Step(run, None, lambda _: setattr(self, "ev", dict(self.ev, final=new)), True, "final entry")
        bits = [rng.random() < 0.5 for _ in range(n)]
        new = [v or b for v, b in zip(self.ev["final"], bits)]

        def run():
            self.g.final[self.gcl.MaskArray(bits)] = True
        return Step(run, None, lambda _: setattr(self, "ev", dict(self.ev, final=new)), True, "final by mask")

    # -- the graph -------------------------------------------------------
    def do_adj(self, rng, a):
        n = len(self.ev["pdg"])
        how = rng.choice(["weights", "weights", "adj", "w0", "iop", "iop"])
        w = gen.weights(rng, n)
        if how == "iop":
            return self._edge_iop(rng, n)
        if how == "weights":
            def run():
                self.g.adj.weights = np.array(w) if rng.random() < 0.5 else w
            new = {"weights": w}
        elif how == "w0":
            k = rng.randrange(n)
            if not self.ev["weights"]:
                return None
            w = list(self.ev["weights"])
            w[k] = 7.5

            def run():
                self.g.adj.weights[k] = 7.5
            new = {"weights": w}
        else:
            e = _edges_like(rng, n)
            if rng.random() < 0.5:
                w = []
            adj = self.gcl.AdjacencyList(np.array(e, dtype="<i4"), np.array(w)) if w else self.gcl.AdjacencyList(np.array(e, dtype="<i4"))
            if rng.random() < 0.5:
                adj.matrix, adj.nodes

            def run():
                self.g.adj = adj
            new = {"edges": e, "weights": w}
        return Step(run, None, lambda _: setattr(self, "ev", dict(self.ev, **new)), True, how)

    def _edge_iop(self, rng, n):
        """In-place arithmetic on the edges."""
        old = self.ev["edges"]
        o = rng.choice(["*=", "neg", "+=", "out", "at", "-="])
        k = rng.randrange(n)
        new = [(-x, -y) for x, y in old] if o in ("*=", "neg") else _edges_like(rng, n)
        if o == "at":
            new = [e if i == k else f for i, (e, f) in enumerate(zip(new, old))]
        step = np.array(new, dtype="<i4") - np.array(old, dtype="<i4")

        def run():
            adj = self.g.adj
            if o == "*=":
                adj *= -1
            elif o == "neg":
                np.negative(adj, out=adj)
            elif o == "+=":
                adj += step
            elif o == "-=":
                adj -= -step
            elif o == "at":
                np.add.at(adj, [k], step[k])
            else:
                np.add(adj, step, out=adj)
        return Step(run, None, lambda _: setattr(self, "ev", dict(self.ev, edges=[tuple(e) for e in new])), True, f"edges {o}")

    def do_particles(self, rng, a):
        """Give the event a copy of its particles back."""
        ps = self.g.particles.copy()

        def run():
            self.g.particles = ps

        def commit(_):
            nb = Box(ps.pmu, self.gbox.val.copy())
            self.gbox = nb
            self.slots[2] = nb
        return Step(run, None, commit, True, "")

    def audits(self):
        sh = self.world()
        out = []
        for i in range(len(self.slots)):
            for f in ("pt", "eta", "rapidity", "phi", "theta", "mass", "mass_t"):
                a = {"f": f, "p": i}
                out.append(Step(lambda a=a: ops.run(sh, a), ops.expect(sh.world, a), what=str(a)))
        for f in ("graph_eta", "hard_mask", "matrix", "nodes", "roots", "leaves", "graph_cols"):
            a = {"f": f, "g": 0}
            out.append(Step(lambda a=a: ops.run(sh, a), ops.expect(sh.world, a), what=str(a)))
        a = {"f": "pdg_prop", "g": 0, "c": "name"}
        out.append(Step(lambda: ops.run(sh, a), ops.expect(sh.world, a), what="names"))
        return out


MUT_F = ["q", "gq", "set", "bad", "iop", "new", "alias", "put", "col", "icol", "adj", "particles"]
MUT_W = [10, 8, 5, 1, 4, 3, 1, 2, 5, 2, 4, 1]


# ================================================================== C07, C09
# A model value is a dict tree mirroring the object:
#   leaf   {"t": kind, "v": rows}            kind: pmu pdg status helicity mask color
#   adj    {"t": "adj", "v": edges, "w": weights}
#   group  {"t": "group", "agg": op, "k": {name: value}}
#   pset   {"t": "pset", "c": {column: leaf}}
#   graph  {"t": "graph", "p": pset, "a": adj}
LEAF_CLS = {"pmu": "MomentumArray", "pdg": "PdgArray", "status": "StatusArray", "helicity": "HelicityArray",
            "mask": "MaskArray", "color": "ColorArray"}
COL_KIND = {"pdg": "pdg", "pmu": "pmu", "color": "color", "helicity": "helicity", "status": "status", "final": "mask"}
WIDTH = {"pmu": 4, "color": 2, "adj": 2}


def want(v):
    """Canonical form of a model value."""
    t = v["t"]
    if t == "pmu":
        return ("pmu", np.array(v["v"], dtype="<f8").reshape(-1, 4))
    if t == "mask":
        return mask_c(v["v"])
    if t == "adj":
        return ("adj", [list(e) for e in v["v"]], [float(x) for x in v["w"]])
    if t == "group":
        return ("group", v["agg"], [(k, want(x)) for k, x in v["k"].items()])
    if t == "pset":
        return ("pset", {c: want(v["c"][c]) for c in COLS})
    if t == "graph":
        return ("graph", want(v["p"]), want(v["a"]))
    return (LEAF_CLS[t], [list(r) if isinstance(r, (list, tuple)) else r for r in v["v"]])


def squash(c):
    """Forget the shape an empty array has."""
    if isinstance(c, np.ndarray):
        return c.reshape(-1).tolist() if c.size == 0 else c
    if isinstance(c, tuple):
        return tuple(squash(x) for x in c)
    if isinstance(c, list):
        return [squash(x) for x in c]
    if isinstance(c, dict):
        return {k: squash(x) for k, x in c.items()}
    return c


def agrees(gcl, real, v):
    """None, or how the real object differs from the model value (exactly)."""
    got, exp = squash(canon(gcl, real)), squash(want(v))
    return None if same(got, exp, 0, 0) else f"holds {brief(got)}, expected {brief(exp)}"


def select(v, rows, n):
    """The model value with only the given rows, in order."""
    t = v["t"]
    if t == "group":
        return {"t": t, "agg": v["agg"], "k": {k: select(x, rows, n) for k, x in v["k"].items()}}
    if t == "pset":
        return {"t": t, "c": {c: select(x, rows, n) for c, x in v["c"].items()}}
    if t == "graph":
        return {"t": t, "p": select(v["p"], rows, n), "a": select(v["a"], rows, n)}
    if t == "adj":
        return {"t": t, "v": [list(v["v"][i]) for i in rows] if len(v["v"]) else [],
                "w": [v["w"][i] for i in rows] if len(v["w"]) else []}
    return {"t": t, "v": [pycopy.copy(v["v"][i]) for i in rows] if len(v["v"]) else []}


def length(v):
    t = v["t"]
    if t == "pset":
        return next((len(v["c"][c]["v"]) for c in COLS if len(v["c"][c]["v"])), 0)
    if t == "graph":
        return length(v["p"]) or len(v["a"]["v"])
    if t == "group":
        return next((length(x) for x in v["k"].values()), 0)
    return len(v["v"])


def leaf_value(rng, t, n):
    if t == "pmu":
        return gen.momenta(rng, n, 0.1)
    if t == "pdg":
        return [rng.choice([1, -1, 5, -5, 6, 21, 11, -12, 24, 211, 2212]) for _ in range(n)]
    if t == "status":
        return [rng.choice([-21, -22, 23, -23, 24, 51, 83, 91, 1]) for _ in range(n)]
    if t == "helicity":
        return [rng.choice([-1, 0, 1, 9]) for _ in range(n)]
    if t == "mask":
        return [rng.random() < 0.5 for _ in range(n)]
    if t == "color":
        return [[rng.randint(0, 500), rng.randint(0, 500)] for _ in range(n)]
    return _edges_like(rng, n)


def tree_value(rng, t, n, depth=2, missing=0.0):
    if t == "group":
        k = {}
        for i in range(rng.randint(1, 3)):
            name = rng.choice(["b", "W+", "latent", "t:0", "q", "x y", "b", "W+", "latent", "", "τ", "a.b", "data"]) + str(i) * (rng.random() < 0.7)
            k[name] = tree_value(rng, "group" if depth and rng.random() < 0.3 else "mask", n, depth - 1)
        return {"t": t, "agg": rng.choice(["and", "or", "or", "none"]), "k": k}
    if t == "pset":
        c = {c: {"t": COL_KIND[c], "v": [] if rng.random() < missing else leaf_value(rng, COL_KIND[c], n)} for c in COLS}
        return {"t": t, "c": c}
    if t == "graph":
        return {"t": t, "p": tree_value(rng, "pset", n, missing=missing),
                "a": {"t": "adj", "v": [], "w": []} if rng.random() < missing else tree_value(rng, "adj", n)}
    if t == "adj":
        return {"t": t, "v": leaf_value(rng, "adj", n), "w": [gen.r6(rng.uniform(0.1, 9)) for _ in range(n)] if rng.random() < 0.6 else []}
    return {"t": t, "v": leaf_value(rng, t, n)}


NPT = {"pmu": "<f8", "pdg": "<i4", "status": "<i2", "helicity": "<i2", "mask": bool, "color": "<i4", "adj": "<i4"}


def build(gcl, v):
    t = v["t"]
    if t == "group":
        import collections
        return gcl.MaskGroup(collections.OrderedDict((k, build(gcl, x)) for k, x in v["k"].items()), v["agg"])
    if t == "pset":
        return gcl.ParticleSet(**{c: build(gcl, x) for c, x in v["c"].items() if len(x["v"])})
    if t == "graph":
        kw = {"particles": build(gcl, v["p"])}
        if len(v["a"]["v"]):
            kw["adj"] = build(gcl, v["a"])
        return gcl.Graphicle(**kw)
    arr = np.array(v["v"], dtype=NPT[t])
    if t in WIDTH:
        arr = arr.reshape(-1, WIDTH[t])
    if t == "adj":
        return gcl.AdjacencyList(arr, np.array(v["w"])) if v["w"] else gcl.AdjacencyList(arr)
    return getattr(gcl, LEAF_CLS[t])(arr)


class Copies(Machine):
    """Copies and selections of every data structure, then writes to some of
    them: nobody else may notice, and nothing may be missing."""

    KINDS = ("pmu", "pmu", "pdg", "status", "helicity", "color", "mask", "group", "group", "adj", "adj", "pset", "graph", "graph")
    NEW = 3
    MISSING = 0.15

    def setup(self, rng):
        self.n = gen.size(rng, 1, 9) if rng.random() < 0.985 else rng.choice(gen.LONG)
        self.slots = []
        for _ in range(self.NEW):
            v = tree_value(rng, rng.choice(self.KINDS), self.n, missing=self.MISSING)
            self.slots.append([build(self.gcl, v), v])
        self.parent = list(range(len(self.slots)))

    def mismatch(self):
        for i, (r, v) in enumerate(self.slots):
            bad = agrees(self.gcl, r, v)
            if bad:
                return f"object {i} ({v['t']}) {bad}"
        return None

    def _put(self, real, v):
        if len(self.slots) < 8:
            self.slots.append([real, v])
        else:
            self.slots = self.slots[1:] + [[real, v]]

    def do_copy(self, rng, a):
        real, v = rng.choice(self.slots)
        how = rng.choice(["copy", "copy", "copy", "deepcopy"])
        nv = pycopy.deepcopy(v)

        def commit(r):
            self._put(r, nv)
        return Step((lambda: real.copy()) if how == "copy" else (lambda: pycopy.deepcopy(real)),
                    Pred(lambda got: None if same(squash(got), squash(want(v)), 0, 0) else f"gives {brief(got)}, expected {brief(want(v))}", "a copy"),
                    commit, False, f"{how} of {v['t']}")

    def _key(self, rng, n):
        if not n:
            return ["mask", []]
        key = draw_key(rng, n)
        while key[0] == "slice":
            key = draw_key(rng, n)  # a slice is a view by design
        return key

    def do_select(self, rng, a):
        real, v = rng.choice(self.slots)
        n = length(v)
        key = self._key(rng, n)
        nv = select(v, key_rows(key, n), n)
        k = live_key(self.gcl, key)

        def commit(r):
            self._put(r, nv)
        return Step(lambda: real[k],
                    Pred(lambda got: None if same(squash(got), squash(want(nv)), 0, 0) else f"gives {brief(got)}, expected {brief(want(nv))}", "a selection"),
                    commit, False, f"{v['t']}[{key}]")

    def do_slice(self, rng, a):
        real, v = rng.choice(self.slots)
        n = length(v)
        lo, hi = sorted((rng.randint(-n - 1, n + 1), rng.randint(-n - 1, n + 1)))
        key = ["slice", lo, hi, rng.choice([None, None, 2, 1])]
        if rng.random() < 0.2:
            key = ["slice", None, None, -1]
        nv = select(v, key_rows(key, n), n)
        k = live_key(self.gcl, key)
        return Step(lambda: real[k],
                    Pred(lambda got: None if same(squash(got), squash(want(nv)), 0, 0) else f"gives {brief(got)}, expected {brief(want(nv))}", "a selection"),
                    None, False, f"{v['t']}[{key}]")

    def do_int(self, rng, a):
        """A single row of a composite stays a composite of one row."""
        real, v = rng.choice(self.slots)
        n = length(v)
        if not n or v["t"] not in ("pset", "graph", "pmu"):
            return None
        i = rng.randint(-n, n - 1)
        nv = select(v, [i % n], n)

        return Step(lambda: real[i],
                    Pred(lambda got: None if same(squash(got), squash(want(nv)), 0, 0) else f"gives {brief(got)}, expected {brief(want(nv))}", "one row"),
                    None, False, f"{v['t']}[{i}]")

    # -- writes ----------------------------------------------------------
    def _targets(self, real, v):
        """(real leaf, model leaf) pairs that can be written to."""
        t = v["t"]
        if t == "pset":
            return [p for c in COLS for p in self._targets(getattr(real, c), v["c"][c])]
        if t == "graph":
            return self._targets(real.particles, v["p"]) + self._targets(real.adj, v["a"])
        if t == "group":
            return [(real, v)] + [p for k in v["k"] for p in self._targets(real[k], v["k"][k])]
        return [(real, v)] if len(v["v"]) else []

    def do_write(self, rng, a):
        real, v = rng.choice(self.slots)
        got = self._targets(real, v)
        if not got:
            return None
        leaf, m = rng.choice(got)
        return getattr(self, "_w_" + m["t"], self._w_leaf)(rng, leaf, m)

    def _w_leaf(self, rng, leaf, m):
        t, n = m["t"], len(m["v"])
        new = leaf_value(rng, t, n)
        k = rng.randrange(n)
        one = list(m["v"])
        one[k] = new[k]
        how = rng.choice(["data", "entry", "entry", "iadd"] if t in ("pdg", "status", "helicity") else
                         ["data", "entry", "entry"])
        if how == "data":
            def run():
                leaf.data = new
            final = new
        elif how == "entry":
            def run():
                if t == "mask":
                    leaf[k] = new[k]
                elif t == "color":
                    leaf.data["color"][k] = new[k][0]
                else:
                    leaf.data[k] = new[k]
            if t == "color":
                one[k] = [new[k][0], m["v"][k][1]]
            final = one
        else:
            def run():
                np.add(leaf, 2, out=leaf)
            final = [x + 2 for x in m["v"]]
        return Step(run, None, lambda _: m.update(v=final), True, f"{how} of {t}")

    def _w_pmu(self, rng, leaf, m):
        n = len(m["v"])
        new = gen.momenta(rng, n, 0.1)
        if rng.random() < 0.5:
            def run():
                leaf.data = np.array(new)
            return Step(run, None, lambda _: m.update(v=new), True, "data of momenta")
        add = np.array(gen.momenta(rng, n, 0.0))

        def run2():
            np.add(leaf, add, out=leaf)
        return Step(run2, None, lambda _: m.update(v=(np.array(m["v"]) + add).tolist()), True, "in-place sum")

    def _w_adj(self, rng, leaf, m):
        n = len(m["v"])
        if m["w"] and rng.random() < 0.6:
            k = rng.randrange(n)
            w = list(m["w"])
            w[k] = 11.25

            def run():
                leaf.weights[k] = 11.25
        else:
            w = gen.weights(rng, n)

            def run():
                leaf.weights = np.array(w)
        return Step(run, None, lambda _: m.update(w=w), True, "weights")

    def _w_group(self, rng, g, m):
        o = rng.choice(["set", "set", "del", "agg", "leaf"])
        names = list(m["k"])
        n = length(m)
        if o == "set":
            key = rng.choice(names + ["new", "extra"])
            bits = leaf_value(rng, "mask", n)
            val = rng.choice([self.gcl.MaskArray(bits), np.array(bits, bool), list(bits)])

            def run():
                g[key] = val
            return Step(run, None, lambda _: m["k"].__setitem__(key, {"t": "mask", "v": bits}), True, f"group[{key!r}]=")
        if o == "del" and len(names) > 1:
            key = rng.choice(names)

            def run2():
                del g[key]
            return Step(run2, None, lambda _: m["k"].pop(key, None), True, f"del group[{key!r}]")
        if o == "agg":
            how = rng.choice(["and", "or"])

            def run3():
                g.agg_op = how
            return Step(run3, None, lambda _: m.update(agg=how), True, "agg_op")
        return None

    def do_attr(self, rng, a):
        """Replace a whole column of a composite."""
        c = [s for s in self.slots if s[1]["t"] in ("pset", "graph")]
        if not c:
            return None
        real, v = rng.choice(c)
        ps, pv = (real.particles, v["p"]) if v["t"] == "graph" else (real, v)
        col = rng.choice(COLS)
        n = length(v)
        if not n:
            return None
        new = {"t": COL_KIND[col], "v": leaf_value(rng, COL_KIND[col], n)}
        obj = build(self.gcl, new)

        def run():
            setattr(ps, col, obj)
        return Step(run, None, lambda _: pv["c"].__setitem__(col, new), True, f"column {col}")

    # -- reads -----------------------------------------------------------
    def do_read(self, rng, a):
        """Derived quantities of one object belong to that object."""
        real, v = rng.choice(self.slots)
        if v["t"] in ("graph", "pset"):
            real, v = (real.particles.pmu, v["p"]["c"]["pmu"]) if v["t"] == "graph" and rng.random() < 0.6 else \
                (real.adj, v["a"]) if v["t"] == "graph" else (real.pmu, v["c"]["pmu"])
        if v["t"] == "adj":
            if not v["v"]:
                return None
            return Step(lambda: real.matrix, M_matrix(v), None, False, "matrix")
        if v["t"] == "pmu":
            if not len(v["v"]):
                return None
            f = rng.choice(["eta", "mass", "phi", "theta", "pt"])
            rows = np.array(v["v"])
            if np.any(rows[:, 3] < np.abs(rows[:, 2])):
                return None
            return Step(lambda: getattr(real, f), getattr(M, f)(rows), None, False, f)
        if v["t"] == "group":
            if v["agg"] == "none" or not v["k"] or any_none(v):
                return None
            return Step(lambda: np.asarray(real.data).tolist(), ("list", agg_bits(v)), None, False, "aggregate")
        if v["t"] == "pdg" and v["v"] and all(c in M.pdg_table() for c in v["v"]):
            nm = M.pdg_table()
            return Step(lambda: [str(s) for s in real.name], ("list", [nm[c]["name"] for c in v["v"]]), None, False, "names")
        if v["t"] == "status" and v["v"]:
            s = [abs(x) for x in v["v"]]
            return Step(lambda: real.hard_mask["outgoing"], mask_c([x == 23 for x in s]), None, False, "hard mask")
        return None

    def audits(self):
        out = []
        for k in range(8):
            st = self.do_read(random.Random(k * 7 + len(self.slots)), {})
            if st is not None:
                out.append(st)
        return out


def M_matrix(v):
    e = v["v"]
    if len({tuple(x) for x in e}) != len(e):
        return SKIP
    m = M.matrix(e, v["w"])
    return Pred(lambda got: None if isinstance(got, tuple) and got[0] == "arr" and got[2].shape == m.shape and
                np.allclose(np.asarray(got[2], float), m) else f"got {brief(got)}, expected {brief(m.tolist())}", "dense matrix")


def any_none(v):
    return v["t"] == "group" and (v["agg"] == "none" or not v["k"] or any(any_none(x) for x in v["k"].values()))


def agg_bits(v):
    if v["t"] == "mask":
        return [bool(b) for b in v["v"]]
    f = any if v["agg"] == "or" else all
    return [f(c) for c in zip(*[agg_bits(x) for x in v["k"].values()])]


COPY_F = ["copy", "select", "slice", "int", "write", "attr", "read"]
COPY_W = [6, 5, 2, 1, 9, 2, 6]
