"""Checkpoints: histories which save objects, restore them, and lose the
process at an arbitrary point, with only what had reached the disk surviving."""
import copy as pycopy
import io
import json
import pickle
import random

import numpy as np

from . import core, groups, machines
from .machines import LEAF_CLS, NPT, COLS, Step, Pred, agrees, squash
from .ops import brief, raw
from .sources import pause


class DiskError(OSError):
    """A failure of the simulated disk."""


class File:
    """A file on the simulated disk: every access may be slow, and one of them
    may fail."""

    def __init__(self, content=b"", fail=None):
        self.parts, self.pos, self.content = [], 0, content
        self.fail, self.count, self.failed = fail, 0, None

    def _access(self, what):
        pause()
        self.count += 1
        if self.fail is not None and self.count > self.fail and self.failed is None:
            self.failed = what
            raise DiskError(28 if what == "write" else 5, "injected disk failure")
        if self.failed is not None:
            raise DiskError(5, "injected disk failure")

    def write(self, b):
        b = bytes(b)
        try:
            self._access("write")
        except DiskError:
            self.parts.append(b[:len(b) // 2])  # torn
            raise
        self.parts.append(b)
        return len(b)

    def read(self, n=-1):
        self._access("read")
        n = len(self.content) - self.pos if n is None or n < 0 else n
        out = self.content[self.pos:self.pos + n]
        self.pos += len(out)
        return out

    def readline(self):
        self._access("read")
        end = self.content.find(b"\n", self.pos)
        end = len(self.content) if end < 0 else end + 1
        out = self.content[self.pos:end]
        self.pos = end
        return out

    def readinto(self, buf):
        got = self.read(len(buf))
        buf[:len(got)] = got
        return len(got)

    def bytes(self):
        return b"".join(self.parts)


def dump(objs, form, f):
    """Write objs to f; returns what else has to be kept."""
    if form["how"] == "json":
        f.write(json.dumps([o.serialize() for o in objs]).encode())
        return None
    cls = pickle._Pickler if form["slow"] else pickle.Pickler
    if form["oob"]:
        bufs = []
        cls(f, 5, buffer_callback=bufs.append).dump(objs)
        return [bytes(b.raw()) for b in bufs]
    cls(f, form["protocol"]).dump(objs)
    return None


def load(gcl, form, f, extra, shapes):
    if form["how"] == "json":
        return [rebuild(gcl, s, v) for s, v in zip(shapes, json.loads(f.read().decode()))]
    cls = pickle._Unpickler if form["slow"] else pickle.Unpickler
    if form["oob"]:
        return cls(f, buffers=[bytearray(b) for b in extra]).load()
    return cls(f).load()


def rebuild(gcl, t, v):
    """An object from its serialised form."""
    if t == "group":
        return gcl.MaskGroup({k: rebuild(gcl, "group" if isinstance(x, dict) else "mask", x) for k, x in v.items()}, "or")
    if t in ("pset", "graph"):
        kw = {}
        for c in COLS + ("adj",):
            if c in v and len(v[c]):
                a = np.array(v[c], dtype=NPT[machines.COL_KIND.get(c, "adj")])
                kw["edges" if c == "adj" else c] = a
        if t == "pset":
            return gcl.ParticleSet.from_numpy(**kw)
        return gcl.Graphicle.from_numpy(**kw)
    if t == "adj":
        return gcl.AdjacencyList(np.array(v, dtype="<i4").reshape(-1, 2))
    return getattr(gcl, LEAF_CLS[t])(v if len(v) else np.array(v, dtype=NPT[t]))


def arrays(o, label=""):
    """(what, array, type it must have) of everything stored in o."""
    n = type(o).__name__
    if n == "MaskGroup":
        for k in o:
            yield from arrays(o[k], f"{label}[{k!r}]")
    elif n == "ParticleSet":
        for c in COLS:
            yield from arrays(getattr(o, c), f"{label}.{c}")
    elif n == "Graphicle":
        yield from arrays(o.particles, label)
        yield from arrays(o.adj, label + ".adj")
    elif n == "AdjacencyList":
        yield label, raw(o), "<i4"
        if len(o.weights):
            yield label + ".weights", o.weights, "<f8"
    else:
        yield label, raw(o), next((NPT[t] for t, c in LEAF_CLS.items() if c == n), None)


def unsound(objs):
    """How restored objects fall short of ones which can be worked on."""
    for i, o in enumerate(objs):
        for what, a, t in arrays(o):
            if not isinstance(a, np.ndarray):
                return f"object {i}{what} is stored as {type(a).__name__}"
            if t is not None and a.size and a.dtype != np.dtype(t):
                return f"object {i}{what} is stored as {a.dtype}, expected {np.dtype(t)}"
            if a.size and not a.flags.writeable:
                return f"object {i}{what} can no longer be written to"
    return None


def draw_form(rng, serial):
    how = rng.choice(["pickle"] * 5 + ["deepcopy"] * 2 + (["json"] * 2 if serial else []))
    slow = rng.random() < 0.5
    # the interpreter's own Python pickler mishandles empty buffers in protocol 5
    return {"how": how, "protocol": rng.randint(0, 4 if slow else 5), "slow": slow, "oob": how == "pickle" and not slow and rng.random() < 0.3}


class Saves:
    """Mixed into a machine: its checkpoints, on disk and in memory."""
    SERIAL = True

    def begin(self, bag=None):
        self.disk = []  # durable: (form, blob, out-of-band buffers, kinds, state)
        self.kept = []  # in memory: (objects, state)
        self.ghosts = []  # what earlier states have become of
        self.bag = bag
        self.stats = {}

    def mismatch(self):
        bad = super().mismatch()
        if bad:
            return bad
        for k, g in enumerate(self.ghosts):
            bad = g.mismatch()
            if bad:
                return f"an object saved or restored earlier: {bad}"
        return None

    def _bump(self, k):
        self.stats[k] = self.stats.get(k, 0) + 1

    def do_save(self, rng, a):
        form = draw_form(rng, self.SERIAL)
        if form["how"] == "json" and not self.can_serialize():
            form["how"] = "pickle"
        objs, state = self.snap(rng, form)
        kinds = self.kinds(state)
        fail = rng.choice([0, 1, 2, 5, 20]) if self.init.get("faulty") and rng.random() < 0.25 else None
        box = {}

        def run():
            if form["how"] == "deepcopy":
                box["copy"] = pycopy.deepcopy(objs)
                return None
            f = File(fail=fail)
            box.clear()
            try:
                box["extra"] = dump(objs, form, f)
                box["blob"] = f.bytes()
            except DiskError:
                if f.failed is None:
                    raise
                box["lost"] = True
            return None

        def commit(_):
            if "copy" in box:
                self.kept = (self.kept + [(box["copy"], state)])[-3:]
                self._bump("saved_in_memory")
            elif "blob" in box:
                self.disk = (self.disk + [(form, box["blob"], box["extra"], kinds, state)])[-4:]
                self._bump("saved_" + form["how"])
            else:
                self._bump("fault_disk_write")
        return Step(run, None, commit, False, f"({form['how']}, {len(objs)} objects)")

    def do_load(self, rng, a):
        """Restore in the process which saved."""
        src = self.disk + self.kept
        if not src:
            return self.do_save(rng, a)
        e = rng.choice(src)
        fail = rng.choice([0, 1, 2, 5]) if self.init.get("faulty") and len(e) > 2 and rng.random() < 0.2 else None
        box = {}

        def run():
            if len(e) == 2:
                box["got"] = pycopy.deepcopy(e[0])
                return None
            f = File(e[1], fail)
            box.clear()
            try:
                box["got"] = load(self.gcl, e[0], f, e[2], e[3])
            except DiskError:
                if f.failed is None:
                    raise
            return None

        def commit(_):
            if "got" not in box:
                self._bump("fault_disk_read")
                return
            self._bump("restored_in_place")
            self.adopt(box["got"], pycopy.deepcopy(e[-1]), rng)
            box["bad"] = unsound(box["got"])
        st = Step(run, None, commit, False, "(restore)")
        st.after = lambda: box.get("bad")
        return st

    # shared objects, which everybody only reads
    def do_sread(self, rng, a):
        return self.bag.do_read(rng, a) if self.bag else None

    def do_ssave(self, rng, a):
        """Save and restore what the others are reading."""
        if not self.bag:
            return None
        k = rng.randrange(len(self.bag.slots))
        real, v = self.bag.slots[k]
        form = draw_form(rng, False)

        def run():
            if form["how"] == "deepcopy":
                return pycopy.deepcopy(real)
            f = File()
            extra = dump([real], form, f)
            return load(self.gcl, form, File(f.bytes()), extra, [v["t"]])[0]
        exp = squash(machines.want(v))
        self._bump("saved_shared")
        return Step(run, Pred(lambda got: None if machines.same(squash(got), exp, 0, 0) else f"gives {brief(got)}, expected {brief(exp)}", "what was saved"),
                    None, False, f"shared {v['t']} by {form['how']}")


class Slots(Saves):
    """Machines whose state is a list of [object, model]."""

    def can_serialize(self):
        return True

    def snap(self, rng, form):
        k = len(self.slots)
        ix = sorted(rng.sample(range(k), rng.randint(1, k)))
        models = pycopy.deepcopy([self.slots[i][1] for i in ix])
        if form["how"] == "json":
            models = [self.serialized(m) for m in models]
        return [self.slots[i][0] for i in ix], {"n": self.n, "m": models}

    def adopt(self, objs, state, rng=None):
        # what they replace is still watched
        old = type(self).revive(self.gcl, self.init, [s[0] for s in self.slots], {"n": self.n, "m": [s[1] for s in self.slots]})
        self.ghosts = (self.ghosts + [old])[-2:]
        fresh = [list(x) for x in zip(objs, state["m"])]
        if rng is None or rng.random() < 0.5:
            self.slots = fresh
        else:
            # side by side with the originals
            for real, m in fresh:
                self._put(real, m)

    @classmethod
    def revive(cls, gcl, init, objs, state):
        m = cls.__new__(cls)
        m.gcl, m.init, m.n = gcl, init, state["n"]
        m.faulty = False
        m.slots = [list(x) for x in zip(objs, state["m"])]
        m.begin()
        return m


class CopySaves(Slots, machines.Copies):
    def kinds(self, state):
        return [v["t"] for v in state["m"]]

    def serialized(self, v):
        """The model of what comes back from a serialised form."""
        if v["t"] == "group":
            return dict(v, agg="or", k={k: self.serialized(x) for k, x in v["k"].items()})
        if v["t"] == "adj":
            return dict(v, w=[])
        if v["t"] == "graph":
            return dict(v, a=self.serialized(v["a"]))
        return v


class GroupSaves(Slots, groups.Groups):
    def kinds(self, state):
        return ["group"] * len(state["m"])

    def serialized(self, n):
        n = groups.clone(n)  # members are no longer shared

        def walk(x):
            if x.group:
                x.agg = "or"
                for y in x.k.values():
                    walk(y)
        walk(n)
        return n


class EventSaves(Saves, machines.Mutation):
    SERIAL = False

    def can_serialize(self):
        return False

    def kinds(self, state):
        return ["graph"] + ["pmu"] * len(self.slots)

    def snap(self, rng, form):
        boxes = []
        for b in self.slots + [self.gbox]:
            if not any(b is x for x in boxes):
                boxes.append(b)
        at = [next(k for k, x in enumerate(boxes) if x is b) for b in self.slots]
        g = next(k for k, x in enumerate(boxes) if x is self.gbox)
        return ([self.g] + [b.real for b in boxes],
                {"ev": pycopy.deepcopy(self.ev), "ev0": pycopy.deepcopy(self.ev0), "vals": [b.val.copy() for b in boxes], "at": at, "g": g})

    def _take(self, objs, state):
        self.ev, self.ev0, self.g = state["ev"], state["ev0"], objs[0]
        boxes = [machines.Box(r, v) for r, v in zip(objs[1:], state["vals"])]
        self.slots = [boxes[k] for k in state["at"]]
        self.gbox = boxes[state["g"]]

    def adopt(self, objs, state, rng=None):
        old = type(self).__new__(type(self))
        old.gcl, old.init = self.gcl, self.init
        old.begin()
        old.ev, old.ev0, old.g, old.gbox = dict(self.ev), self.ev0, self.g, self.gbox
        old.slots = list(self.slots)
        self.ghosts = (self.ghosts + [old])[-2:]
        self._take(objs, state)

    @classmethod
    def revive(cls, gcl, init, objs, state):
        m = cls.__new__(cls)
        m.gcl, m.init = gcl, init
        m.begin()
        m._take(objs, state)
        return m


class Bag(machines.Copies):
    KINDS = ("pmu", "pmu", "pdg", "status", "adj", "adj", "group", "graph", "graph")
    NEW = 3
    MISSING = 0.0


KINDS = {"copies": CopySaves, "groups": GroupSaves, "events": EventSaves}
OPS_OF = {
    "copies": (machines.COPY_F, machines.COPY_W),
    "groups": (groups.GROUP_F, groups.GROUP_W),
    "events": (machines.MUT_F, machines.MUT_W),
}


def programs(rng, kind, n, second=False):
    f, w = OPS_OF[kind]
    f = list(f) + ["save", "load", "sread", "ssave"]
    t = sum(w)
    w = list(w) + ([t * 0.15, t * 0.15, 0, 0] if second else [t * 0.5, t * 0.3, t * 0.12, t * 0.08])
    return [{"f": rng.choices(f, w)[0], "r": rng.randrange(1 << 30)} for _ in range(n)]


def restore(gcl, cls, init, entry):
    """A machine brought back from a durable checkpoint, or a complaint."""
    form, blob, extra, kinds, state = entry
    objs = load(gcl, form, io.BytesIO(blob) if form["how"] != "json" else File(blob), extra, kinds)
    m = cls.revive(gcl, init, objs, state)
    return m, unsound(objs) or m.mismatch()
