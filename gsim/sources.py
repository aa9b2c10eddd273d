"""Sources of records: arrays in every layout callers meet, and stand-ins for
the event objects of the generator libraries, whose reads can be slow or fail."""
import types

import numpy as np

from . import core

COLS = ("pdg", "pmu", "color", "helicity", "status", "final", "edges", "weights")
BASE = {"pdg": "i4", "pmu": "f8", "color": "i4", "helicity": "i2", "status": "i2", "final": "?", "edges": "i4", "weights": "f8"}
WIDE = {"pmu": 4, "color": 2, "edges": 2}
NAMES = {
    "pmu": [("x", "px"), ("y", "py"), ("z", "pz"), ("e", "pe", "E")],
    "color": [("color",), ("anticolor",)],
    "edges": [("src", "in"), ("dst", "out")],
}
CLS = {"pdg": "PdgArray", "pmu": "MomentumArray", "color": "ColorArray", "helicity": "HelicityArray", "status": "StatusArray",
       "final": "MaskArray", "edges": "AdjacencyList"}
FLAT_FORMS = ["plain", "big", "wide", "float", "strided", "reversed", "column", "list", "tuple", "readonly", "object", "own", "field", "proto"]
WIDE_FORMS = ["plain", "big", "wide", "float", "strided", "reversed", "fortran", "cols", "list", "tuples", "readonly", "object", "own",
              "struct", "struct", "struct", "struct big", "struct mixed", "struct aligned", "struct strided", "struct readonly", "proto"]
BAD_FORMS = ["too wide", "too narrow", "text", "ragged", "names", "nested", "record", "complexity"]


def draw_values(rng, c, n):
    if c == "pmu":
        return [[round(rng.uniform(-500, 500), rng.randint(0, 6)) for _ in range(3)] + [round(rng.uniform(500, 2000), 4)] for _ in range(n)]
    if c == "pdg":
        return [rng.choice([1, -1, 5, -5, 6, 21, 11, -12, 24, 211, 2212, 1000022, 1000020040, -2000013]) for _ in range(n)]
    if c == "color":
        return [[rng.choice([0, 501, 502, 70001]), rng.choice([0, 503, 504, 100001])] for _ in range(n)]
    if c == "helicity":
        return [rng.choice([-1, 0, 1, 9, -9]) for _ in range(n)]
    if c == "status":
        return [rng.choice([-1, 1, -2, 2, 3, -9, -12, 0, 4, -21, -22, 23, 62, 91, 201, -3]) for _ in range(n)]
    if c == "final":
        return [rng.random() < 0.5 for _ in range(n)]
    if c == "edges":
        return [[-rng.randint(1, 4000), rng.choice([-1, 1]) * rng.randint(1, 70000)] for _ in range(n)]
    return [round(rng.uniform(0.0, 10.0), 5) for _ in range(n)]


def draw_form(rng, c):
    if c in WIDE:
        f = {"form": rng.choice(WIDE_FORMS)}
        if f["form"].startswith("struct"):
            order = list(range(WIDE[c]))
            rng.shuffle(order)
            f["order"] = order
            f["names"] = [rng.choice(x) for x in NAMES[c]]
        return f
    return {"form": rng.choice([x for x in FLAT_FORMS if not (c == "weights" and x == "own")])}


def _t(c, big=False, kind=None):
    t = kind or BASE[c]
    return np.dtype(t if t == "?" else (">" if big else "<") + t)


class Proto:
    """Something which is not an array but can be turned into one."""

    def __init__(self, a):
        self.a = a

    def __array__(self, dtype=None, copy=None):
        return np.array(self.a, dtype=dtype)


def lay(gcl, c, values, f):
    """values of column c in the layout f."""
    form = f["form"]
    w = WIDE.get(c)
    base = np.array(values, dtype=_t(c))
    base = base.reshape(-1, w) if w else base.reshape(-1)
    if form == "plain":
        return base
    if form == "big":
        return base.astype(_t(c, True))
    if form == "wide":
        return base.astype({"?": "i8", "f8": "f8"}.get(BASE[c], "i8"))
    if form == "float":
        return base.astype("f8")
    if form == "strided":
        big = np.empty((len(base) * 3,) + base.shape[1:], base.dtype)
        big.view("u1").fill(7)
        big[1::3] = base
        return big[1::3]
    if form == "reversed":
        return base[::-1].copy()[::-1]
    if form == "fortran":
        return np.asfortranarray(base)
    if form == "cols":
        big = np.zeros((len(base), w * 2), base.dtype)
        big[:, ::2] = base
        return big[:, ::2]
    if form == "column":
        return base.reshape(-1, 1)
    if form == "list":
        return base.tolist()
    if form == "tuple":
        return tuple(base.tolist())
    if form == "tuples":
        return [tuple(r) for r in base.tolist()]
    if form == "readonly":
        base.flags.writeable = False
        return base
    if form == "object":
        out = np.empty(base.shape, dtype=object)
        out[...] = base.tolist() if base.size else out
        return out
    if form == "own":
        return getattr(gcl, CLS[c])(base)
    if form == "proto":
        return Proto(base)
    if form == "field":
        rec = np.zeros(len(base), dtype=[("junk", "i4"), ("v", _t(c)), ("more", "f8")])
        rec["v"] = base
        return rec["v"]
    if form.startswith("struct"):
        kinds = [BASE[c]] * w
        if form == "struct mixed":
            kinds = (["f8", "f8", "f8", "f8"] if c == "pmu" else ["i8", "i4"])[:w]
        dt = [(f["names"][i], _t(c, form == "struct big", kinds[i])) for i in f["order"]]
        if form == "struct mixed":
            dt = [(nm, t.newbyteorder(">") if k % 2 else t) for k, (nm, t) in enumerate(dt)]
        if form == "struct aligned":
            dt = np.dtype({"names": [d[0] for d in dt], "formats": [d[1] for d in dt],
                           "offsets": [k * 16 + 3 for k in range(w)], "itemsize": 16 * w + 5})
        rec = np.zeros(len(base), dtype=dt)
        for i in range(w):
            rec[f["names"][i]] = base[:, i]
        if form == "struct strided":
            rec = np.repeat(rec, 2)[::2]
        if form == "struct readonly":
            rec.flags.writeable = False
        return rec
    raise KeyError(form)


def lay_bad(c, n, form):
    """Something that is no column c of n rows, and what refusing it looks like."""
    w = WIDE.get(c, 1)
    t = BASE[c]
    if form == "too wide":
        return np.ones((max(n, 1), w + 1), t)
    if form == "too narrow":
        return np.ones((max(n, 1), w - 1), t) if w > 2 else np.ones((max(n, 1), w + 2), t)
    if form == "text":
        return [["a"] * w] * max(n, 1) if w > 1 else ["a"] * max(n, 1)
    if form == "ragged":
        return [[1] * w, [1] * (w + 1)]
    if form == "names":
        if w == 1:
            return ["x"] * max(n, 1)
        return np.zeros(max(n, 1), dtype=[(k, t) for k in (("x", "y", "z", "t") if w == 4 else ("src", "target"))]) if c != "color" else [["x", "y"]]
    if form == "nested":
        return np.ones((2, 3, 5), t)
    if form == "record":
        return {"a": 1}
    return [object()] * max(n, 1)


class SourceError(Exception):
    """A failure of the reader's own."""


ERRORS = {"OSError": OSError, "EOFError": EOFError, "RuntimeError": RuntimeError, "KeyError": KeyError, "ValueError": ValueError,
          "MemoryError": MemoryError, "KeyboardInterrupt": KeyboardInterrupt, "SourceError": SourceError, "IndexError": IndexError,
          "TypeError": TypeError, "StopIteration": StopIteration, "GeneratorExit": GeneratorExit, "TimeoutError": TimeoutError}


def pause():
    """A slow read: anybody else may run meanwhile."""
    c = core._CLIENTS.get(core._get_ident())
    if c is not None and not c.mask:
        c.ev += 1
        s = c.sim
        s.steps += 1
        if s.crash and s.crash[0] == c.idx and s.crash[1] == c.op and c.ev >= s.crash[2]:
            s.die()
        s.point(c)


class Reader:
    """Common part of the event stand-ins: one read of one attribute."""

    def __init__(self, cols, fresh):
        self._cols, self._fresh = cols, fresh
        self._plan = None  # [(attribute, error)] for the reading under way
        self.reads = []

    def _read(self, name):
        pause()
        for k, (at, err) in enumerate(self._plan or ()):
            if at == name:
                del self._plan[k]
                raise err
        pause()
        v = self._cols[name]
        if self._fresh and isinstance(v, np.ndarray):
            v = v.copy(order="K")
        return v


def event(cols, kind, fresh, extra=True):
    """An event object having exactly the given columns as attributes."""
    body = {}
    for c in cols:
        if c == "final" and kind == "masks":
            continue
        body[c] = property(lambda self, c=c: self._read(c))
    if kind == "masks" and "final" in cols:
        def masks(self):
            v = self._read("final")
            return {"other": [False], "final": v} if extra else types.MappingProxyType({"final": v})
        body["masks"] = property(masks)
    # masks of the user's own, which say nothing about a record that has flags
    decoy = {"final": np.array([True, True, False]), "jet": np.array([False, True, True])}
    if extra:
        body["name"] = "event"
        if "final" in cols and kind != "masks":
            body["masks"] = property(lambda self: decoy)
        body["weights"] = body.get("weights", property(lambda self: 1.0))
    if kind == "dynamic":
        names = [c for c in cols]

        def dyn(self, name):
            if name in names:
                return self._read(name)
            if name == "masks" and extra and "final" in names:
                return decoy
            raise AttributeError(name)
        return type("Event", (Reader,), {"__getattr__": dyn})(cols, fresh)
    if kind == "slots":
        return type("Event", (Reader,), dict(body, __slots__=("_cols", "_fresh", "_plan", "reads")))(cols, fresh)
    return type("Event", (Reader,), body)(cols, fresh)
