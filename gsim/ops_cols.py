"""Columns of particle data as arrays of their rows: comparison, arithmetic,
numpy functions, iteration, conversion and printing, against numpy on plain
arrays."""
import operator
import re

import numpy as np

from . import core
from .ops import op, Pred, SKIP, brief, raw, ev_arrays

KIND = {"pmu": "f8", "pdg": "i4", "helicity": "i2", "status": "i2", "final": "?", "color": "i4", "edges": "i4"}
CLS = {"pmu": "MomentumArray", "pdg": "PdgArray", "helicity": "HelicityArray", "status": "StatusArray", "final": "MaskArray",
       "color": "ColorArray", "edges": "AdjacencyList"}
NAMES = {"pmu": ("x", "y", "z", "e"), "color": ("color", "anticolor"), "edges": ("src", "dst")}
WIDE = {"pmu": 4, "color": 2, "edges": 2}
ANY = ("ValueError", "TypeError", "IndexError", "KeyError", "UFuncTypeError", "_UFuncNoLoopError", "UFuncNoLoopError",
       "_UFuncInputCastingError", "ZeroDivisionError", "AttributeError", "AxisError", "NotImplementedError")


class Refused(Pred):
    """Any of the usual errors."""

    def __init__(self, what="a refusal"):
        super().__init__(self.judge, what)

    @staticmethod
    def judge(got):
        if isinstance(got, tuple) and got and got[0] == "exc" and got[1] in ANY:
            return None
        return f"accepted, giving {brief(got)}; it cannot be answered"


# ------------------------------------------------------------------ columns
def column(o, c):
    """The live column named by c: [kind, which]."""
    k, i = c
    if k == "pmu" and i < 0:
        return o.pmu[-i - 1]
    if k == "pdg" and i < 0:
        return o.codes[(-i - 1) % len(o.codes)]
    g = o.graph[i]
    return g.adj if k == "edges" else getattr(g, k)


def rows(w, c):
    """The rows it has, as a plain array of its own kind."""
    k, i = c
    if k == "pmu" and i < 0:
        return np.array(w["pmu"][-i - 1], "f8").reshape(-1, 4)
    if k == "pdg" and i < 0:
        return np.array(w["codes"][(-i - 1) % len(w["codes"])], "i4")
    return np.array(ev_arrays(w["ev"][i])[k], KIND[k])


def pick(rng, w, kinds=tuple(KIND)):
    k = rng.choice(kinds)
    if k == "pmu" and (rng.random() < 0.6 or not w["ev"]):
        return [k, -1 - rng.randrange(len(w["pmu"]))]
    if k == "pdg" and w.get("codes") and (rng.random() < 0.4 or not w["ev"]):
        return [k, -1 - rng.randrange(len(w["codes"]))]
    return [k, rng.randrange(len(w["ev"]))]


def box(kind, v):
    """What a plain result looks like when wrapped as a column of `kind`."""
    v = np.asarray(v)
    if v.dtype == bool:
        return ("mask", v.tolist())
    v = v.astype(KIND[kind])
    if kind in WIDE:
        v = v.reshape(-1, WIDE[kind])
    if kind == "pmu":
        return ("pmu", v)
    if kind == "final":
        return ("mask", v.tolist())
    if kind == "edges":
        return ("adj", v.tolist())
    return (CLS[kind], v.tolist())


def equal(want, got, exact=True):
    """None or a message.  Weights of results which are edges are not asked."""
    if isinstance(got, tuple) and got and got[0] == "adj":
        got = got[:2]
    if isinstance(want, tuple) and isinstance(got, tuple) and want[0] == got[0] == "pmu":
        a, b = want[1], got[1]
        ok = a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=0, equal_nan=True)
    elif isinstance(want, np.ndarray):
        ok = isinstance(got, tuple) and got[0] == "arr" and got[2].shape == want.shape and np.allclose(
            got[2].astype(float), want.astype(float), rtol=1e-9, atol=1e-9, equal_nan=True)
    elif isinstance(want, float):
        ok = isinstance(got, (int, float)) and np.isclose(got, want, rtol=1e-9, atol=1e-9, equal_nan=True)
    else:
        ok = type(want) is type(got) and want == got
    return None if ok else f"gives {brief(got)}, its rows give {brief(want)}"


# --------------------------------------------------------------- elementwise
BIN = {"add": operator.add, "sub": operator.sub, "mul": operator.mul, "max": np.maximum, "min": np.minimum}
BITS = {"and": operator.and_, "or": operator.or_, "xor": operator.xor}
CMP = {"eq": operator.eq, "ne": operator.ne, "lt": operator.lt, "le": operator.le, "gt": operator.gt, "ge": operator.ge}
UN = {"neg": operator.neg, "pos": operator.pos, "abs": abs}


def _other(rng, w, c, compared=False):
    """An operand which fits column c: [form, payload].  Operands which are
    only compared need not fit its type."""
    n = len(rows(w, c))
    k = c[0]
    forms = ["self", "copy", "scalar", "array", "list"]
    f = rng.choice(forms)
    num = (lambda: rng.choice([0.5, 2.0, -1.0, 3.0])) if k == "pmu" else (lambda: rng.randint(-3, 3))
    if k == "final":
        num = lambda: rng.random() < 0.5
    elif compared and k != "pmu" and rng.random() < 0.5:
        near = rows(w, c).reshape(-1).tolist() or [1]
        num = lambda: rng.choice(near) + rng.choice([0, 0, 0.5, -0.25, 65536, 1 << 32])
    if f == "scalar":
        return [f, num()]
    if f in ("array", "list"):
        if k in WIDE and rng.random() < 0.5:
            return [f, [[num()] for _ in range(n)]] if n else ["scalar", num()]
        shape = (n, WIDE[k]) if k in WIDE else (n,)
        v = np.array([num() for _ in range(int(np.prod(shape)))]).reshape(shape)
        return [f, v.tolist()] if n else ["scalar", num()]
    return [f, None]


def _d_elem(rng, w):
    c = pick(rng, w)
    k = c[0]
    if k == "final":
        kind, o = "bits", rng.choice(list(BITS))
        oth = _other(rng, w, c)
        if oth[0] in ("list", "scalar"):
            oth = ["self", None]
        return {"c": c, "k": kind, "o": o, "b": oth, "r": rng.random() < 0.3}
    r = rng.random()
    if r < 0.2:
        return {"c": c, "k": "un", "o": rng.choice(list(UN)), "b": None, "r": False}
    if r < 0.45:
        o = rng.choice(["lt", "le", "gt", "ge"] if k in WIDE else list(CMP))
        if k in WIDE:
            return {"c": c, "k": "cmp", "o": o, "b": _other(rng, w, c, True), "r": False}
        return {"c": c, "k": "cmp", "o": rng.choice(list(CMP)), "b": _other(rng, w, c, True), "r": rng.random() < 0.3}
    return {"c": c, "k": "bin", "o": rng.choice(list(BIN)), "b": _other(rng, w, c), "r": rng.random() < 0.3}


def _fn(a):
    return {"un": UN, "bin": BIN, "cmp": CMP, "bits": BITS}[a["k"]][a["o"]]


def _apart(r, *xs):
    """A result must not be a window on its operands."""
    with core.quiet():
        try:
            d = raw(r) if not isinstance(r, np.ndarray) else r
        except Exception:
            return r
        for x in xs:
            if isinstance(d, np.ndarray) and np.shares_memory(d, x if isinstance(x, np.ndarray) else raw(x)):
                return RuntimeError("the result shares the memory of an operand")
    return r


@op("col_elem", "cols", _d_elem)
class _:
    @staticmethod
    def run(o, a):
        x = column(o, a["c"])
        fn = _fn(a)
        if a["k"] == "un":
            return _apart(fn(x), x)
        form, v = a["b"]
        if form == "self":
            y = x
        elif form == "copy":
            y = x.copy()
        elif form == "array":
            y = o.inp(np.array(v), "an operand")
        else:
            y = v
        if a["r"] and form != "list":
            x, y = y, x
        elif a["r"]:
            return _apart(fn(v, x) if a["o"] in ("add", "sub", "max", "min") else fn(x, v), x)
        return _apart(fn(x, y), *[z for z in (x, y) if not isinstance(z, (int, float, bool, list))])

    @staticmethod
    def expect(w, a):
        k = a["c"][0]
        x = rows(w, a["c"])
        fn = _fn(a)
        with np.errstate(all="ignore"):
            if a["k"] == "un":
                return Pred(lambda got, v=fn(x): equal(box(k, v), got), "as its rows")
            form, v = a["b"]
            y = x if form in ("self", "copy") else np.array(v) if form in ("array", "list") else v
            if a["r"] and (form != "list" or a["o"] in ("add", "sub", "max", "min")):
                x, y = y, x
            v = fn(x, y)
        if np.asarray(v).dtype == bool and k in WIDE:
            return Pred(lambda got: table(v, got), "component by component")
        return Pred(lambda got: equal(box(k, v), got), "as its rows")


def table(v, got):
    """None if got is the plain array of truth values v."""
    ok = isinstance(got, tuple) and got[0] == "arr" and got[2].dtype == bool and got[2].shape == v.shape and np.array_equal(got[2], v)
    return None if ok else f"gives {brief(got)}, its rows give {brief(v.tolist())}"


# ----------------------------------------------------- more of numpy's functions
FUN = {
    "square": np.square, "sign": np.sign, "positive": np.positive, "fabs": np.fabs, "rint": np.rint, "floor": np.floor,
    "isfinite": np.isfinite, "isnan": np.isnan, "signbit": np.signbit, "lognot": np.logical_not, "modf": np.modf,
    "invert": np.invert, "mod": lambda x: np.mod(x, 7), "floordiv": lambda x: x // 3, "divmod": lambda x: divmod(x, 3),
    "power": lambda x: x ** 2, "clip": lambda x: np.clip(x, -5, 5), "cumsum": lambda x: np.add.accumulate(x),
    "maxacc": lambda x: np.maximum.accumulate(x), "cumsum0": lambda x: np.cumsum(x, axis=0), "shift": lambda x: x << 1, "truediv": lambda x: x / 2.0,
    "hypot": lambda x: np.hypot(x, 3.0), "logand": lambda x: np.logical_and(x, x), "copysign": lambda x: np.copysign(x, -1.0),
    "reduceat": lambda x: np.add.reduceat(x, [0]),
}
REAL = ("square", "sign", "positive", "fabs", "rint", "floor", "isfinite", "isnan", "signbit", "lognot", "modf", "clip", "cumsum", "maxacc", "cumsum0",
        "power", "truediv", "hypot", "logand", "copysign", "divmod", "mod", "reduceat", "floordiv")
WHOLE = ("square", "sign", "positive", "invert", "mod", "floordiv", "divmod", "power", "clip", "cumsum", "maxacc", "shift", "isfinite", "lognot",
         "logand", "reduceat")
BOOL = ("lognot", "invert", "logand")


def _d_func(rng, w):
    c = pick(rng, w)
    k = c[0]
    f = rng.choice(BOOL if k == "final" else REAL if k == "pmu" else WHOLE)
    if not len(rows(w, c)):
        f = "lognot"
    return {"c": c, "fun": f}


@op("col_func", "cols", _d_func)
class _:
    @staticmethod
    def run(o, a):
        x = column(o, a["c"])
        r = FUN[a["fun"]](x)
        for y in r if isinstance(r, tuple) else (r,):
            y = _apart(y, x)
            if isinstance(y, RuntimeError):
                return y
        return r

    @staticmethod
    def expect(w, a):
        k = a["c"][0]
        x = rows(w, a["c"])
        with np.errstate(all="ignore"):
            v = FUN[a["fun"]](x)
        if isinstance(v, tuple):
            def f(got):
                if not (isinstance(got, tuple) and got[0] == "tuple" and len(got[1]) == len(v)):
                    return f"gives {brief(got)}, not {len(v)} columns"
                return next((m for m in (equal(box(k, u), g) for u, g in zip(v, got[1])) if m), None)
            return Pred(f, "columns")
        if v.dtype == bool and k in WIDE:
            return Pred(lambda got: table(v, got), "component by component")
        return Pred(lambda got: equal(box(k, v), got), "as its rows")


# ------------------------------------------------------------------ equality
def _d_same(rng, w):
    c = pick(rng, w, ("pmu", "color", "edges", "pmu", "pdg", "status", "helicity"))
    n = len(rows(w, c))
    form = rng.choice(["own", "other", "array", "row", "one"] if c[0] in WIDE else ["own", "other", "array", "scalar", "one", "list", "fit", "kin"])
    if form == "kin" and c[1] < 0:
        form = "fit"
    return {"c": c, "form": form, "kin": rng.choice(["pdg", "status", "helicity"]), "w": [rng.choice([0, 0, 0, 0.5, -0.25, 65536, 1 << 32]) for _ in range(n)], "ne": rng.random() < 0.5, "at": sorted(rng.sample(range(n), rng.randint(0, n))) if n else [], "i": rng.randrange(1 << 20),
            "tup": rng.random() < 0.5}


@op("col_same", "cols", _d_same)
class _:
    @staticmethod
    def run(o, a):
        x = column(o, a["c"])
        k, form = a["c"][0], a["form"]
        if form == "own":
            y = x
        else:
            with core.quiet():
                v = np.array(raw(x))
                for i in a["at"]:
                    v[i] = v[i] + 1
                n = len(v)
                if form in ("row", "scalar", "one"):
                    v = v[a["i"] % n] if n else np.zeros(v.shape[1:], v.dtype)
                if form in ("list", "fit"):
                    y = [e + d for e, d in zip(v.tolist(), a["w"])]
                    y = y if form == "list" else np.array(y)
                elif form == "kin":
                    y = column(o, [a["kin"], a["c"][1]])
                elif form == "other" or form == "one":
                    y = type(x)(v[None] if form == "one" else v)
                elif form == "array":
                    y = np.ascontiguousarray(v).view(x.data.dtype).reshape(-1) if k in WIDE else v
                elif form == "row":
                    y = tuple(v.tolist()) if a["tup"] else v.tolist()
                else:
                    y = v.item()
        if form in ("array", "other", "fit"):
            o.inp(y, "an operand")
        return (x != y) if a["ne"] else (x == y)

    @staticmethod
    def expect(w, a):
        x = rows(w, a["c"])
        k, form = a["c"][0], a["form"]
        n = len(x)
        y = x.copy()
        for i in a["at"]:
            y[i] = y[i] + 1
        if form == "own":
            y = x
        elif form in ("list", "fit"):
            y = np.array([e + d for e, d in zip(y.tolist(), a["w"])])
        elif form == "kin":
            y = rows(w, [a["kin"], a["c"][1]])
        elif form in ("row", "scalar", "one"):
            y = y[a["i"] % n] if n else np.zeros(x.shape[1:], x.dtype)
        eq = np.broadcast_to(np.asarray(x == y), x.shape)
        eq = eq.all(axis=1) if k in WIDE else eq
        want = ("mask", (~eq if a["ne"] else eq).tolist())
        return Pred(lambda got: equal(want, got), "row by row")


# ---------------------------------------------------------------- reductions
RED = {"sum": np.sum, "max": np.max, "min": np.min, "any": np.any, "all": np.all, "prod": np.prod}


def _d_red(rng, w):
    c = pick(rng, w)
    n = len(rows(w, c))
    k = c[0]
    fn = rng.choice(["any", "all", "sum"] if k == "final" else ["sum", "max", "min", "sum"] if n else ["sum"])
    how = rng.choice(["np", "np", "ufunc"])
    # over all rows of pairs, only momenta mean something
    one = [0, -2, [0]] if k == "pmu" else []
    ax = rng.choice([None, 1, -1, [1], [-1], [0, 1], [-1, -2]] + one * 2) if k in WIDE else rng.choice([None, 0, -1, [0]])
    return {"c": c, "fn": fn, "ax": ax, "how": how, "keep": rng.random() < 0.2}


def _axis(a):
    ax = tuple(a["ax"]) if isinstance(a["ax"], list) else a["ax"]
    return dict(axis=ax, **({"keepdims": True} if a.get("keep") else {}))


UF = {"sum": np.add, "max": np.maximum, "min": np.minimum, "any": np.logical_or, "all": np.logical_and}


@op("col_reduce", "cols", _d_red)
class _:
    @staticmethod
    def run(o, a):
        x = column(o, a["c"])
        if a["how"] == "np":
            return RED[a["fn"]](x, **_axis(a))
        return UF[a["fn"]].reduce(x, **_axis(a))

    @staticmethod
    def expect(w, a):
        x = rows(w, a["c"])
        k = a["c"][0]
        with np.errstate(all="ignore"):
            v = RED[a["fn"]](x, **_axis(a)) if a["how"] == "np" else UF[a["fn"]].reduce(x, **_axis(a))
        v = np.asarray(v)
        tol = 1e-12 * float(np.abs(x.astype(float)).sum())
        if not v.shape:
            return Pred(lambda got: None if isinstance(got, (bool, int, float)) and abs(float(got) - float(v)) <= tol + 1e-300
                        else f"gives {brief(got)}, its rows give {v.item()}", "a number")
        # what is left of rows which were collapsed over their components
        if k in WIDE and a["ax"] not in (0, -2, [0]):
            return Pred(lambda got: None if isinstance(got, tuple) and got[0] == "arr" and got[2].shape == v.shape
                        and np.all(np.abs(got[2].astype(float) - v) <= tol + 1e-300) else f"gives {brief(got)}, its rows give {brief(v.tolist())}", "an array")

        def f(got):
            if k != "pmu":
                return equal(box(k, v), got)
            ok = isinstance(got, tuple) and got[0] == "pmu" and got[1].shape == (1, 4) and np.all(np.abs(got[1][0] - v) <= tol + 1e-300)
            return None if ok else f"gives {brief(got)}, its rows give {brief(v.tolist())}"
        return Pred(f, "one row")


# --------------------------------------------- reading, conversion, printing
def _d_read(rng, w):
    c = pick(rng, w)
    return {"c": c, "how": rng.choice(["iter", "array", "asarray", "concat", "where", "in", "index", "count", "len", "repr", "str", "reversed", "isin",
                                       "serialize", "fields", "dtype", "unique"]), "i": rng.randrange(1 << 20)}


def _py(k, r):
    """One row as iteration gives it."""
    return tuple(r.tolist()) if k in WIDE else r.item()


@op("col_read", "cols", _d_read)
class _:
    @staticmethod
    def run(o, a):
        x = column(o, a["c"])
        k, how = a["c"][0], a["how"]
        if how in ("iter", "serialize"):
            v = list(x) if how == "iter" else x.serialize()
            return [how == "iter" or type(v).__name__, [tuple(r) for r in v] if k in WIDE else list(v), [type(r).__name__ for r in v][:1]]
        if how in ("array", "asarray"):
            return (np.array if how == "array" else np.asarray)(x)
        if how == "concat":
            return np.concatenate([np.asarray(x), np.asarray(x)]) if k in WIDE else np.concatenate([x, x])
        if how == "where":
            return np.where(np.arange(len(x)) % 2 == 0, x, 0) if k not in WIDE else len(x)
        if how in ("in", "index", "count"):
            with core.quiet():
                v = np.asarray(raw(x))
                r = _py(k, v[a["i"] % len(v)]) if len(v) else None
            if r is None:
                return "empty"
            if k in ("final", "edges") and how != "in":
                return "no such method" if k == "edges" else list(x).count(r)
            if how == "in":
                return r in list(x) if k == "edges" else r in x
            return x.index(r) if how == "index" else x.count(r)
        if how == "len":
            return [len(x), bool(x)]
        if how in ("repr", "str"):
            return repr(x) if how == "repr" else str(x)
        if how == "reversed":
            return list(reversed(list(x))) if k in ("edges",) else [np.asarray(r).reshape(-1).tolist() for r in reversed(x)]
        if how == "isin":
            return np.isin(np.asarray(x), [0, 1, 2])
        if how == "fields":
            if k not in WIDE:
                return np.asarray(x.data)
            return [np.asarray(x.data[f]) for f in NAMES[k]]
        if how == "dtype":
            return [str(np.asarray(x).dtype), list(x.data.dtype.names or ())]
        return np.unique(np.asarray(x))

    @staticmethod
    def expect(w, a):
        k, how = a["c"][0], a["how"]
        v = rows(w, a["c"])
        n = len(v)
        if how in ("iter", "serialize"):
            want = [_py(k, r) for r in v]
            name = {"pmu": "MomentumElement", "color": "ColorElement", "edges": "VertexPair", "final": "bool"}.get(k, "int")

            def f(got):
                if not (isinstance(got, tuple) and got[0] == "list"):
                    return f"gives {brief(got)}"
                kind, items, types = got[1]
                if how == "serialize" and kind != "tuple":
                    return f"gives a {kind}"
                rs = [tuple(r[1]) if isinstance(r, tuple) else r for r in items[1]]
                if rs != want:
                    return f"gives {brief(rs)}, its rows are {brief(want)}"
                if how == "iter" and n and types[1] != [name]:
                    return f"gives elements of type {types[1]}, not {name}"
                return None
            return Pred(f, "its rows")
        if how in ("array", "asarray", "concat", "where", "isin", "unique"):
            u = v
            if how == "concat":
                u = np.concatenate([v, v])
            elif how == "where":
                if k in WIDE:
                    return n
                u = np.where(np.arange(n) % 2 == 0, v, 0)
            elif how == "isin":
                u = np.isin(v, [0, 1, 2])
            elif how == "unique":
                u = np.unique(v)
            return Pred(lambda got: None if isinstance(got, tuple) and got[0] == "arr" and got[2].shape == u.shape and np.array_equal(got[2], u)
                        else f"gives {brief(got)}, its rows give {brief(u.tolist())}", "its rows")
        if how in ("in", "index", "count"):
            if not n:
                return "empty"
            r = _py(k, v[a["i"] % n])
            al = [_py(k, q) for q in v]
            if k == "edges" and how != "in":
                return "no such method"
            if how == "in":
                return True
            if k == "final":
                return al.count(r)
            return al.index(r) if how == "index" else al.count(r)
        if how == "len":
            return ("list", [n, n > 0])
        if how in ("repr", "str"):
            def g(got):
                if not isinstance(got, str) or CLS[k] not in got:
                    return f"prints {brief(got)}"
                body = got.split("dtype=")[0]
                if k == "final":
                    nums = [t == "True" for t in re.findall(r"True|False", body)]
                    return None if nums == v.tolist() else f"prints {brief(got)} for {brief(v.tolist())}"
                nums = [float(t) for t in re.findall(r"[-+]?(?:\d+\.?\d*(?:e[-+]?\d+)?|nan|inf)", body[len(CLS[k]):])]
                flat = v.astype(float).reshape(-1)
                if len(nums) != len(flat):
                    return f"prints {brief(got)} for {brief(v.tolist())}"
                top = float(np.abs(flat).max()) if len(flat) else 0.0
                bad = [abs(p - q) > (1e-6 * top + 1e-6 if k == "pmu" else 0) for p, q in zip(nums, flat)]
                return f"prints {brief(got)} for {brief(v.tolist())}" if any(bad) else None
            return Pred(g, "the text of its rows") if v.size < 900 else SKIP
        if how == "reversed":
            want = [np.asarray(r).reshape(-1).tolist() for r in v[::-1]]

            def h(got):
                if not (isinstance(got, tuple) and got[0] == "list"):
                    return f"gives {brief(got)}"
                rs = [list(r[1]) for r in got[1]]
                return None if rs == want else f"gives {brief(rs)}, reversed rows are {brief(want)}"
            return Pred(h, "its rows reversed")
        if how == "fields":
            if k not in WIDE:
                return Pred(lambda got: equal(v, got), "its rows")
            return Pred(lambda got: None if isinstance(got, tuple) and got[0] == "list" and all(
                np.array_equal(q[2], v[:, i]) for i, q in enumerate(got[1])) else f"gives {brief(got)}", "its columns")
        if how == "dtype":
            return ("list", [str(v.dtype), ("list", list(NAMES.get(k, ())))])
        return SKIP


# ------------------------------------------------------- operands which do not fit
BAD = ["longer", "shorter", "none", "set", "dict", "narrow row", "wide row", "number", "plain wide"]


def _d_bad(rng, w):
    c = pick(rng, w)
    k = c[0]
    ops = ["and", "or"] if k == "final" else ["add", "sub", "mul"]
    if k in WIDE:
        why = rng.choice(["longer", "none", "set", "narrow row", "wide row", "number"])
        o = "eq" if why in ("narrow row", "wide row", "number") else rng.choice(ops)
    elif k == "final":
        why = rng.choice(["longer", "list", "none"])
        o = rng.choice(ops + ["eq", "ne"])
    else:
        why = rng.choice(["longer", "none", "set", "dict"])
        o = rng.choice(ops)
    return {"c": c, "why": why, "o": o, "r": rng.random() < 0.3 and k != "final"}


@op("col_bad", "cols", _d_bad)
class _:
    @staticmethod
    def run(o, a):
        x = column(o, a["c"])
        k, why = a["c"][0], a["why"]
        with core.quiet():
            v = np.array(raw(x))
            n = len(v)
            if why == "longer":
                y = type(x)(np.concatenate([v, v[:1], v[:1]])) if n >= 2 else None
            else:
                y = {"none": None, "set": {1}, "dict": {"a": 1}, "list": v.tolist(), "number": 5, "narrow row": [1], "wide row": [1] * 5}.get(why)
        fn = {**BIN, **BITS, **CMP}[a["o"]]
        if n < 2:
            y = None
            fn = operator.and_ if k == "final" else operator.add
        return fn(y, x) if a["r"] and y is not None else fn(x, y)

    @staticmethod
    def expect(w, a):
        return Refused()


