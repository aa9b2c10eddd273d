"""Operations a simulated client can perform: how to draw one, how to run it
against graphicle, and what the reference model says it must return.

An operation is a JSON-able dict {"f": name, ...args}.  `p`, `q` index the
world's momentum arrays, `g` its events, `k` its mask groups."""
import math
import zlib

import numpy as np

from . import core, gen, model as M

OPS = {}


class Exc:
    """Expected exception (any of the named types)."""

    def __init__(self, *names):
        self.names = names

    def __repr__(self):
        return f"Exc{self.names}"


class _Skip:
    def __repr__(self):
        return "SKIP"


SKIP = _Skip()  # the model cannot settle this input (a rounding tie)


class Pred:
    """Expected result described by a predicate returning None or a message."""

    def __init__(self, fn, what):
        self.fn, self.what = fn, what

    def __repr__(self):
        return f"Pred({self.what})"


def call(fn, a, *args, **named):
    """Call with named=(value, documented default) given by place, by name, or
    by name without those which are at their default: it must not matter."""
    how = zlib.crc32(repr(sorted(a.items(), key=lambda x: x[0])).encode()) % 3
    if how == 0:
        return fn(*args, *(v for v, _ in named.values()))
    return fn(*args, **{k: v for k, (v, d) in named.items() if how == 1 or type(v) is not type(d) or v != d})


def n_odd(a):
    """A settled coin for this operation."""
    return zlib.crc32(repr(sorted(a.items(), key=lambda x: x[0])).encode()) & 1


class Op:
    def __init__(self, name, fam, draw, run, expect):
        self.name, self.fam, self.draw, self.run, self.expect = name, fam, draw, run, expect


def op(name, fam, draw):
    def deco(cls):
        expect = getattr(cls, "expect", None)
        if fam == "mom" and expect is not None:
            # momenta for which the answer has no agreed value still have bytes, settings, later answers
            def expect(w, a, _f=expect):
                return SKIP if a.get("untidy") else _f(w, a)
        OPS[name] = Op(name, fam, draw, cls.run, expect)
        return cls
    return deco


# --------------------------------------------------------------------- world
def make_world(rng, npmu=3, nev=1, special=0.1, hi=12, small=True, nord=2, big=0.0):
    """Plain description of the shared objects."""
    w = {"pmu": [], "ev": [], "tidy": []}
    long = rng.randrange(npmu) if npmu and rng.random() < big else -1
    for i in range(npmu):
        tidy = i < nord
        n = gen.size(rng, 2 if tidy else 1, hi) if i != long else rng.randint(33, 140) if rng.random() < 0.8 else rng.choice(gen.LONG)
        w["pmu"].append(gen.ordinary(rng, n) if tidy else gen.momenta(rng, n, special))
        w["tidy"].append(tidy)
    for _ in range(nev):
        w["ev"].append(gen.event(rng, small))
    return w


def raw(o):
    """The array behind a structure, through its public data if need be."""
    d = getattr(o, "_data", None)
    if isinstance(d, np.ndarray):
        return d
    d = np.asarray(o.data)
    if d.dtype.names:
        from numpy.lib import recfunctions as rfn
        d = rfn.structured_to_unstructured(d)
    return d


class Objs:
    """Live graphicle objects built from a world."""

    def __init__(self, gcl, world):
        self.gcl = gcl
        self.world = world
        self.src = []
        self.pmu = []
        for rows in world["pmu"]:
            arr = np.array(rows, dtype="<f8").reshape(-1, 4)
            self.src.append(arr)
            self.pmu.append(gcl.MomentumArray(arr))
        self.graph = [build_graph(gcl, e) for e in world["ev"]]
        self.codes = [gcl.PdgArray(c) for c in world.get("codes", [])]
        self.given = []  # (what, array, image) of arguments made by the caller
        self.args = []  # (what, argument, canonical form)

    def inp(self, x, what="an argument"):
        """Note an argument whose bytes a query must leave alone."""
        for a in _arrays_in(x):
            self.given.append((what, a, a.tobytes(), a.shape))
        if not isinstance(x, np.ndarray):
            with core.quiet():
                self.args.append((what, x, canon(self.gcl, x)))
        return x


def _arrays_in(x):
    if isinstance(x, np.ndarray):
        return [x]
    if isinstance(x, (list, tuple)):
        return [a for v in x for a in _arrays_in(v)]
    if isinstance(x, dict):
        return [a for v in x.values() for a in _arrays_in(v)]
    d = getattr(x, "_mask_arrays", None)
    if isinstance(d, dict):
        return _arrays_in(d)
    d = getattr(x, "_data", None)
    return [d] if isinstance(d, np.ndarray) else []


def ev_arrays(ev):
    return {
        "pdg": np.array(ev["pdg"], dtype="<i4"),
        "pmu": np.array(ev["pmu"], dtype="<f8").reshape(-1, 4),
        "color": np.array(ev["color"], dtype="<i4").reshape(-1, 2),
        "helicity": np.array(ev["helicity"], dtype="<i2"),
        "status": np.array(ev["status"], dtype="<i2"),
        "final": np.array(ev["final"], dtype=bool),
        "edges": np.array(ev["edges"], dtype="<i4").reshape(-1, 2),
    }


def build_graph(gcl, ev):
    kw = ev_arrays(ev)
    if ev["weights"]:
        kw["weights"] = np.array(ev["weights"], dtype="<f8")
    return gcl.Graphicle.from_numpy(**kw)


def build_tree(gcl, tree, agg="or"):
    """MaskGroup from nested [(key, mask | nested)]."""
    import collections
    d = collections.OrderedDict()
    for k, v in tree:
        d[k] = build_tree(gcl, v, agg) if M.is_group(v) else gcl.MaskArray(list(v))
    return gcl.MaskGroup(d, agg)


# --------------------------------------------------------------- canonical form
def canon(gcl, r):
    """Plain, comparable form of whatever an operation returned."""
    try:
        return _canon(gcl, r)
    except Exception as e:  # an object that cannot even be read
        return ("unreadable", type(r).__name__, type(e).__name__)


def _canon(gcl, r):
    if isinstance(r, BaseException):
        return ("exc", type(r).__name__)
    if isinstance(r, gcl.MaskGroup):
        return ("group", r.agg_op.value, [(k, canon(gcl, r[k])) for k in r])
    if isinstance(r, gcl.MaskArray):
        return ("mask", np.asarray(raw(r)).tolist())
    if isinstance(r, gcl.MomentumArray):
        return ("pmu", np.array(raw(r), dtype=np.float64))
    if isinstance(r, gcl.AdjacencyList):
        return ("adj", raw(r).tolist(), r.weights.tolist())
    if isinstance(r, (gcl.PdgArray, gcl.StatusArray, gcl.HelicityArray, gcl.ColorArray)):
        return (type(r).__name__, raw(r).tolist())
    if isinstance(r, gcl.ParticleSet):
        return ("pset", {n: canon(gcl, getattr(r, n)) for n in ("pdg", "pmu", "color", "helicity", "status", "final")})
    if isinstance(r, gcl.Graphicle):
        return ("graph", canon(gcl, r.particles), canon(gcl, r.adj))
    if isinstance(r, np.ndarray):
        if r.dtype.names:
            return ("rec", list(r.dtype.names), [list(map(_item, row)) for row in r.reshape(-1).tolist()])
        if r.dtype.kind in "OUS":
            return ("obj", [_item(v) for v in r.tolist()])
        return ("arr", r.dtype.kind, np.array(r))
    if isinstance(r, np.generic):
        return canon(gcl, r.item())
    if isinstance(r, tuple):
        return ("tuple", [canon(gcl, v) for v in r])
    if isinstance(r, list):
        return ("list", [canon(gcl, v) for v in r])
    if isinstance(r, dict):
        return ("dict", {str(k): canon(gcl, v) for k, v in r.items()})
    if isinstance(r, (set, frozenset)):
        return ("set", sorted(r))
    if hasattr(r, "todense"):
        return ("sparse", np.asarray(r.todense()))
    if r is None or isinstance(r, (bool, int, float, str)):
        return r
    return ("other", type(r).__name__)


def _item(v):
    if isinstance(v, bytes):
        return v.decode()
    return v


def same(a, b, rtol=1e-9, atol=1e-12):
    """Whether two canonical values agree (floats to tolerance)."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "biu" and b.dtype.kind in "biu":
            return bool(np.array_equal(a, b))
        with np.errstate(all="ignore"):
            return bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
    if isinstance(a, float) and isinstance(b, float):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return a == b or abs(a - b) <= atol + rtol * abs(b)
    if type(a) is not type(b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
            return same(float(a), float(b), rtol, atol)
        return False
    if isinstance(a, (tuple, list)):
        return len(a) == len(b) and all(same(x, y, rtol, atol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k], rtol, atol) for k in a)
    return a == b


def identical(a, b):
    """Whether two canonical values agree bit for bit (any NaN equals any)."""
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if not (isinstance(a, np.ndarray) and isinstance(b, np.ndarray)) or a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.tobytes() == b.tobytes():
            return True
        if a.dtype.kind != "f":
            return False
        n = np.isnan(a)
        return bool(np.array_equal(n, np.isnan(b))) and a[~n].tobytes() == b[~n].tobytes()
    if isinstance(a, (tuple, list)):
        return type(a) is type(b) and len(a) == len(b) and all(identical(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return isinstance(b, dict) and list(a) == list(b) and all(identical(a[k], b[k]) for k in a)
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return type(a) is type(b) and a == b


def coherent(gcl, r, depth=0):
    """Whether new momenta carry the derived quantities of their own data."""
    if isinstance(r, (list, tuple)) and depth < 2:
        for x in r[:4]:
            m = coherent(gcl, x, depth + 1)
            if m:
                return m
        return None
    if isinstance(r, gcl.ParticleSet):
        r = r.pmu
    elif isinstance(r, gcl.Graphicle):
        r = r.particles.pmu
    if not isinstance(r, gcl.MomentumArray):
        return None
    rows = np.array(raw(r), dtype=float)
    if rows.ndim != 2 or not len(rows) or not np.all(np.isfinite(rows)):
        return None
    fast = bool(np.all(rows[:, 3] > np.sqrt((rows[:, :3] ** 2).sum(axis=1)) * (1 + 1e-7)))
    for name, f in (("pt", M.pt), ("eta", M.eta), ("theta", M.theta), ("mass", M.mass), ("mass_t", M.mass_t), ("rapidity", M.rapidity)):
        if name == "rapidity" and not fast:
            continue
        try:
            got = canon(gcl, getattr(r, name))
        except Exception as e:  # noqa: BLE001
            got = canon(gcl, e)
        m = check(got, f(rows.tolist()))
        if m:
            return f"has a {name} which is not that of its data: {m}"
    return None


def _num(got):
    """Numeric array out of a canonical value, or None."""
    if isinstance(got, tuple) and got and got[0] == "arr":
        return got[2]
    if isinstance(got, tuple) and got and got[0] == "pmu":
        return got[1]
    if isinstance(got, tuple) and got and got[0] in ("tuple", "list"):
        try:
            return np.array([float(v) for v in got[1]])
        except Exception:
            return None
    if isinstance(got, (int, float)) and not isinstance(got, bool):
        return np.float64(got)
    return None


def check(got, exp):
    """None if the canonical result got satisfies exp, else a message."""
    if exp is SKIP or exp is None:
        return None
    if isinstance(exp, Pred):
        return exp.fn(got)
    if isinstance(exp, Exc):
        if isinstance(got, tuple) and got[0] == "exc" and got[1] in exp.names:
            return None
        return f"expected {exp}, got {brief(got)}"
    if isinstance(got, tuple) and got and got[0] == "exc":
        return f"raised {got[1]}, expected {brief(exp)}"
    if isinstance(exp, M.Approx):
        a = _num(got)
        if a is None:
            return f"expected numbers, got {brief(got)}"
        a = np.asarray(a, dtype=np.float64)
        if a.shape != exp.val.shape:
            return f"shape {a.shape}, expected {exp.val.shape}"
        with np.errstate(all="ignore"):
            ok = (a == exp.val) | (np.isnan(a) & np.isnan(exp.val)) | (np.abs(a - exp.val) <= exp.tol)
        if np.all(ok):
            return None
        i = tuple(int(v[0]) for v in np.nonzero(~np.atleast_1d(ok))) if a.shape else ()
        return f"element {i}: got {a[i] if a.shape else float(a)!r}, expected {exp.val[i] if a.shape else float(exp.val)!r}"
    return None if same(got, exp) else f"got {brief(got)}, expected {brief(exp)}"


def brief(v, n=300):
    s = repr(v).replace("\n", " ")
    return s if len(s) <= n else s[:n] + "..."


# canonical constructors for expected values
def mask(bits):
    return ("mask", [bool(b) for b in bits])


def group(tree, agg="or"):
    return ("group", agg, [(k, group(v, agg) if M.is_group(v) else mask(v)) for k, v in tree])


def arr(kind, v):
    return ("arr", kind, np.asarray(v))


# =================================================================== drawing
def _anyp(rng, w):
    return {"p": rng.randrange(len(w["pmu"]))}


def _tidy(rng, w):
    idx = [i for i, t in enumerate(w["tidy"]) if t]
    if rng.random() < 0.1:
        rest = [i for i, r in enumerate(w["pmu"]) if not w["tidy"][i] and len(r) > 1]
        if rest:
            return {"p": rng.choice(rest), "untidy": True}
    return {"p": idx[rng.randrange(len(idx))]}


def _threads(rng):
    return rng.choice([1, 1, 1, 2, 3, 4, 8])


def _bits(rng, n, p=0.5):
    return [rng.random() < p for _ in range(n)]


# ------------------------------------------------------------- momenta: columns
def _simple(name, get, exp, fam="mom", draw=_anyp):
    class C:
        @staticmethod
        def run(o, a):
            return get(o.pmu[a["p"]])

        @staticmethod
        def expect(w, a):
            return exp(w["pmu"][a["p"]])
    op(name, fam, draw)(C)


def _cp(pmu, f):
    rows = np.asarray(pmu, float).reshape(-1, 4)
    return f(rows)


_simple("x", lambda p: p.x, lambda r: M.Approx(M.comp(r, "x"), 0))
_simple("y", lambda p: p.y, lambda r: M.Approx(M.comp(r, "y"), 0))
_simple("z", lambda p: p.z, lambda r: M.Approx(M.comp(r, "z"), 0))
_simple("energy", lambda p: p.energy, lambda r: M.Approx(M.comp(r, "e"), 0))
_simple("pt", lambda p: p.pt, M.pt)
_simple("eta", lambda p: p.eta, M.eta)
_simple("rapidity", lambda p: p.rapidity, M.rapidity)
_simple("phi", lambda p: p.phi, M.phi)
_simple("theta", lambda p: p.theta, M.theta)
_simple("mass", lambda p: p.mass, M.mass)
_simple("mass_t", lambda p: p.mass_t, M.mass_t)
_simple("pmu_len", lambda p: len(p), lambda r: len(r))
_simple("pmu_bool", lambda p: bool(p), lambda r: len(r) > 0)
_simple("pmu_iter", lambda p: [tuple(m) for m in p],
        lambda r: ("list", [("tuple", [float(v) for v in m]) for m in r]))
_simple("pmu_ser", lambda p: [tuple(m) for m in p.serialize()],
        lambda r: ("list", [("tuple", [float(v) for v in m]) for m in r]))
_simple("pmu_sum", lambda p: np.sum(p, axis=0), lambda r: M.Approx(M.total(r)[None], 1e-11 * np.abs(np.array(r)).sum() + 1e-12))
_simple("pmu_copy", lambda p: p.copy(), lambda r: M.Approx(np.array(r).reshape(-1, 4), 0))
_simple("c_parameter", lambda p: M and _gc(p).calculate.c_parameter(p), M.c_parameter, draw=_tidy)


def _gc(_=None):
    import graphicle
    return graphicle


def _d_dr(rng, w):
    d = _anyp(rng, w)
    d["q"] = d["p"] if rng.random() < 0.4 else rng.randrange(len(w["pmu"]))
    d["pseudo"] = rng.random() < 0.5
    d["threads"] = _threads(rng)
    return d


def _exp_dr(w, a):
    """Distances.  A rapidity gap is counted as zero where it is undefined
    (both along the same beam direction)."""
    return M.delta_r(w["pmu"][a["p"]], w["pmu"][a["q"]], a["pseudo"])


@op("delta_R", "mom", _d_dr)
class _:
    @staticmethod
    def run(o, a):
        return call(o.pmu[a["p"]].delta_R, a, o.pmu[a["q"]], pseudo=(a["pseudo"], True), threads=(a["threads"], 1))
    expect = staticmethod(_exp_dr)


def _d_win(rng, w):
    """Two windows of the same momenta, which may overlap."""
    d = _anyp(rng, w)
    n = len(w["pmu"][d["p"]])
    k = rng.randint(min(1, n), n)
    d["a"] = [rng.randint(0, n - k) for _ in range(2)]
    d["k"] = [k, k if rng.random() < 0.7 else rng.randint(0, k)]
    d["pseudo"], d["threads"] = rng.random() < 0.7, _threads(rng)
    d["how"] = rng.choice(["each other", "each other", "all"])
    return d


def _win(x, a, i):
    return x[a["a"][i]: a["a"][i] + a["k"][i]]


@op("windows", "mom", _d_win)
class _:
    @staticmethod
    def run(o, a):
        pmu = o.pmu[a["p"]]
        p, q = _win(pmu, a, 0), pmu if a["how"] == "all" else _win(pmu, a, 1)
        return call(p.delta_R, a, q, pseudo=(a["pseudo"], True), threads=(a["threads"], 1))

    @staticmethod
    def expect(w, a):
        rows = w["pmu"][a["p"]]
        p, q = _win(rows, a, 0), rows if a["how"] == "all" else _win(rows, a, 1)
        return M.delta_r(p, q, a["pseudo"])


@op("delta_R_aff", "mom", _anyp)
class _:
    @staticmethod
    def run(o, a):
        return o.gcl.matrix.delta_R_aff(o.pmu[a["p"]])

    @staticmethod
    def expect(w, a):
        r = w["pmu"][a["p"]]
        return M.delta_r(r, r, True)


def _d_shift(rng, w):
    d = _anyp(rng, w)
    n = len(w["pmu"][d["p"]])
    d["s"] = gen.r6(rng.uniform(-3, 3)) if rng.random() < 0.6 else [gen.r6(rng.uniform(-3, 3)) for _ in range(n)]
    return d


def _sh(s):
    return np.array(s) if isinstance(s, list) else s


@op("shift_rapidity", "mom", _d_shift)
class _:
    @staticmethod
    def run(o, a):
        return o.pmu[a["p"]].shift_rapidity(o.inp(_sh(a["s"]), "the shift"))

    @staticmethod
    def expect(w, a):
        return _shift(M.shift_rapidity, w["pmu"][a["p"]], a["s"])


def _shift(fn, rows, s):
    if not isinstance(s, list):
        return fn(rows, s)
    parts = [fn([r], v) for r, v in zip(rows, s)]
    return M.Approx(np.concatenate([p.val for p in parts]), np.concatenate([p.tol for p in parts]))


@op("shift_phi", "mom", _d_shift)
class _:
    @staticmethod
    def run(o, a):
        return o.pmu[a["p"]].shift_phi(o.inp(_sh(a["s"]), "the shift"))

    @staticmethod
    def expect(w, a):
        return _shift(M.shift_phi, w["pmu"][a["p"]], a["s"])


def _d_shift_tidy(rng, w):
    d = _tidy(rng, w)
    d["s"] = gen.r6(rng.uniform(-2, 2))
    d["tol"], d["max"] = rng.choice([1e-10, 1e-10, 1e-12, 1e-3]), rng.choice([10, 10, 20])
    return d


@op("shift_eta_exp", "mom", _d_shift_tidy)
class _:
    @staticmethod
    def run(o, a):
        return o.pmu[a["p"]].shift_eta(a["s"], experimental=True)

    @staticmethod
    def expect(w, a):
        return M.shift_eta_experimental(w["pmu"][a["p"]], a["s"])


@op("shift_eta", "mom", _d_shift_tidy)
class _:
    @staticmethod
    def run(o, a):
        return call(o.pmu[a["p"]].shift_eta, a, a["s"], experimental=(False, False), max_corrections=(a["max"], 10), abs_tol=(a["tol"], 1e-10))

    @staticmethod
    def expect(w, a):
        rows = w["pmu"][a["p"]]
        t = M.resultant(rows, True)
        goal = float(t.val[0]) + a["s"]
        tot = M.total(rows)
        # only inputs for which the iteration is certain to converge
        if math.hypot(tot[0], tot[1]) < 1.0 or abs(float(t.val[0])) > 3.0:
            return SKIP

        def fn(got):
            if not (isinstance(got, tuple) and got[0] == "pmu" and got[1].shape == (len(rows), 4)):
                return f"expected momenta, got {brief(got)}"
            out = got[1]
            src = np.asarray(rows, float)
            if np.any(np.abs(out[:, :2] - src[:, :2]) > 1e-9 * (1 + np.abs(src[:, :2]))):
                return "a boost along the beam changed transverse components"
            m0, m1 = M.mass_t(rows), M.mass_t(out)
            if np.any(np.abs(m0.val - m1.val) > 10 * (m0.tol + m1.tol) + 1e-6 * (1 + np.abs(m0.val))):
                return "a boost along the beam changed transverse masses"
            y0, y1 = M._rap(rows).astype(float), M._rap(out).astype(float)
            gap = y1 - y0
            if np.ptp(gap) > 1e-6 + 2 * float(np.max(M._rap_tol(out) + M._rap_tol(rows))):
                return "momenta were boosted by different amounts"
            now = float(M.resultant(out, True).val[0])
            if abs(now - goal) > a["tol"] + 1e-9:
                return f"resultant pseudorapidity {now}, wanted {goal}"
            return None
        return Pred(fn, f"boosted to resultant pseudorapidity {goal}")


def _d_ps(rng, w):
    d = _tidy(rng, w)
    d["pseudo"] = rng.random() < 0.5
    return d


@op("resultant_coords", "mom", _d_ps)
class _:
    @staticmethod
    def run(o, a):
        return call(o.gcl.calculate.resultant_coords, a, o.pmu[a["p"]], pseudo=(a["pseudo"], True))

    @staticmethod
    def expect(w, a):
        return M.resultant(w["pmu"][a["p"]], a["pseudo"])


@op("weighted_centroid", "mom", _d_ps)
class _:
    @staticmethod
    def run(o, a):
        return call(o.gcl.calculate.weighted_centroid, a, o.pmu[a["p"]], pseudo=(a["pseudo"], True))

    @staticmethod
    def expect(w, a):
        rows = w["pmu"][a["p"]]
        e = M.weighted_centroid(rows, a["pseudo"])
        if abs(abs(float(e.val[1])) - math.pi) < 1e-7:
            return SKIP
        return e


def _d_cm(rng, w):
    d = _anyp(rng, w)
    n = len(w["pmu"][d["p"]])
    u = rng.random()
    d["w"] = None if u < 0.4 else [gen.r6(rng.uniform(0, 2)) for _ in range(n)]
    d["as"] = rng.choice(["obj", "rec"])
    return d


@op("combined_mass", "mom", _d_cm)
class _:
    @staticmethod
    def run(o, a):
        p = o.pmu[a["p"]]
        wt = None if a["w"] is None else o.inp(np.array(a["w"]).reshape(-1, 1), "the weight")
        return call(o.gcl.calculate.combined_mass, dict(a, w=0), p if a["as"] == "obj" else p.data, **({} if wt is None else {"weight": (wt, None)}))

    @staticmethod
    def expect(w, a):
        return M.combined_mass(w["pmu"][a["p"]], a["w"])


def _d_agg(rng, w):
    d = _anyp(rng, w)
    n = len(w["pmu"][d["p"]])
    d["m"] = [_bits(rng, n, rng.choice([0.2, 0.5, 0.9])) for _ in range(rng.randint(1, 4))]
    d["as"] = rng.choice(["mask", "np"])
    return d


@op("aggregate_momenta", "mom", _d_agg)
class _:
    @staticmethod
    def run(o, a):
        ms = [o.gcl.MaskArray(m) if a["as"] == "mask" else np.array(m, bool) for m in a["m"]]
        return o.gcl.calculate.aggregate_momenta(o.pmu[a["p"]], o.inp(ms, "a cluster mask"))

    @staticmethod
    def expect(w, a):
        return M.aggregate(w["pmu"][a["p"]], a["m"])


def _d_cc(rng, w):
    d = _anyp(rng, w)
    d["r"] = gen.r6(rng.uniform(0.3, 3.0))
    d["pseudo"] = rng.random() < 0.7
    d["threads"] = _threads(rng)
    return d


@op("cluster_coeff", "mom", _d_cc)
class _:
    @staticmethod
    def run(o, a):
        return call(o.gcl.calculate.cluster_coeff_distbn, a, o.pmu[a["p"]], a["r"], pseudo=(a["pseudo"], True), threads=(a["threads"], 1))

    @staticmethod
    def expect(w, a):
        rows = w["pmu"][a["p"]]
        if M._near(rows, rows, a["r"], a["pseudo"]):
            return SKIP
        return M.cluster_coeffs(rows, a["r"], a["pseudo"])


def _d_seed(rng, w):
    d = _tidy(rng, w)
    d["seed"] = rng.randrange(1000)
    d["axis"] = rng.random() < 0.7
    return d


def _shape(fn, at, sign):
    class C:
        @staticmethod
        def run(o, a):
            return call(getattr(o.gcl.calculate, fn), a, o.pmu[a["p"]], return_axis=(a["axis"], False), rng_seed=(a["seed"], None))

        @staticmethod
        def expect(w, a):
            rows = w["pmu"][a["p"]]

            def f(got):
                m = shape_mismatch(rows, at, sign, a["axis"], got)
                return m or _improves(rows, at, sign, a["seed"], got[1][0] if a["axis"] else got)
            return Pred(f, f"{fn} of the returned axis, no worse than the seeded guess")
    op(fn, "mom", _d_seed)(C)


def shape_mismatch(rows, at, sign, axis, got):
    """Whether an event shape is a value the momenta attain on its axis."""
    if not axis:
        if not isinstance(got, float):
            return f"expected a float, got {brief(got)}"
        return None if -1e-9 <= got <= 1 + 1e-9 or sign < 0 and -1e-9 <= got <= 16 / math.pi**2 + 1e-9 else f"value {got} is not one any axis gives"
    if not (isinstance(got, tuple) and got[0] == "tuple" and len(got[1]) == 2):
        return f"expected value and axis, got {brief(got)}"
    val, ax = got[1]
    ax = _num(ax)
    if ax is None or ax.shape != (3,) or abs(float(ax @ ax) - 1) > 1e-9:
        return f"axis is not a unit vector: {brief(got)}"
    want = at(rows, ax)
    if not abs(val - want) <= 1e-7 * (1 + abs(want)):
        return f"value {val} but the returned axis gives {want}"
    return None


def _improves(rows, at, sign, seed, val):
    """The result must not be worse than the documented seeded start."""
    h = 0.5 * math.pi
    g = np.random.Generator(np.random.PCG64(seed)).uniform(-h, h, size=2)
    ax = [math.sin(g[1]) * math.cos(g[0]), math.sin(g[1]) * math.sin(g[0]), math.cos(g[1])]
    start = at(rows, ax)
    if sign * (val - start) < -1e-9:
        return f"value {val} is worse than the initial guess {start}"
    return None


_shape("thrust", M.thrust_at, 1)
_shape("spherocity", M.spherocity_at, -1)


def _d_jac(rng, w):
    n = rng.randint(1, 12) if rng.random() < 0.85 else rng.choice([40, 90, 130, 300])
    wt = None if rng.random() < 0.5 else [gen.r6(rng.uniform(0.1, 5)) for _ in range(n)]
    d = {"m": [_bits(rng, n), _bits(rng, n)], "w": wt, "as": rng.choice(["mask", "np"])}
    if wt and rng.random() < 0.1:
        wt[rng.randrange(n)] = float("nan")
        d["untidy"] = True
    elif wt and rng.random() < 0.1:
        wt[rng.randrange(n)] = 0.0
    return d


@op("jaccard", "mom", _d_jac)
class _:
    @staticmethod
    def run(o, a):
        m = [o.gcl.MaskArray(x) if a["as"] == "mask" else np.array(x, bool) for x in a["m"]]
        return o.gcl.calculate.jaccard_distance(*o.inp(m, "a mask"), **({} if a["w"] is None else {"weights": o.inp(np.array(a["w"]), "the weights")}))

    @staticmethod
    def expect(w, a):
        wt = a["w"] or [1.0] * len(a["m"][0])
        u = sum(k for k, x, y in zip(wt, *a["m"]) if x or y)
        d = sum(k for k, x, y in zip(wt, *a["m"]) if x != y)
        return M.Approx(d / u if u else 0.0, 1e-12)


def _d_prune(rng, w):
    d = _tidy(rng, w)
    n = len(w["pmu"][d["p"]])
    d["r"] = gen.r6(rng.uniform(0.3, 3.0))
    d["m"] = None if rng.random() < 0.5 else _bits(rng, n, 0.7)
    if d["m"] is not None and not any(d["m"]):
        d["m"][0] = True
    d["c"] = None if rng.random() < 0.4 else [gen.r6(rng.uniform(-2, 2)), gen.r6(rng.uniform(-3, 3))]
    return d


@op("centroid_prune", "mom", _d_prune)
class _:
    @staticmethod
    def run(o, a):
        return o.gcl.select.centroid_prune(
            o.pmu[a["p"]], a["r"], None if a["m"] is None else o.inp(o.gcl.MaskArray(a["m"]), "the mask"),
            None if a["c"] is None else tuple(a["c"]))

    @staticmethod
    def expect(w, a):
        rows = w["pmu"][a["p"]]
        out, amb = M.centroid_prune(rows, a["r"], a["m"], a["c"])
        return SKIP if amb else mask(out)


def _d_phd(rng, w):
    d = _tidy(rng, w)
    d["q"] = rng.randrange(len(w["pmu"]))
    d["e"] = rng.choice([-0.1, 0.0, -1.0, 0.5])
    return d


@op("parton_hadron_distance", "mom", _d_phd)
class _:
    @staticmethod
    def run(o, a):
        return call(o.gcl.matrix.parton_hadron_distance, a, o.pmu[a["p"]], o.pmu[a["q"]], pt_exp=(a["e"], -0.1))

    @staticmethod
    def expect(w, a):
        p, q = w["pmu"][a["p"]], w["pmu"][a["q"]]
        d = M.delta_r(p, q, True)
        k = (np.hypot(*np.array(p)[:, :2].T) ** a["e"])[:, None]
        with np.errstate(all="ignore"):
            return M.Approx(k * d.val, k * d.tol + 1e-10)


def _d_slice(rng, w):
    d = _anyp(rng, w)
    n = len(w["pmu"][d["p"]])
    d["k"] = draw_key(rng, n)
    return d


def draw_key(rng, n):
    u = rng.random()
    if u < 0.35:
        return ["mask", _bits(rng, n)]
    if u < 0.45:
        return ["np", _bits(rng, n)]
    if u < 0.65:
        a, b = sorted((rng.randint(-n - 1, n + 1), rng.randint(-n - 1, n + 1)))
        return ["slice", a, b, rng.choice([None, None, 2, 1])]
    if u < 0.75:
        return ["slice", None, None, -1]
    if u < 0.85:
        bits = [_bits(rng, n, 0.7) for _ in range(2)]
        return ["grp", bits, rng.choice(["and", "or"])]
    return ["idx", [rng.randint(-n, n - 1) for _ in range(rng.randint(0, n + 2))]]


def live_key(gcl, k):
    t = k[0]
    if t == "mask":
        return gcl.MaskArray(k[1])
    if t == "np":
        return np.array(k[1], bool)
    if t == "slice":
        return slice(*k[1:])
    if t == "grp":
        return gcl.MaskGroup({str(i): gcl.MaskArray(b) for i, b in enumerate(k[1])}, k[2])
    return np.array(k[1], dtype=int)


def key_rows(k, n):
    """Row numbers a key selects, in order."""
    t = k[0]
    if t in ("mask", "np"):
        return [i for i in range(n) if k[1][i]]
    if t == "slice":
        return list(range(n))[slice(*k[1:])]
    if t == "grp":
        f = any if k[2] == "or" else all
        return [i for i in range(n) if f(b[i] for b in k[1])]
    return [i % n for i in k[1]]


@op("pmu_getitem", "mom", _d_slice)
class _:
    @staticmethod
    def run(o, a):
        return o.pmu[a["p"]][o.inp(live_key(o.gcl, a["k"]), "the key")]

    @staticmethod
    def expect(w, a):
        r = w["pmu"][a["p"]]
        return M.Approx(np.array([r[i] for i in key_rows(a["k"], len(r))]).reshape(-1, 4), 0)


@op("pmu_getitem_eta", "mom", _d_slice)
class _:
    """A derived quantity of a selection, not of the whole."""
    @staticmethod
    def run(o, a):
        s = o.pmu[a["p"]][o.inp(live_key(o.gcl, a["k"]), "the key")]
        return [s.eta, s.mass, s.rapidity]

    @staticmethod
    def expect(w, a):
        r = w["pmu"][a["p"]]
        rows = [r[i] for i in key_rows(a["k"], len(r))]
        return multi(M.eta(rows), M.mass(rows), M.rapidity(rows))


def multi(*exps):
    def f(got):
        if not (isinstance(got, tuple) and got[0] in ("list", "tuple") and len(got[1]) == len(exps)):
            return f"expected {len(exps)} values, got {brief(got)}"
        for i, (g, e) in enumerate(zip(got[1], exps)):
            m = check(g, e)
            if m:
                return f"part {i}: {m}"
        return None
    return Pred(f, "several parts")


def _d_arith(rng, w):
    d = _anyp(rng, w)
    d["o"] = rng.choice(["add", "sub", "mul", "neg", "eq", "ne"])
    d["s"] = gen.r6(rng.uniform(-2, 2))
    return d


@op("pmu_arith", "mom", _d_arith)
class _:
    @staticmethod
    def run(o, a):
        p = o.pmu[a["p"]]
        k = a["o"]
        if k == "add":
            return p + p
        if k == "sub":
            return p - p
        if k == "mul":
            return p * a["s"]
        if k == "neg":
            return -p
        other = p.copy()
        if len(p):
            other.data["x"][0] += 1.0
        return (p == other) if k == "eq" else (p != other)

    @staticmethod
    def expect(w, a):
        r = np.array(w["pmu"][a["p"]], float).reshape(-1, 4)
        k = a["o"]
        if k in ("eq", "ne"):
            b = [i > 0 for i in range(len(r))]
            return mask(b if k == "eq" else [not v for v in b])
        v = {"add": r + r, "sub": r - r, "mul": r * a["s"], "neg": -r}[k]
        return M.Approx(v, 1e-13 * np.abs(r))


def _d_split(rng, w):
    d = _tidy(rng, w)
    d["z"] = gen.r6(rng.uniform(0.05, 0.5))
    d["ang"] = gen.r6(rng.uniform(-1.5, 1.5))
    d["ax"] = [gen.r6(rng.uniform(0.1, 3.0)), gen.r6(rng.uniform(-3, 3))]
    if rng.random() < 0.4 and len(w["pmu"][d["p"]]) > 1:
        d["ax"] = None  # the axis of the soft-hard plane
    return d


def _plane(r):
    """Unit normal of the plane of the softest and hardest, or None."""
    pt = np.hypot(r[:, 0], r[:, 1])
    o = np.sort(pt)
    if len(pt) < 2 or o[1] - o[0] < 1e-9 or o[-1] - o[-2] < 1e-9:
        return None
    k = np.cross(r[int(np.argmin(pt)), :3], r[int(np.argmax(pt)), :3])
    n = math.sqrt(float(k @ k))
    if n < 1e-6 * math.sqrt(float((r[:, :3] ** 2).sum())):
        return None
    return k / n


def _turn(k, ang, v):
    c, s = math.cos(ang), math.sin(ang)
    return v * c + np.cross(k, v) * s + k * (k @ v) * (1 - c)


def _unit(th, ph):
    return np.array([math.sin(th) * math.cos(ph), math.sin(th) * math.sin(ph), math.cos(th)])


@op("split_hardest", "mom", _d_split)
class _:
    @staticmethod
    def run(o, a):
        return o.gcl.transform.split_hardest(o.pmu[a["p"]], a["z"], a["ang"], *([] if a["ax"] is None else [tuple(a["ax"])]))

    @staticmethod
    def expect(w, a):
        r = np.array(w["pmu"][a["p"]], float)
        pt = np.hypot(r[:, 0], r[:, 1])
        h = int(np.argmax(pt))
        if len(pt) > 1 and np.sort(pt)[-1] - np.sort(pt)[-2] < 1e-9:
            return SKIP
        k = _plane(r) if a["ax"] is None else _unit(*a["ax"])
        if k is None:
            return SKIP
        one = np.append(_turn(k, a["ang"], r[h, :3] * a["z"]), r[h, 3] * a["z"])
        out = np.vstack([np.delete(r, h, 0), one, r[h] - one])
        return M.Approx(out, 1e-10 * (1 + np.abs(r[h]).max()))


@op("split_momentum", "mom", _d_split)
class _:
    @staticmethod
    def run(o, a):
        p = o.pmu[a["p"]]
        return o.gcl.transform.split_momentum(p[:1], a["z"], a["ang"], o.gcl.transform.SphericalAngle(*(a["ax"] or [0.5, -1.0])))

    @staticmethod
    def expect(w, a):
        r = np.array(w["pmu"][a["p"]][0], float)
        one = np.append(_turn(_unit(*(a["ax"] or [0.5, -1.0])), a["ang"], r[:3] * a["z"]), r[3] * a["z"])
        return M.Approx(np.vstack([one, r - one]), 1e-10 * (1 + np.abs(r).max()))


@op("soft_hard_axis", "mom", _tidy)
class _:
    @staticmethod
    def run(o, a):
        ang = o.gcl.transform.soft_hard_axis(o.pmu[a["p"]])
        return (float(ang.theta), float(ang.phi))

    @staticmethod
    def expect(w, a):
        k = _plane(np.array(w["pmu"][a["p"]], float))
        if k is None:
            return SKIP

        def f(got):
            v = _num(got)
            if v is None or v.shape != (2,):
                return f"expected two angles, got {brief(got)}"
            have = _unit(*v)
            return None if np.abs(have - k).max() < 1e-9 else f"axis {have.tolist()}, the normal of the plane is {k.tolist()}"
        return Pred(f, "normal of the soft-hard plane")


@op("rotation", "mom", _d_split)
class _:
    @staticmethod
    def run(o, a):
        t = o.gcl.transform
        return t.rotation_matrix(a["ang"], t.SphericalAngle(*(a["ax"] or [1.0, 2.0])))

    @staticmethod
    def expect(w, a):
        k = _unit(*(a["ax"] or [1.0, 2.0]))
        return M.Approx(np.array([_turn(k, a["ang"], e) for e in np.eye(3)]).T, 1e-12)


def _d_graph(rng, w):
    d = _tidy(rng, w)
    n = len(w["pmu"][d["p"]])
    d["how"] = rng.choice(["cut", "knn", "fc"]) if n > 1 else rng.choice(["cut", "fc"])
    d["loop"], d["weighted"] = rng.random() < 0.5, rng.random() < 0.5
    d["cut"] = gen.r6(rng.uniform(0.3, 4.0))
    d["mode"] = rng.choice(["max", "min"])
    d["k"] = rng.randint(1, max(1, n - (0 if d["loop"] else 1)))
    d["turn"] = rng.random() < 0.3
    d["dtype"] = rng.choice([None, None, "<f4", "<f8"]) if d["weighted"] or d["how"] == "fc" else None
    return d


@op("distance_graph", "mom", _d_graph)
class _:
    @staticmethod
    def run(o, a):
        mx = o.gcl.matrix
        kw = {"dtype": a["dtype"]} if a["dtype"] else {}
        if a["how"] == "fc":
            adj = mx.fc_adj(len(o.pmu[a["p"]]), **({"self_loop": a["loop"]} if a["loop"] or n_odd(a) else {}), **kw)
            return adj.astype(float) if adj.dtype == np.dtype(a["dtype"] or "?") else f"type {adj.dtype}"
        with core.quiet():
            m = np.array(M.delta_r(o.world["pmu"][a["p"]], o.world["pmu"][a["p"]], True).val)
        o.inp(m, "the distance matrix")
        if a["how"] == "cut":
            return call(mx.cut_adj, a, m, a["cut"], mode=(a["mode"], "max"), self_loop=(a["loop"], False), weighted=(a["weighted"], False)).astype(float)
        kw.update((k, a[j]) for k, j in (("self_loop", "loop"), ("weighted", "weighted")) if a[j] or n_odd(a))
        adj = mx.knn_adj(m, a["k"], **kw)
        if adj.dtype != np.dtype(a["dtype"] or ("f8" if a["weighted"] else "?")):
            return f"type {adj.dtype}"
        if a["turn"]:
            back = mx.knn_adj(m, a["k"], row=False, **kw)
            if not np.array_equal(back.T, adj):
                return "edges along the columns are not those along the rows, turned"
        return adj.astype(float)

    @staticmethod
    def expect(w, a):
        rows = w["pmu"][a["p"]]
        n = len(rows)
        if a["how"] == "fc":
            return M.Approx(np.ones((n, n)) - (0 if a["loop"] else np.eye(n)), 0.0)
        m = np.array(M.delta_r(rows, rows, True).val)
        if not np.all(np.isfinite(m)):
            return SKIP
        if a["how"] == "cut":
            off = m < a["cut"] if a["mode"] == "max" else m > a["cut"]
            adj = np.where(off, m if a["weighted"] else 1.0, 0.0)
            np.fill_diagonal(adj, 1.0 if a["loop"] else 0.0)
            return M.Approx(adj, 1e-12)
        for i in range(n):
            o_ = np.sort(np.delete(m[i], i))
            if len(o_) and (np.min(np.diff(o_), initial=1.0) < 1e-9 or o_[0] < 1e-9):
                return SKIP
        adj = np.zeros((n, n))
        for i in range(n):
            # nearest first is the particle itself
            near = np.argsort(m[i], kind="stable")[: a["k"] + (0 if a["loop"] else 1)]
            adj[i, near] = m[i, near] if a["weighted"] else 1.0
        if not a["loop"]:
            np.fill_diagonal(adj, 0.0)

        def f(got):
            v = _num(got)
            if v is None or v.shape != adj.shape:
                return f"expected a matrix, got {brief(got)}"
            tol = 1e-12 if a["dtype"] != "<f4" else 1e-5
            if np.abs(v - adj).max() < tol:
                return None
            return f"neighbours {brief(v.tolist())}, expected {brief(adj.tolist())}"
        return Pred(f, "nearest neighbours")


# ------------------------------------------------------------------- ordering
def families(*fams):
    return [n for n, o in OPS.items() if o.fam in fams]


def draw(rng, world, names, weights=None):
    n = names[rng.randrange(len(names))] if weights is None else rng.choices(names, weights)[0]
    d = OPS[n].draw(rng, world)
    d["f"] = n
    return d


def run(objs, a):
    return OPS[a["f"]].run(objs, a)


def expect(world, a):
    o = OPS[a["f"]]
    return o.expect(world, a) if o.expect else None
