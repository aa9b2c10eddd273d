"""Particle-code lookups."""
import numpy as np

from . import gen, model as M
from .ops import op, Exc, Pred, SKIP, check, brief
from .ops_graph import PDG_COLS, pdg_expect

ALL = sorted(PDG_COLS) + ["mass_bounds", "width_bounds"]
_DUP = {}


def codes(rng, n=None, unknown=0.0):
    t = sorted(M.pdg_table())
    common = [1, -1, 2, 5, -5, 6, -6, 11, -12, 13, 21, 22, 23, 24, -24, 25, 111, 211, -211, 2212, 321, 3122]
    n = (rng.choice([0, 1, 1, 2, 5, 12]) if rng.random() < 0.985 else rng.choice(gen.LONG)) if n is None else n
    out = [rng.choice(t) if rng.random() < 0.4 else rng.choice(common) for _ in range(n)]
    if out and rng.random() < 0.3:
        out[rng.randrange(len(out))] = out[0]
    if out and rng.random() < unknown:
        out[rng.randrange(len(out))] = rng.choice([99, 987654, -21, 0, 31415926])
    return out


def known(cs):
    t = M.pdg_table()
    return all(c in t for c in cs)


def unique_name(c):
    if not _DUP:
        for v in M.pdg_table().values():
            _DUP[v["name"]] = _DUP.get(v["name"], 0) + 1
    return _DUP[M.pdg_table()[c]["name"]] == 1


def _pd(rng, w):
    return {"k": rng.randrange(len(w["codes"])), "c": rng.choice(ALL + ["name"] * 3)}


def _exp(w, a):
    cs = w["codes"][a["k"]]
    if not known(cs):
        return Exc("KeyError")
    if not cs:
        return SKIP
    return pdg_expect(cs, a["c"])


@op("lookup", "pdg", _pd)
class _:
    @staticmethod
    def run(o, a):
        return getattr(o.codes[a["k"]], a["c"])
    expect = staticmethod(_exp)


@op("lookup_fresh", "pdg", _pd)
class _:
    """A set of codes made by the caller just now."""
    @staticmethod
    def run(o, a):
        return getattr(o.gcl.PdgArray(o.world["codes"][a["k"]]), a["c"])
    expect = staticmethod(_exp)


@op("lookup_scribble", "pdg", _pd)
class _:
    """The caller overwrites what it was given, after reading it."""
    @staticmethod
    def run(o, a):
        r = getattr(o.codes[a["k"]], a["c"])
        keep = np.array(r, copy=True)
        if isinstance(r, np.ndarray) and r.flags.writeable and r.size:
            if r.dtype.names:
                for n in r.dtype.names:
                    r[n] = -7.0
            elif r.dtype.kind in "US":
                r[...] = "zz"
            else:
                r[...] = -7.0
        return keep
    expect = staticmethod(_exp)


@op("lookup_part", "pdg", lambda rng, w: dict(_pd(rng, w), m=rng.randrange(1 << 12)))
class _:
    """Properties of a selection of the codes."""
    @staticmethod
    def run(o, a):
        p = o.codes[a["k"]]
        return getattr(p[o.gcl.MaskArray([bool(a["m"] >> i & 1) for i in range(len(p))])], a["c"])

    @staticmethod
    def expect(w, a):
        cs = [c for i, c in enumerate(w["codes"][a["k"]]) if a["m"] >> i & 1]
        if not known(cs):
            return Exc("KeyError")
        return pdg_expect(cs, a["c"]) if cs else SKIP


def _fn(rng, w):
    cs = [c for c in codes(rng, rng.randint(1, 6)) if unique_name(c)] or [21]
    bad = rng.choice([None] * 6 + ["unknown", "type", "notiter", "empty"])
    return {"cs": cs, "as": rng.choice(["list", "tuple", "gen", "str", "set1", "np"]), "bad": bad}


@op("from_name", "pdg", _fn)
class _:
    @staticmethod
    def run(o, a):
        nm = [M.pdg_table()[c]["name"] for c in a["cs"]]
        if a["bad"] == "unknown":
            nm = nm[:-1] + ["not-a-particle"]
        elif a["bad"] == "type":
            nm = nm[:-1] + [21]
        elif a["bad"] == "notiter":
            return o.gcl.PdgArray.from_name(21)
        elif a["bad"] == "empty":
            return o.gcl.PdgArray.from_name("")
        t = a["as"]
        if t == "str":
            return o.gcl.PdgArray.from_name(nm[0] if a["bad"] is None else nm[-1])
        x = {"list": nm, "tuple": tuple(nm), "gen": (v for v in nm), "set1": {nm[0]}, "np": nm}[t]
        if t == "set1" and a["bad"]:
            x = nm
        return o.gcl.PdgArray.from_name(x)

    @staticmethod
    def expect(w, a):
        if a["bad"] == "type" and a["as"] == "str":
            return Exc("ValueError")
        if a["bad"]:
            return Exc("ValueError")
        one = a["as"] in ("str", "set1")
        return ("PdgArray", a["cs"][:1] if one else a["cs"])


def _cm(rng, w):
    d = {"k": rng.randrange(len(w["codes"]))}
    pool = [c for cs in w["codes"] for c in cs] + [99, 11, 6]
    d["t"] = [rng.choice(pool) * rng.choice([1, 1, -1]) for _ in range(rng.randint(0, 3))]
    d["sign"] = rng.random() < 0.4
    d["black"] = rng.random() < 0.5
    return d


@op("code_mask", "pdg", _cm)
class _:
    @staticmethod
    def run(o, a):
        return o.codes[a["k"]].mask(a["t"], a["black"], a["sign"])

    @staticmethod
    def expect(w, a):
        cs = w["codes"][a["k"]]
        f = int if a["sign"] else abs
        t = {f(c) for c in a["t"]}
        return ("mask", [(f(c) in t) != a["black"] for c in cs])


@op("round_trip", "pdg", _pd)
class _:
    """Names looked up from codes give the codes back."""
    @staticmethod
    def run(o, a):
        return o.gcl.PdgArray.from_name([str(n) for n in o.codes[a["k"]].name])

    @staticmethod
    def expect(w, a):
        cs = w["codes"][a["k"]]
        if not cs or not known(cs):
            return Exc("KeyError") if cs else SKIP
        if not all(unique_name(c) for c in cs):
            return SKIP
        return ("PdgArray", cs)
