import numpy as np

from .shared import *  # noqa: F401,F403
from .shared import sched, ops
from .shared import STUB as _STUB
from .. import gen, sources as S, core
from ..machines import squash
from ..ops import same, brief

ID = "C12"
RUNS, QUICK, THOROUGH = 10, 500, 14000
STUB = _STUB + ["event objects of the generator libraries (stand-ins with their attribute protocol, scriptable failures and delays)"]
RULE = ("a run is 1-3 clients building records from shared sources in drawn layouts, with seeded interleaving at every read, "
        "failing attributes and, in half of the runs, injected failures; records are compared with the source's values after "
        "each operation and at the end, and sources byte for byte; non-trivial: a context switch, a fault or a failing read; "
        "distinct: different sequence of (client, code position) steps")

PART = ("pdg", "pmu", "color", "helicity", "status", "final")
LHE = {-1: -21, 1: -23, -2: -22, 2: -22, 3: -22, -9: -12}


def draw_source(rng):
    kind = rng.choice(["attrs", "attrs", "masks", "dynamic", "slots", "ns", "graph", "graph", "pset", "lhe", "lhe", "one", "one",
                       "group", "matrix"])
    n = rng.choice([0, 1, 1, 2, 3, 4, 5, 8, 17, 40]) if rng.random() < 0.985 else rng.choice(gen.LONG)
    s = {"kind": kind, "n": n, "fresh": rng.random() < 0.7, "extra": rng.random() < 0.7}
    if kind == "matrix":
        n = s["n"] = rng.choice([1, 2, 3, 5])
        s["m"] = [[rng.choice([0, 0, 1, 2.5]) for _ in range(n)] for _ in range(n)]
        s["how"] = rng.choice(["int", "bool", "float", "fortran", "strided"])
        s["weighted"], s["loop"] = rng.random() < 0.5, rng.random() < 0.3
        return s
    if kind == "group":
        s["cols"] = {k: [rng.random() < 0.5 for _ in range(n)] for k in rng.sample(["b", "c", "W+", "latent", "final state", "t"], rng.randint(1, 4))}
        s["how"] = rng.choice(["plain", "strided", "readonly", "int"])
        return s
    if kind == "lhe":
        names = list(PART[:5])
    elif kind == "pset":
        names = [c for c in PART if rng.random() < 0.7] or ["pmu"]
    elif kind == "one":
        names = [rng.choice(PART + ("edges",))]
    else:
        names = [c for c in PART + ("edges",) if rng.random() < 0.75] or ["pdg"]
        if kind == "graph" and "edges" in names and rng.random() < 0.5:
            names.append("weights")
    s["cols"] = {c: S.draw_values(rng, c, n) for c in names}
    s["forms"] = {c: S.draw_form(rng, c) for c in names}
    if rng.random() < 0.12 and names:
        c = rng.choice([x for x in names if x != "weights"])
        # anything can be read as a truth value
        s["bad"] = [c, rng.choice([x for x in S.BAD_FORMS if c != "final" or x in ("too wide", "too narrow", "ragged", "nested")])]
    if kind in ("attrs", "ns", "graph") and rng.random() < 0.12 and len(names) > 1 and n > 1:
        # a short read of one column: what is there is what is kept
        c = rng.choice([x for x in names if x not in ("weights", "edges")] or [names[0]])
        s["cols"][c] = s["cols"][c][:rng.randint(1, n - 1)]
    if kind == "lhe" and rng.random() < 0.1:
        s["lost"] = rng.choice(names)
    return s


def draw(rng, tier):
    srcs = [draw_source(rng) for _ in range(rng.randint(1, 3))]
    clients = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        prog = []
        for _ in range(rng.randint(2, 5)):
            a = {"f": "read", "s": rng.randrange(len(srcs))}
            src = srcs[a["s"]]
            if src["kind"] in ("attrs", "masks", "dynamic", "slots", "lhe") and rng.random() < 0.35:
                a["fail"] = [rng.choice(list(src["cols"])), rng.choice(list(S.ERRORS))]
            prog.append(a)
        clients.append(prog)
    return {"sources": srcs, "clients": clients, **sched(rng, rng.random() < 0.5)}


class Live:
    """A source as it stands in the process, with its byte image."""

    def __init__(self, gcl, s):
        self.gcl, self.s, self.kind = gcl, s, s["kind"]
        self.given = {}
        if self.kind == "matrix":
            m = np.array(s["m"])
            m = {"int": (m * 2).astype(int), "bool": m != 0, "float": m.astype(float), "fortran": np.asfortranarray(m.astype(float)),
                 "strided": np.repeat(m.astype(float), 2, axis=1)[:, ::2]}[s["how"]]
            self.given["m"] = m
        elif self.kind == "group":
            rec = np.zeros(s["n"], dtype=[(k, "i4" if s["how"] == "int" else "?") for k in s["cols"]])
            for k, v in s["cols"].items():
                rec[k] = v
            if s["how"] == "strided":
                rec = np.repeat(rec, 2)[::2]
            if s["how"] == "readonly":
                rec.flags.writeable = False
            self.given["m"] = rec
        else:
            for c, v in s["cols"].items():
                self.given[c] = S.lay(gcl, c, v, s["forms"][c])
            if "bad" in s:
                c, form = s["bad"]
                self.given[c] = S.lay_bad(c, s["n"], form)
        self.images = {c: self._image(v) for c, v in self.given.items()}

    @staticmethod
    def _image(v):
        if isinstance(v, S.Proto):
            v = v.a
        if isinstance(v, np.ndarray):
            base = v if v.base is None or not isinstance(v.base, np.ndarray) else v.base
            return (base.dtype.str if not base.dtype.names else str(base.dtype), base.shape, base.tobytes() if base.dtype != object else repr(base.tolist()))
        if hasattr(v, "_data") or hasattr(v, "data") and not isinstance(v, (list, tuple, dict)):
            a = ops.raw(v)
            return (str(a.dtype), a.shape, a.tobytes())
        return repr(v) if "object at" not in repr(v) else len(v)

    def changed(self):
        for c, v in self.given.items():
            if self._image(v) != self.images[c]:
                return c
        return None

    def build(self, fail):
        """The source object this reading uses."""
        s = self.s
        if self.kind == "ns":
            import types
            return types.SimpleNamespace(**self.given)
        if self.kind == "lhe":
            cols = {c: v for c, v in self.given.items() if c != s.get("lost")}
            e = S.event(cols, "attrs", s["fresh"], s["extra"])
        else:
            e = S.event(self.given, self.kind, s["fresh"], s["extra"])
        e._plan = [fail] if fail else []
        return e

    def read(self, fail):
        gcl, s, k = self.gcl, self.s, self.kind
        if k == "matrix":
            return lambda: gcl.AdjacencyList.from_matrix(self.given["m"], weighted=s["weighted"], self_loop=s["loop"])
        if k == "group":
            return lambda: gcl.MaskGroup.from_numpy_structured(self.given["m"])
        if k == "one":
            (c, v), = self.given.items()
            return lambda: getattr(gcl, S.CLS[c])(v)
        if k == "graph":
            return lambda: gcl.Graphicle.from_numpy(**self.given)
        if k == "pset":
            return lambda: gcl.ParticleSet.from_numpy(**self.given)
        e = self.build(fail)
        if k == "lhe":
            return lambda: gcl.ParticleSet.from_lhe_event(e)
        return lambda: gcl.Graphicle.from_event(e)

    # ------------------------------------------------------------- what it is
    def want(self):
        s, k = self.s, self.kind
        if k == "matrix":
            n = s["n"]
            m = np.asarray(self.given["m"]).astype(float)
            got = {(i, j): float(m[i, j]) for i in range(n) for j in range(n) if m[i, j]}
            if s["loop"]:
                got.update({(i, i): 0.0 for i in range(n)})
            return got
        if k == "group":
            return ("group", "and", [(c, ops.mask(v)) for c, v in s["cols"].items()])
        col = {}
        for c in PART:
            v = s["cols"].get(c, [])
            if c == "pmu":
                col[c] = ("pmu", np.array(v, dtype="<f8").reshape(-1, 4))
            elif c == "final":
                col[c] = ops.mask(v)
            else:
                col[c] = (S.CLS[c], [list(x) if isinstance(x, list) else x for x in v])
        if k == "lhe":
            col["status"] = ("StatusArray", [LHE.get(x, x) for x in s["cols"]["status"]])
            col["final"] = ops.mask([False] * s["n"])
        adj = ("adj", [list(x) for x in s["cols"].get("edges", [])], [float(x) for x in s["cols"].get("weights", [])])
        if k == "one":
            c = next(iter(s["cols"]))
            return adj if c == "edges" else col[c]
        if k in ("pset", "lhe"):
            return ("pset", col)
        return ("graph", ("pset", col), adj)

    def refuses(self):
        return "bad" in self.s or "lost" in self.s

    def mismatch(self, got):
        want = self.want()
        if self.kind == "matrix":
            if got[0] != "adj":
                return f"expected edges, got {brief(got)}"
            have = [tuple(e) for e in got[1]]
            if len(set(have)) != len(have) or set(have) != set(want):
                return f"edges {brief(have)}, expected {brief(sorted(want))}"
            if not self.s["weighted"]:
                return None if got[2] == [] else f"weights {brief(got[2])} nobody asked for"
            if [float(x) for x in got[2]] != [want[e] for e in have]:
                return f"weights {brief(got[2])} for edges {brief(have)}, expected {brief(want)}"
            return None
        got, want = squash(got), squash(want)
        return None if same(got, want, 0, 0) else f"got {brief(got, 200)}, the source has {brief(want, 200)}"


def shrink(spec):
    """Plain layouts where the layout does not matter."""
    srcs = spec["sources"]
    for k, s in enumerate(srcs):
        for c, f in s.get("forms", {}).items():
            if f["form"] != "plain":
                new = dict(s, forms=dict(s["forms"], **{c: {"form": "plain"}}))
                yield dict(spec, sources=srcs[:k] + [new] + srcs[k + 1:])


def public(gcl, r):
    """The record again, through what callers read: its columns one by one."""
    def cols(p):
        return {"pdg": p.pdg.data.tolist(), "x": p.pmu.x.tolist(), "e": p.pmu.energy.tolist(), "c": p.color.color.tolist(),
                "a": p.color.anticolor.tolist(), "h": p.helicity.data.tolist(), "s": p.status.data.tolist(),
                "f": p.final.data.tolist(), "ser": p.serialize()}
    if isinstance(r, gcl.Graphicle):
        return {**cols(r), "src": r.edges["src"].tolist(), "dst": r.edges["dst"].tolist(), "w": r.adj.weights.tolist()}
    if isinstance(r, gcl.ParticleSet):
        return cols(r)
    return None


def public_mismatch(gcl, live, r):
    got = public(gcl, r)
    if got is None:
        return None
    want = live.want()
    p = want[1][1] if want[0] == "graph" else want[1]
    rows = p["pmu"][1]
    exp = {"pdg": p["pdg"][1], "x": rows[:, 0].tolist(), "e": rows[:, 3].tolist(), "c": [x[0] for x in p["color"][1]],
           "a": [x[1] for x in p["color"][1]], "h": p["helicity"][1], "s": p["status"][1], "f": p["final"][1]}
    if want[0] == "graph":
        exp.update(src=[e[0] for e in want[2][1]], dst=[e[1] for e in want[2][1]], w=want[2][2])
    for k, v in exp.items():
        if got[k] != v:
            return f"{k} reads {brief(got[k], 120)}, the source has {brief(v, 120)}"
    ser = {"pdg": tuple(exp["pdg"]), "pmu": tuple(tuple(x) for x in rows.tolist()), "color": tuple(tuple(x) for x in p["color"][1]),
           "helicity": tuple(exp["h"]), "status": tuple(exp["s"]), "final": tuple(exp["f"])}
    have = {k: tuple(tuple(x) if isinstance(x, tuple) else x for x in got["ser"][k]) for k in ser}
    return None if have == ser else f"serialised {brief(have, 150)}, the source has {brief(ser, 150)}"


def run(gcl, spec):
    from ..runner import Outcome, make_sim, attempt, dig, finish_sim, RETRY
    out = Outcome()
    live = [Live(gcl, s) for s in spec["sources"]]
    sim = make_sim(spec)
    held = []

    def one(c, i, a, retry=False):
        L = live[a["s"]]
        err = None
        if a.get("fail") and not retry:
            err = S.ERRORS[a["fail"][1]]("the source failed")
        fn = L.read((a["fail"][0], err) if err is not None else None)
        r, hit = attempt(sim, c, i, fn)
        out.ops += 1
        out.bump("op_" + L.kind)
        got = ops.canon(gcl, r)
        dig(out, got)
        what = f"reading {L.kind} source {brief({k: v['form'] for k, v in L.s.get('forms', {}).items()}, 160)}"
        if hit and isinstance(r, BaseException):
            out.bump("failed_ops")
        elif err is not None and a["fail"][0] != L.s.get("lost"):
            out.bump("fault_source")
            earlier = L.refuses()  # may be refused before the failing read
            if r is not err and not (earlier and isinstance(r, Exception)):
                out.bad(f"{what}: {a['fail'][0]} failed with {type(err).__name__}, the caller got {brief(got, 120)}", c.idx, i)
        elif L.refuses():
            out.bump("refused")
            if not isinstance(r, Exception):
                out.bad(f"{what}: unusable {L.s.get('bad') or L.s.get('lost')} was accepted as {brief(got, 160)}", c.idx, i)
        else:
            m = f"raised {type(r).__name__}: {r}" if isinstance(r, BaseException) else L.mismatch(got) or public_mismatch(gcl, L, r)
            if m:
                out.bad(f"{what}: {m}", c.idx, i)
            if not isinstance(r, BaseException):
                held.append((c.idx, i, L, r, what))
        for k, other in enumerate(live):
            m = other.changed()
            if m:
                out.bad(f"{what} changed {m} of source {k}", c.idx, i)
        return r, hit or err is not None

    def body(prog):
        def go(c):
            for a in prog:
                r, hit = one(c, a["n"], a)
                if hit and isinstance(r, BaseException):
                    one(c, RETRY + a["n"], a, True)
        return go

    for prog in spec["clients"]:
        sim.add(body(prog))
    if spec.get("fault_kinds"):
        sim.faultable = lambda c, o: o < RETRY
    sim.run()
    for ci, i, L, r, what in held:
        m = L.mismatch(ops.canon(gcl, r))
        if m:
            out.bad(f"at the end, what came of {what}: {m}", ci, i)
    finish_sim(sim, out)
    return out
