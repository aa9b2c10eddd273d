"""Operations over event graphs, PDG codes, masks and assignments."""
import math
import random

import numpy as np

from . import gen, model as M
from .ops import (SKIP, Exc, Pred, OPS, arr, brief, call, check, draw_key, group, key_rows, live_key, mask,
                  multi, n_odd, op, same, _num, _bits, _threads, build_tree)


def _g(rng, w):
    return {"g": rng.randrange(len(w["ev"]))}


def _r(rng, d):
    """The aggregation rule of the hierarchy the caller passes."""
    d["rule"] = rng.choice(["or", "or", "and", "none"])
    return d


def hier(o, a, what="the hierarchy"):
    """A hierarchy made, and noted, by the caller of the query at hand."""
    h = o.gcl.select.hierarchy(o.graph[a["g"]])
    h.agg_op = a.get("rule", "or")
    return o.inp(h, what)


def ruled(got, a):
    return ("group", a.get("rule", "or"), got[2])


def names(ev):
    return M.names_of(ev["pdg"])


_MEMO = {}


def memo(ev, what, fn):
    """Model results for one event are reused by many operations."""
    key = (id(ev), what)
    got = _MEMO.get(key)
    if got is None or got[0] is not ev:
        if len(_MEMO) > 400:
            _MEMO.clear()
        got = (ev, fn())
        _MEMO[key] = got
    return got[1]


def m_tree(ev):
    return memo(ev, "tree", lambda: M.hierarchy(ev, names(ev)))


def m_part(ev, e):
    return memo(ev, ("part", e), lambda: M.partition(ev, m_tree(ev), e))


# ------------------------------------------------------------------ adjacency
def _adj(name, get, exp, fam="graph"):
    class C:
        @staticmethod
        def run(o, a):
            return get(o.graph[a["g"]].adj)

        @staticmethod
        def expect(w, a):
            return exp(w["ev"][a["g"]])
    op(name, fam, _g)(C)


def _nodes_exp(ev):
    want = M.nodes(ev["edges"])

    def f(got):
        if not (isinstance(got, tuple) and got[0] == "arr"):
            return f"expected ids, got {brief(got)}"
        g = got[2].tolist()
        if sorted(g) != sorted(want):
            return f"ids {brief(g)} are not the vertices {brief(want)}"
        if [abs(v) for v in g] != [abs(v) for v in want]:
            return "ids are not in ascending order of magnitude"
        return None
    return Pred(f, "vertex ids by magnitude")


_adj("nodes", lambda a: a.nodes, _nodes_exp)
_adj("roots", lambda a: a.roots, lambda e: mask(M.roots(e["edges"])))
_adj("leaves", lambda a: a.leaves, lambda e: mask(M.leaves(e["edges"])))
_adj("matrix", lambda a: a.matrix, lambda e: M.Approx(M.matrix(e["edges"], e["weights"]), 1e-9))
_adj("adj_len", lambda a: len(a), lambda e: len(e["edges"]))
_adj("adj_ser", lambda a: [tuple(p) for p in a.serialize()], lambda e: ("list", [("tuple", list(x)) for x in e["edges"]]))
_adj("adj_iter", lambda a: [tuple(p) for p in a], lambda e: ("list", [("tuple", list(x)) for x in e["edges"]]))
_adj("edges", lambda a: a.edges, lambda e: ("rec", ["src", "dst"], [list(x) for x in e["edges"]]))
_adj("adj_copy", lambda a: a.copy(), lambda e: ("adj", [list(x) for x in e["edges"]], [float(v) for v in e["weights"]]))


def _sparse(ev):
    ids = sorted({v for x in ev["edges"] for v in x})
    pos = {v: i for i, v in enumerate(ids)}
    m = np.zeros((len(ids), len(ids)))
    for s, d in ev["edges"]:
        m[pos[s], pos[d]] = m[pos[s], pos[d]] or (d > 0)
    return ("sparse", m)


_adj("to_sparse", lambda a: a.to_sparse(), lambda e: _sparse(e) if len({tuple(x) for x in e["edges"]}) == len(e["edges"]) else SKIP)


def _edge_vals(w, a):
    r = np.random.RandomState(a["s"])
    n = len(w["ev"][a["g"]]["edges"])
    if a["k"] == "float":
        return r.uniform(-3.0, 3.0, n)
    return r.randint(0, 2, n).astype(bool) if a["k"] == "bool" else r.randint(1, 50, n)


@op("to_sparse_data", "graph", lambda rng, w: dict(_g(rng, w), s=rng.randrange(10 ** 6), k=rng.choice(["int", "float", "bool", "list"])))
class _:
    """The caller's own values on the edges: one element per edge, whatever
    edges the graph repeats."""
    @staticmethod
    def run(o, a):
        adj = o.graph[a["g"]].adj
        v = _edge_vals(o.world, a)
        given = v.tolist() if a["k"] == "list" else v
        m = adj.to_sparse(data=given) if n_odd(a) else adj.to_sparse(given)
        return [sorted([int(r), int(c), float(x)] for r, c, x in zip(m.row, m.col, m.data)), [int(k) for k in m.shape]]

    @staticmethod
    def expect(w, a):
        e = w["ev"][a["g"]]["edges"]
        ids = sorted({v for x in e for v in x})
        pos = {v: i for i, v in enumerate(ids)}
        v = _edge_vals(w, a)
        return ("list", [("list", [("list", t) for t in sorted([pos[x[0]], pos[x[1]], float(y)] for x, y in zip(e, v))]), ("list", [len(ids)] * 2)])


@op("adj_eq", "graph", lambda rng, w: dict(_g(rng, w), i=rng.randrange(10 ** 6)))
class _:
    @staticmethod
    def run(o, a):
        adj = o.graph[a["g"]].adj
        e = o.world["ev"][a["g"]]["edges"]
        return adj == tuple(e[a["i"] % len(e)])

    @staticmethod
    def expect(w, a):
        e = w["ev"][a["g"]]["edges"]
        x = e[a["i"] % len(e)]
        return mask([y == x for y in e])


# ---------------------------------------------------------------- composites
def g_rows(ev, rows):
    """Canonical graph holding the given rows of an event."""
    def t(k):
        return [ev[k][i] for i in rows]
    n = len(rows)
    if n == 0:
        return SKIP
    ps = {
        "pdg": ("PdgArray", t("pdg")),
        "pmu": ("pmu", np.array(t("pmu"), float).reshape(-1, 4)),
        "color": ("ColorArray", [list(c) for c in t("color")]),
        "helicity": ("HelicityArray", t("helicity")),
        "status": ("StatusArray", t("status")),
        "final": ("mask", t("final")),
    }
    return ("graph", ("pset", ps), ("adj", [list(x) for x in t("edges")], [float(ev["weights"][i]) for i in rows] if ev["weights"] else []))


def _d_slice(rng, w):
    d = _g(rng, w)
    d["k"] = draw_key(rng, len(w["ev"][d["g"]]["pdg"]))
    return d


@op("graph_getitem", "graph", _d_slice)
class _:
    @staticmethod
    def run(o, a):
        return o.graph[a["g"]][o.inp(live_key(o.gcl, a["k"]), "the key")]

    @staticmethod
    def expect(w, a):
        ev = w["ev"][a["g"]]
        return g_rows(ev, key_rows(a["k"], len(ev["pdg"])))


@op("graph_copy", "graph", _g)
class _:
    @staticmethod
    def run(o, a):
        return o.graph[a["g"]].copy()

    @staticmethod
    def expect(w, a):
        ev = w["ev"][a["g"]]
        return g_rows(ev, range(len(ev["pdg"])))


@op("graph_cols", "graph", _g)
class _:
    """The event's shortcut attributes agree with its parts."""
    @staticmethod
    def run(o, a):
        g = o.graph[a["g"]]
        return [len(g), bool(g), g.pdg, g.status, g.final, g.helicity, g.color, g.edges]

    @staticmethod
    def expect(w, a):
        ev = w["ev"][a["g"]]
        return ("list", [len(ev["pdg"]), len(ev["pdg"]) > 0, ("PdgArray", ev["pdg"]), ("StatusArray", ev["status"]), mask(ev["final"]),
                         ("HelicityArray", ev["helicity"]), ("ColorArray", [list(c) for c in ev["color"]]),
                         ("rec", ["src", "dst"], [list(x) for x in ev["edges"]])])


@op("graph_ser", "graph", _g)
class _:
    @staticmethod
    def run(o, a):
        d = o.graph[a["g"]].serialize()
        return {k: [tuple(v) if isinstance(v, tuple) else v for v in d[k]] for k in sorted(d)}

    @staticmethod
    def expect(w, a):
        ev = w["ev"][a["g"]]

        def tt(rows, f=lambda v: v):
            return ("list", [("tuple", [f(v) for v in r]) for r in rows])
        return ("dict", {"adj": tt(ev["edges"]), "color": tt(ev["color"]), "final": ("list", ev["final"]),
                         "helicity": ("list", ev["helicity"]), "pdg": ("list", ev["pdg"]),
                         "pmu": tt(ev["pmu"], float), "status": ("list", ev["status"])})


@op("graph_eta", "graph", _g)
class _:
    @staticmethod
    def run(o, a):
        p = o.graph[a["g"]].pmu
        return [p.eta, p.phi, p.mass]

    @staticmethod
    def expect(w, a):
        r = w["ev"][a["g"]]["pmu"]
        return multi(M.eta(r), M.phi(r), M.mass(r))


@op("graph_str", "graph", _g)
class _:
    @staticmethod
    def run(o, a):
        return str(o.graph[a["g"]])

    @staticmethod
    def expect(w, a):
        ev = w["ev"][a["g"]]
        n = len(ev["pdg"])
        nm = names(ev)

        def f(got):
            if not isinstance(got, str):
                return f"expected text, got {brief(got)}"
            lines = got.split("\n")
            if lines[-1] != f"[{n} particles \u00D7 12 attributes]":
                return f"table footer {lines[-1]!r}"
            body = lines[1:-2]
            rows = list(range(n)) if n <= 60 else list(range(5)) + [None] + list(range(n - 5, n))
            if len(body) != len(rows):
                return f"{len(body)} table rows for {n} particles"
            for line, i in zip(body, rows):
                if i is None:
                    continue
                c = line.split()
                e, k = ev["edges"][i], ev["color"][i]
                p = ev["pmu"][i]
                want = [nm[ev["pdg"][i]]] + ["%.2E" % v for v in p] + [str(v) for v in (*k, ev["helicity"][i], ev["status"][i], ev["final"][i], *e)]
                if c != want:
                    return f"table row {i} reads {c}, wanted {want}"
            return None
        return Pred(f, "table of the event")


# ------------------------------------------------------------------- status
@op("hard_mask", "graph", _g)
class _:
    @staticmethod
    def run(o, a):
        return o.graph[a["g"]].hard_mask

    @staticmethod
    def expect(w, a):
        s = [abs(v) for v in w["ev"][a["g"]]["status"]]
        return group([("incoming", [v == 21 for v in s]), ("intermediate", [v == 22 for v in s]),
                      ("outgoing", [v == 23 for v in s]), ("outgoing_nonperturbative_diffraction", [v == 24 for v in s])])


def _d_range(rng, w):
    d = _g(rng, w)
    lo = rng.choice([0, 21, 22, 23, 80, -90, -30, 1])
    d["lo"], d["hi"] = lo, rng.choice([None, lo, lo + rng.randint(0, 60)])
    d["sign"] = rng.random() < 0.5
    return d


@op("in_range", "graph", _d_range)
class _:
    @staticmethod
    def run(o, a):
        return call(o.graph[a["g"]].status.in_range, a, min_status=(a["lo"], 0), max_status=(a["hi"], None), sign_sensitive=(a["sign"], False))

    @staticmethod
    def expect(w, a):
        s = w["ev"][a["g"]]["status"]
        v = s if a["sign"] else [abs(x) for x in s]
        return mask([x >= a["lo"] and (a["hi"] is None or x <= a["hi"]) for x in v])


# --------------------------------------------------------------------- pdg
def _d_pdgmask(rng, w):
    d = _g(rng, w)
    pool = [abs(p) if rng.random() < 0.6 else p for p in w["ev"][d["g"]]["pdg"]] + [99, 11]
    d["t"] = [pool[rng.randrange(len(pool))] for _ in range(rng.randint(1, 3))]
    d["black"] = rng.random() < 0.5
    d["sign"] = rng.random() < 0.5
    return d


@op("pdg_mask", "graph", _d_pdgmask)
class _:
    @staticmethod
    def run(o, a):
        return call(o.graph[a["g"]].pdg.mask, a, a["t"], blacklist=(a["black"], True), sign_sensitive=(a["sign"], False))

    @staticmethod
    def expect(w, a):
        p = w["ev"][a["g"]]["pdg"]
        f = int if a["sign"] else abs
        t = {f(x) for x in a["t"]}
        return mask([(f(x) in t) != a["black"] for x in p])


PDG_COLS = {
    "name": ("name", 1), "latex": ("latex", 1), "charge": ("charge", 1), "mass": ("mass", 1e-3), "width": ("width", 1e-3),
    "quarks": ("quarks", 1), "isospin": ("i", 1), "g_parity": ("g", 1), "space_parity": ("p", 1), "charge_parity": ("c", 1),
}


def pdg_expect(pdgs, prop):
    t = M.pdg_table()
    if prop in ("mass_bounds", "width_bounds"):
        k = prop.split("_")[0]
        want = [[t[p][k + "lower"] * 1e-3, t[p][k + "upper"] * 1e-3] for p in pdgs]

        def f(got):
            if not (isinstance(got, tuple) and got[0] == "rec" and got[1] == [k + "lower", k + "upper"]):
                return f"expected bounds, got {brief(got)}"
            return None if same(got[2], want, 1e-9, 1e-15) else f"got {brief(got[2])}, expected {brief(want)}"
        return Pred(f, prop)
    col, k = PDG_COLS[prop]
    v = [t[p][col] for p in pdgs]
    if isinstance(v[0], str):
        if prop == "name":
            return ("obj", v)

        def text(got):
            # a blank cell of the table has no agreed spelling
            if not (isinstance(got, tuple) and got[0] == "obj" and len(got[1]) == len(v)):
                return f"expected text, got {brief(got)}"
            for x, y in zip(got[1], v):
                if y and x != y or not y and str(x) not in ("", "nan", "None"):
                    return f"got {x!r}, expected {y!r}"
            return None
        return Pred(text, v)
    return M.Approx(np.array(v, float) * k, 1e-9 * np.abs(np.nan_to_num(np.array(v, float))) + 1e-15)


def _d_pdgprop(rng, w):
    d = _g(rng, w)
    d["c"] = rng.choice(sorted(PDG_COLS) + ["name", "name", "mass_bounds", "width_bounds"])
    return d


@op("pdg_prop", "graph", _d_pdgprop)
class _:
    @staticmethod
    def run(o, a):
        return getattr(o.graph[a["g"]].pdg, a["c"])

    @staticmethod
    def expect(w, a):
        return pdg_expect(w["ev"][a["g"]]["pdg"], a["c"])


# ------------------------------------------------------------------- select
def _vertex(rng, ev):
    e = ev["edges"]
    v = e[rng.randrange(len(e))][rng.randrange(2)]
    return -v if rng.random() < 0.1 else v  # ids differing only in sign are different ones


@op("vertex_descendants", "graph", lambda rng, w: (lambda d: dict(d, v=_vertex(rng, w["ev"][d["g"]])))(_g(rng, w)))
class _:
    @staticmethod
    def run(o, a):
        return o.gcl.select.vertex_descendants(o.graph[a["g"]].adj, a["v"])

    @staticmethod
    def expect(w, a):
        return mask(M.desc_vertex(w["ev"][a["g"]]["edges"], a["v"]))


@op("edge_descendants", "graph", lambda rng, w: dict(_g(rng, w), i=rng.randrange(10 ** 6)))
class _:
    @staticmethod
    def run(o, a):
        e = o.world["ev"][a["g"]]["edges"]
        x = e[a["i"] % len(e)]
        return o.gcl.select.edge_descendants(o.graph[a["g"]].adj, tuple(x))

    @staticmethod
    def expect(w, a):
        e = w["ev"][a["g"]]["edges"]
        return mask(M.desc_edge(e, e[a["i"] % len(e)]))


@op("hadron_vertices", "graph", _g)
class _:
    @staticmethod
    def run(o, a):
        g = o.graph[a["g"]]
        return o.gcl.select.hadron_vertices(g.adj, g.status)

    @staticmethod
    def expect(w, a):
        ev = w["ev"][a["g"]]
        want = sorted(M.hadron_vertices(ev["edges"], ev["status"]))

        def f(got):
            ok = isinstance(got, tuple) and got[0] in ("tuple", "list") and all(type(v) is int for v in got[1]) and sorted(got[1]) == want
            return None if ok else f"gives {brief(got)}, the hadronisation vertices are {want}"
        return Pred(f, "the hadronisation vertices")


def _d_find(rng, w):
    d = _g(rng, w)
    ev = w["ev"][d["g"]]
    v = _vertex(rng, ev)
    ins = [p for (s, t), p in zip(ev["edges"], ev["pdg"]) if t == v]
    outs = [p for (s, t), p in zip(ev["edges"], ev["pdg"]) if s == v]
    pick = lambda l: sorted(set(rng.sample(l, rng.randint(0, min(2, len(l))))))
    a, b = pick(ins), pick(outs)
    if rng.random() < 0.1:
        a = a + [999]
    d["in"] = None if (rng.random() < 0.3 and b) else a
    d["out"] = None if (rng.random() < 0.3 and d["in"] is not None) else b
    return d


@op("find_vertex", "slowgraph", _d_find)
class _:
    @staticmethod
    def run(o, a):
        s = lambda x: None if x is None else o.inp(set(x), "the codes")
        return call(o.gcl.select.find_vertex, a, o.graph[a["g"]], pdgs_in=(s(a["in"]), None), pdgs_out=(s(a["out"]), None)).tolist()

    @staticmethod
    def expect(w, a):
        ev = w["ev"][a["g"]]
        want = sorted(M.find_vertex(ev["edges"], ev["pdg"], a["in"], a["out"]))
        return Pred(lambda got: None if isinstance(got, tuple) and got[0] == "list" and sorted(got[1]) == want
                    else f"gives {brief(got)}, the vertices are {want}", "the vertices")


def _d_hard(rng, w):
    d = _g(rng, w)
    ev = w["ev"][d["g"]]
    hp = [ev["pdg"][i] for i in M.hard_idx(ev["status"])]
    d["t"] = None
    d["sign"] = d["strict"] = True
    if rng.random() < 0.6:
        d["t"] = [hp[rng.randrange(len(hp))] for _ in range(rng.randint(1, 2))] if hp else [6]
        d["sign"] = rng.random() < 0.5
        d["strict"] = rng.random() < 0.7
        if rng.random() < 0.15:
            d["t"].append(99)
        elif rng.random() < 0.1:
            d["t"] = [rng.choice([99, -99, 34])]
    return d


@op("hard_descendants", "graph", _d_hard)
class _:
    @staticmethod
    def run(o, a):
        t = a["t"]
        if t and sum(t) % 3:
            t = o.inp(set(t), "the codes")
        return call(o.gcl.select.hard_descendants, a, o.graph[a["g"]], target=(t, None), sign_sensitive=(a["sign"], False), strict=(a["strict"], True))

    @staticmethod
    def expect(w, a):
        ev = w["ev"][a["g"]]
        r = M.hard_descendants(ev, names(ev), a["t"], a["sign"], a["strict"])
        return Exc(r) if isinstance(r, str) else group(r)


@op("hierarchy", "graph", lambda rng, w: dict(_g(rng, w), pre=rng.choice([None, None, "as made", "cleared"])))
class _:
    @staticmethod
    def run(o, a):
        g = o.graph[a["g"]]
        if a["pre"]:
            desc = o.gcl.select.hard_descendants(g)
            if a["pre"] == "cleared":
                for i in M.hard_idx(o.world["ev"][a["g"]]["status"]):
                    for key in desc:
                        desc[key].data[i] = False
            o.inp(desc, "the descendants")
            return call(o.gcl.select.hierarchy, a, g, desc=(desc, None))
        return o.gcl.select.hierarchy(g)

    @staticmethod
    def expect(w, a):
        # with rows of its own taken out there is no agreed tree, only the caller's masks to leave alone
        return SKIP if a["pre"] == "cleared" else group(m_tree(w["ev"][a["g"]]))


@op("partition", "graph", lambda rng, w: _r(rng, dict(_g(rng, w), e=rng.choice([-0.1, -0.1, 0.0, -1.0, 0.3]))))
class _:
    @staticmethod
    def run(o, a):
        g = o.graph[a["g"]]
        return call(o.gcl.select.partition_descendants, a, g, hier(o, a), pt_exp=(a["e"], -0.1))

    @staticmethod
    def expect(w, a):
        t, amb = m_part(w["ev"][a["g"]], a["e"])
        return SKIP if amb else ruled(group(t), a)


@op("leaf_masks", "graph", lambda rng, w: _r(rng, _g(rng, w)))
class _:
    @staticmethod
    def run(o, a):
        return o.gcl.select.leaf_masks(hier(o, a))

    @staticmethod
    def expect(w, a):
        return ruled(group(M.leaf_list(m_tree(w["ev"][a["g"]]))), a)


@op("any_overlap", "graph", lambda rng, w: _r(rng, dict(_g(rng, w), leaf=rng.random() < 0.5)))
class _:
    @staticmethod
    def run(o, a):
        h = hier(o, a)
        return o.gcl.select.any_overlap(o.gcl.select.leaf_masks(h) if a["leaf"] else h)

    @staticmethod
    def expect(w, a):
        t = m_tree(w["ev"][a["g"]])
        return M.any_overlap(M.leaf_list(t) if a["leaf"] else t)


@op("color_singlets", "graph", lambda rng, w: _r(rng, dict(_g(rng, w), inv=rng.random() < 0.5)))
class _:
    @staticmethod
    def run(o, a):
        g = o.graph[a["g"]]
        r = call(o.gcl.select.color_singlets, a, o.inp(o.gcl.select.leaf_masks(hier(o, a)), "the leaf masks"), g.status, g.color, invert=(a["inv"], False))
        return r

    @staticmethod
    def expect(w, a):
        ev = w["ev"][a["g"]]
        r = M.color_singlets(ev, M.leaf_list(m_tree(ev)), a["inv"])
        if r is None:
            return SKIP
        return ("list", [("tuple", list(x)) for x in r])


@op("clusters", "slowgraph", lambda rng, w: dict(_g(rng, w), r=gen.r6(rng.uniform(0.4, 3.0))))
class _:
    @staticmethod
    def run(o, a):
        return o.gcl.select.clusters(o.graph[a["g"]], a["r"])

    @staticmethod
    def expect(w, a):
        ev = w["ev"][a["g"]]
        flat, amb = M.clusters(ev, names(ev), a["r"])
        return SKIP if amb else group(flat)


@op("flatten", "graph", lambda rng, w: _r(rng, dict(_g(rng, w), how=rng.choice(["rise", "agg", "leaves"]), drop=rng.random() < 0.5)))
class _:
    @staticmethod
    def run(o, a):
        h = hier(o, a)
        if a["drop"]:
            h = h.recursive_drop()
        return call(h.flatten, a, how=(a["how"], "rise"))

    @staticmethod
    def expect(w, a):
        t = m_tree(w["ev"][a["g"]])
        want = group(M.flatten(M.drop(t) if a["drop"] else t, a["how"]))
        return want if a["how"] == "agg" else ruled(want, a)


@op("adj_roundtrip", "graph", _g)
class _:
    """Dense matrix and back keeps which vertices are joined."""
    @staticmethod
    def run(o, a):
        m = o.graph[a["g"]].adj.matrix
        b = o.gcl.AdjacencyList.from_matrix(m, weighted=True)
        return [np.asarray(b.data["src"]), np.asarray(b.data["dst"]), b.weights]

    @staticmethod
    def expect(w, a):
        ev = w["ev"][a["g"]]
        m = M.matrix(ev["edges"], ev["weights"])
        r, c = np.nonzero(m)

        def f(got):
            g = [x[2] for x in got[1]]
            have = {(int(i), int(j)): float(v) for i, j, v in zip(*g)}
            want = {(int(i), int(j)): float(m[i, j]) for i, j in zip(r, c)}
            return None if set(have) == set(want) and all(abs(have[k] - want[k]) < 1e-9 for k in want) and len(g[0]) == len(want) else "edges or weights differ"
        return Pred(f, "same weighted edges")


# --------------------------------------------------------------- assignment
def _d_closest(rng, w):
    tidy = [i for i, t in enumerate(w["tidy"]) if t]
    p, q = rng.choice(tidy), rng.choice(tidy)
    if len(w["pmu"][p]) > len(w["pmu"][q]):
        p, q = q, p
    return {"p": p, "q": q, "threads": _threads(rng)}


def _assign_pred(f, c, as_list=True):
    cost = M.assign_cost(f, c)

    def fn(got):
        idx = [int(v) for v in got[1]] if isinstance(got, tuple) and got[0] in ("list", "tuple") else None
        if idx is None:
            return f"expected a list of indices, got {brief(got)}"
        if len(idx) != len(f) or len(set(idx)) != len(idx) or any(not 0 <= v < len(c) for v in idx):
            return f"{idx} does not give each focus its own candidate"
        from scipy.optimize import linear_sum_assignment
        r, k = linear_sum_assignment(cost)
        best = float(cost[r, k].sum())
        have = sum(float(cost[i, j]) for i, j in enumerate(idx))
        if have > best + 1e-7:
            return f"assignment {idx} costs {have}, {k.tolist()} costs {best}"
        return None
    return Pred(fn, "an optimal one-to-one assignment")


@op("arg_closest", "assign", _d_closest)
class _:
    @staticmethod
    def run(o, a):
        return call(o.gcl.select.arg_closest, a, o.pmu[a["p"]], o.pmu[a["q"]], num_threads=(a["threads"], 1))

    @staticmethod
    def expect(w, a):
        return _assign_pred(w["pmu"][a["p"]], w["pmu"][a["q"]])


def _d_tag(rng, w):
    d = _g(rng, w)
    ev = w["ev"][d["g"]]
    nf = sum(ev["final"])
    hp = M.hard_idx(ev["status"], (23,))
    d["mid"] = rng.random() < 0.3
    d["out"] = not d["mid"] or rng.random() < 0.6
    if not d["out"]:
        hp = M.hard_idx(ev["status"], (22,))
    k = len(hp) + len(M.hard_idx(ev["status"], (22,))) + rng.randint(0, 3)
    d["m"] = [[i % max(k, 1) == j for i in range(nf)] if rng.random() < 0.5 else _bits(rng, nf, 0.5) for j in range(max(1, k))]
    for m in d["m"]:
        if not any(m) and m:
            m[rng.randrange(len(m))] = True
    d["list"] = None
    if rng.random() < 0.4 and hp:
        d["list"] = [rng.choice(["black", "white"]), [ev["pdg"][rng.choice(hp)]], rng.random() < 0.5]
        if rng.random() < 0.4:
            d["list"][1] += [rng.choice([11, 21, -5, 24]), -ev["pdg"][rng.choice(hp)]]
        d["blank"] = rng.random() < 0.3
    # momenta which were cut before clustering; the clusters are over the rest
    d["over"] = rng.choice(["final", "final", "final", "every", "others"])
    if d["over"] != "final":
        # or what was clustered is not the final state at all
        nf = len(ev["pdg"]) + (rng.randint(1, 3) if d["over"] == "others" else 0)
        d["m"] = [_bits(rng, nf, 0.5) for _ in d["m"]]
        for m in d["m"]:
            m[rng.randrange(nf)] = True
        d["s"] = rng.getrandbits(30)
        d["cut"] = None
        return d
    d["cut"] = _bits(rng, nf, 0.8) if rng.random() < 0.35 else None
    if d["cut"]:
        if not any(d["cut"]):
            d["cut"][0] = True
        d["m"] = [[b for b, c in zip(m, d["cut"]) if c] for m in d["m"]]
        for m in d["m"]:
            if not any(m):
                m[rng.randrange(len(m))] = True
    return d


def _clustered(ev, a):
    """The momenta which were clustered."""
    if a["over"] == "every":
        return ev["pmu"]
    if a["over"] == "others":
        return gen.ordinary(random.Random(a["s"]), len(a["m"][0]))
    fin = [p for p, f in zip(ev["pmu"], ev["final"]) if f]
    return [p for p, c in zip(fin, a["cut"]) if c] if a["cut"] else fin


def _tag_targets(ev, a):
    idx = M.hard_idx(ev["status"], (22,) * a["mid"] + (23,) * a["out"])
    if a["list"]:
        kind, codes, sign = a["list"]
        t = set(codes) if sign else {abs(c) for c in codes}
        hit = lambda p: (p if sign else abs(p)) in t
        idx = [i for i in idx if hit(ev["pdg"][i]) == (kind == "white")]
    return idx


@op("monte_carlo_tag", "assign", _d_tag)
class _:
    @staticmethod
    def run(o, a):
        kw = {}
        if a["list"]:
            kind, codes, sign = a["list"]
            kw = {kind + "list": codes, "sign_sensitive": sign}
            if a["blank"]:
                kw[{"black": "white", "white": "black"}[kind] + "list"] = []
        if a["cut"] or a["over"] != "final":
            rows = _clustered(o.world["ev"][a["g"]], a)
            kw["clustered_pmu"] = o.inp(o.gcl.MomentumArray([tuple(p) for p in rows]), "the clustered momenta")
        if a["mid"] or n_odd(a):
            kw["intermediate"] = a["mid"]
        if not a["out"] or n_odd(a):
            kw["outgoing"] = a["out"]
        return o.gcl.select.monte_carlo_tag(o.graph[a["g"]].particles, o.inp([o.gcl.MaskArray(m) for m in a["m"]], "a cluster mask"), **kw)

    @staticmethod
    def expect(w, a):
        ev = w["ev"][a["g"]]
        idx = _tag_targets(ev, a)
        if not idx:
            return Exc("IndexError", "ValueError", "TypeError")
        if len(idx) > len(a["m"]):
            return Exc("ValueError")
        fin = _clustered(ev, a)
        if not fin:
            return SKIP
        jets = M.aggregate(fin, a["m"]).val
        keys = M.unique_keys(names(ev)[ev["pdg"][i]] for i in idx)
        cost = M.assign_cost([ev["pmu"][i] for i in idx], jets)
        # two clusters with identical members cannot be told apart
        from scipy.optimize import linear_sum_assignment
        r, k = linear_sum_assignment(cost)
        best = float(cost[r, k].sum())

        def f(got):
            if not (isinstance(got, tuple) and got[0] == "group"):
                return f"expected a mask group, got {brief(got)}"
            if got[1] != "or" or [x for x, _ in got[2]] != keys:
                return f"keys {[x for x, _ in got[2]]}, expected {keys}"
            used, total = [], 0.0
            opts = []
            for i, (_, m) in enumerate(got[2]):
                o_ = [j for j, c in enumerate(a["m"]) if m == mask(c)]
                if not o_:
                    return "tagged mask is none of the clusters"
                opts.append(o_)
            sub = np.full((len(opts), len(a["m"])), 1e6)
            for i, o_ in enumerate(opts):
                for j in o_:
                    sub[i, j] = cost[i, j]
            r2, k2 = linear_sum_assignment(sub)
            have = float(sub[r2, k2].sum())
            if have > 1e5:
                return "one cluster was given to two partons"
            if have > best + 1e-6:
                return f"tagging costs {have}, best is {best}"
            return None
        return Pred(f, "optimal one-to-one tagging")


# --------------------------------------------------------------------- jets
class Lib:
    """Whether the clustering library can be imported right now."""
    out, epoch, real = False, 0, None

    @classmethod
    def set(cls, out):
        import sys
        if out == cls.out:
            return
        cls.epoch += 1
        cls.out = out
        if out:
            cls.real = sys.modules.get("fastjet")
            sys.modules["fastjet"] = None
        elif cls.real is not None:
            sys.modules["fastjet"] = cls.real
        else:
            del sys.modules["fastjet"]


MISSING = "the clustering library is missing"


def _d_jets(rng, w):
    tidy = [i for i, t in enumerate(w["tidy"]) if t]
    return {"p": rng.choice(tidy), "r": rng.choice([gen.r6(rng.uniform(0.2, 1.5)), gen.r6(rng.uniform(0.05, 3.5)), 1]),
            "pv": rng.choice([-1, -1, 0, 1, 0.5, -0.5, -1.0, 1.0, 2, -2, 3.0, -3.0, 2.5, rng.choice([1, -1]) * (1 + gen.r6(rng.uniform(-0.1, 0.1))), gen.r6(rng.uniform(-2, 2)), gen.r6(rng.uniform(-4, 4))]),
            "pt": rng.choice([None, None, 0.0, 5.0, 20.0, gen.r6(rng.uniform(0, 60)), 1e7]),
            "eta": rng.choice([None, None, 2.5, 0.0, gen.r6(rng.uniform(0.1, 5))]), "k": rng.choice([None, None, 1, 2, 3, 100])}


def _jets_sound(rows, a, got):
    """What any clustering into jets must satisfy."""
    if not (isinstance(got, tuple) and got[0] == "list" and all(isinstance(m, tuple) and m[0] == "mask" for m in got[1])):
        return f"got {brief(got)}, expected a list of masks"
    rows = np.asarray(rows, float).reshape(-1, 4)
    masks = [np.array(m[1], bool) for m in got[1]]
    if any(len(m) != len(rows) for m in masks):
        return f"masks over {[len(m) for m in masks]} particles, expected {len(rows)}"
    if masks and np.sum(masks, axis=0).max() > 1:
        return "a particle is in two jets"
    if not all(m.any() for m in masks):
        return "a jet without particles"
    if a["k"] is not None and len(masks) > a["k"]:
        return f"{len(masks)} jets, at most {a['k']} wanted"
    sums = [rows[m].sum(axis=0) for m in masks]
    pts = [math.hypot(v[0], v[1]) for v in sums]
    if any(q > p * (1 + 1e-9) + 1e-9 for p, q in zip(pts, pts[1:])):
        return f"transverse momenta {pts} are not in descending order"
    if any(p < (a["pt"] or 0.0) * (1 - 1e-9) - 1e-9 for p in pts):
        return f"transverse momenta {pts}, wanted at least {a['pt']}"
    if a["eta"] is not None:
        es = [abs(float(M._eta(v[None])[0])) for v in sums]
        if any(e > a["eta"] + 1e-7 for e in es):
            return f"pseudorapidities {es}, wanted at most {a['eta']}"
    if not a["pt"] and a["eta"] is None and a["k"] is None and len(rows) and not np.all(np.sum(masks, axis=0)):
        return "a particle is in no jet"
    return None


@op("fastjet", "jets", _d_jets)
class _:
    @staticmethod
    def run(o, a):
        out, epoch = Lib.out, Lib.epoch
        try:
            return call(o.gcl.select.fastjet_clusters, a, o.pmu[a["p"]], a["r"], a["pv"], pt_cut=(a["pt"], None), eta_cut=(a["eta"], None), top_k=(a["k"], None))
        except ImportError:
            if out or Lib.epoch != epoch:
                return MISSING
            raise

    @staticmethod
    def expect(w, a):
        rows = w["pmu"][a["p"]]
        jets, amb = M.gen_kt(rows, a["r"], a["pv"], a["pt"] or 0.0)
        exp = None
        if not amb:
            es = [float(M._eta(v[None])[0]) for v, _ in jets]
            if a["eta"] is None or not any(abs(abs(e) - a["eta"]) < 1e-7 for e in es):
                if a["eta"] is not None:
                    jets = [j for j, e in zip(jets, es) if abs(e) < a["eta"]]
                exp = ("list", [mask([i in s for i in range(len(rows))]) for _, s in jets[: a["k"]]])

        def f(got):
            if got == MISSING:
                return None
            if isinstance(got, tuple) and got and got[0] == "exc":
                return f"raised {got[1]}, expected jets"
            if exp is not None and not same(got, exp):
                return f"got {brief(got)}, expected {brief(exp)}"
            return _jets_sound(rows, a, got)
        return Pred(f, "jets")


def _d_badjets(rng, w):
    d = dict(_d_jets(rng, w), eta=None, pt=None, k=None)
    what = rng.choice(["r", "pt", "eta", "k", "k", "k"])
    d[what] = rng.choice([0, -1, -3, 1.0, 2.5, "2", [1]]) if what == "k" else -gen.r6(rng.uniform(1e-6, 3))
    return d


@op("fastjet_bad", "jets", _d_badjets)
class _:
    run = OPS["fastjet"].run

    @staticmethod
    def expect(w, a):
        return Pred(lambda got: None if got == MISSING or (isinstance(got, tuple) and got[0] == "exc" and got[1] == "ValueError")
                    else f"got {brief(got)}, expected a ValueError", "a refusal")


@op("lib", "lib", lambda rng, w: {"out": rng.random() < 0.5})
class _:
    """The environment: the clustering library goes or comes back."""
    @staticmethod
    def run(o, a):
        Lib.set(a["out"])

    @staticmethod
    def expect(w, a):
        return SKIP
