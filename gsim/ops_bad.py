"""Requests which cannot be answered."""
import numpy as np

from . import model as M
from .ops import op, _bits
from .ops_cols import Refused

# what is asked, and whether it needs an event, several particles, or one
ASKS = {}


def ask(name, need=""):
    def deco(fn):
        ASKS[name] = (fn, need)
        return fn
    return deco


def _pm(o, a):
    return o.pmu[a["p"]]


def _ev(o, a):
    return o.graph[a["g"]]


@ask("weights in a list", "p2")
def _(o, a):
    return o.gcl.calculate.combined_mass(_pm(o, a), [1.0] * len(_pm(o, a)))


@ask("weights of another length", "p2")
def _(o, a):
    return o.gcl.calculate.combined_mass(_pm(o, a), np.ones((len(_pm(o, a)) + 1, 1)))


@ask("unknown cut mode")
def _(o, a):
    return o.gcl.matrix.cut_adj(np.eye(3), 0.5, a["word"])


@ask("unusable weighted flag of a cut")
def _(o, a):
    return o.gcl.matrix.cut_adj(np.eye(3), 0.5, "max", weighted=a["num"])


@ask("more neighbours than particles")
def _(o, a):
    loop = a["num"] % 2 == 1
    return o.gcl.matrix.knn_adj(np.eye(3), 3 + loop + a["num"] // 2, self_loop=loop)


@ask("weighted neighbours of a whole-number type")
def _(o, a):
    return o.gcl.matrix.knn_adj(np.eye(4) + 1.0, 1, weighted=True, dtype=a["dtype"])


@ask("negative number of particles")
def _(o, a):
    return o.gcl.matrix.fc_adj(-1 - abs(a["num"]))


@ask("unusable number of workers", "p1")
def _(o, a):
    k = {0: 0, 1: -1, 2: "two"}[a["num"] % 3]
    p = _pm(o, a)
    if a["num"] % 2:
        return p.delta_R(p, threads=k)
    return o.gcl.calculate.cluster_coeff_distbn(p, 0.4, threads=k)


@ask("selection by a mask of another length", "p2")
def _(o, a):
    m = o.gcl.MaskArray(a["bits"] + [True] * (len(_pm(o, a)) + 1 - len(a["bits"])) if len(a["bits"]) <= len(_pm(o, a)) else a["bits"])
    return _pm(o, a)[m]


@ask("selection by a row which is not there", "p1")
def _(o, a):
    return _pm(o, a)[len(_pm(o, a)) + abs(a["num"])]


@ask("selection by a word", "p1")
def _(o, a):
    return _pm(o, a)[a["word"]]


@ask("event selection by a mask of another length", "g")
def _(o, a):
    return _ev(o, a)[np.ones(len(_ev(o, a)) + 1 + abs(a["num"]), bool)]


@ask("particle selection by a row which is not there", "g")
def _(o, a):
    return _ev(o, a).particles[len(_ev(o, a)) + abs(a["num"])]


@ask("aggregation by masks of another length", "p2")
def _(o, a):
    return o.gcl.calculate.aggregate_momenta(_pm(o, a), [o.gcl.MaskArray([True] * (len(_pm(o, a)) + 1))])


@ask("overlap of masks of differing length")
def _(o, a):
    return o.gcl.calculate.jaccard_distance(o.gcl.MaskArray([True, False, True]), o.gcl.MaskArray([True] * 4))


@ask("overlap with weights of another length")
def _(o, a):
    m = o.gcl.MaskArray(a["bits"] + [True, False])
    k = (1, len(m) + 1, len(m) - 1, 0)[a["num"] % 4]
    return o.gcl.calculate.jaccard_distance(m, o.gcl.MaskArray([True] * len(m)), np.ones(k))


@ask("shape of nothing")
def _(o, a):
    c = o.gcl.calculate
    f = (c.thrust, c.spherocity, c.c_parameter)[a["num"] % 3]
    return f(_pm(o, a)[:0])


@ask("seed below zero", "p2")
def _(o, a):
    c = o.gcl.calculate
    if a["num"] % 3 == 0:
        return o.gcl.MomentumArray.from_spherical_uniform(3, 10.0, seed=-1)
    return (c.thrust if a["num"] % 3 == 1 else c.spherocity)(_pm(o, a), rng_seed=-1)


@ask("unusable share of massless particles")
def _(o, a):
    return o.gcl.MomentumArray.from_spherical_uniform(3, 10.0, massless=1.5 + abs(a["num"]) if a["num"] % 2 else -0.5 - abs(a["num"]))


@ask("negative number of generated particles")
def _(o, a):
    return o.gcl.MomentumArray.from_spherical_uniform(-1 - abs(a["num"]), 10.0)


@ask("negative energy")
def _(o, a):
    return o.gcl.MomentumArray.from_spherical_uniform(3, -1.0 - abs(a["num"]))


@ask("vertex of no particles", "g")
def _(o, a):
    return o.gcl.select.find_vertex(_ev(o, a))


@ask("descendants of a code which is not there", "g")
def _(o, a):
    return o.gcl.select.hard_descendants(_ev(o, a), {987650 + abs(a["num"])})


@ask("descendants of a code which is not there among others", "g")
def _(o, a):
    ev = o.world["ev"][a["g"]]
    hard = [ev["pdg"][i] for i in M.hard_idx(ev["status"], (22, 23, 24))]
    return o.gcl.select.hard_descendants(_ev(o, a), set(hard[:1]) | {987650 + abs(a["num"])}, sign_sensitive=True, all_or_nothing=True)


def _masks(o, a, k, extra=0):
    n = sum(o.world["ev"][a["g"]]["final"]) + extra
    return [o.gcl.MaskArray([(i + j) % 2 == 0 for i in range(n)]) for j in range(k)]


def _hard(o, a):
    return M.hard_idx(o.world["ev"][a["g"]]["status"], (23,))


@ask("tags from no clusters", "g")
def _(o, a):
    return o.gcl.select.monte_carlo_tag(_ev(o, a).particles, [])


@ask("tags for neither outgoing nor intermediate", "g")
def _(o, a):
    return o.gcl.select.monte_carlo_tag(_ev(o, a).particles, _masks(o, a, 9), outgoing=False)


@ask("tags with both lists", "g")
def _(o, a):
    return o.gcl.select.monte_carlo_tag(_ev(o, a).particles, _masks(o, a, 9), blacklist=[1], whitelist=[2])


@ask("tags of a code which is not there", "g")
def _(o, a):
    return o.gcl.select.monte_carlo_tag(_ev(o, a).particles, _masks(o, a, 9), whitelist=[987650])


@ask("fewer clusters than partons", "gh")
def _(o, a):
    return o.gcl.select.monte_carlo_tag(_ev(o, a).particles, _masks(o, a, max(1, len(_hard(o, a)) - 1 - abs(a["num"]) % 2)))


@ask("clusters of another length", "gh")
def _(o, a):
    return o.gcl.select.monte_carlo_tag(_ev(o, a).particles, _masks(o, a, len(_hard(o, a)) + 1, 1 + abs(a["num"])))


@ask("more clusters' particles than given", "gh")
def _(o, a):
    g = _ev(o, a)
    return o.gcl.select.monte_carlo_tag(g.particles, _masks(o, a, len(_hard(o, a)) + 1), clustered_pmu=g.pmu)


@ask("splitting more than one", "p2")
def _(o, a):
    return o.gcl.transform.split_momentum(_pm(o, a), 0.3, 0.1, (0.2, 0.4))


@ask("splitting none")
def _(o, a):
    return o.gcl.transform.split_momentum(_pm(o, a)[:0], 0.3, 0.1, (0.2, 0.4))


@ask("sharing out of range", "p2")
def _(o, a):
    z = (0.0, -0.1, 0.51, 1.0, 7.0, float("nan"))[a["num"] % 6]
    return o.gcl.transform.split_hardest(_pm(o, a), z, 0.1)


@ask("plane of one", "p1")
def _(o, a):
    return o.gcl.transform.split_hardest(_pm(o, a)[:1], 0.3, 0.1)


@ask("plane of none")
def _(o, a):
    return o.gcl.transform.soft_hard_axis(_pm(o, a)[:0])


@ask("unknown name")
def _(o, a):
    return o.gcl.PdgArray.from_name(["u", a["word"] + "?"] if a["num"] % 2 else a["word"] + "?")


@ask("name which is no text")
def _(o, a):
    return o.gcl.PdgArray.from_name([3, "u"] if a["num"] % 2 else 3)


@ask("property of no such code")
def _(o, a):
    x = o.gcl.PdgArray([1, 987650 + abs(a["num"]), 2])
    return (x.name, x.mass, x.charge)[a["num"] % 3] if a["num"] % 2 else x.mass_bounds


@ask("unknown aggregation")
def _(o, a):
    g = o.gcl.MaskGroup({"a": [True]}, agg_op="or")
    if a["num"] % 2:
        return o.gcl.MaskGroup({"a": [True]}, agg_op=a["word"])
    g.agg_op = a["word"]
    return g


@ask("unknown way to flatten")
def _(o, a):
    return o.gcl.MaskGroup({"a": [True], "b": {"c": [True]}}).flatten(a["word"] or "sideways")


@ask("group without aggregation, aggregated")
def _(o, a):
    g = o.gcl.MaskGroup({"a": [True], "b": [False]}, agg_op="none")
    return (lambda: g.data, lambda: g & g, lambda: ~g, lambda: o.gcl.MomentumArray([[1.0, 2.0, 3.0, 9.0]])[g])[a["num"] % 4]()


@ask("member which is not there")
def _(o, a):
    g = o.gcl.MaskGroup({"a": [True], "b": [False]})
    k = a["word"] + "?"
    return (lambda: g[k], lambda: g[["a", k]], lambda: g.pop(k), lambda: g.__delitem__(k))[a["num"] % 4]()


@ask("member without a name")
def _(o, a):
    g = o.gcl.MaskGroup({"a": [True]})
    g[a["num"]] = [True]
    return g


def _members(o, a):
    n = len(a["bits"])
    g = o.gcl.MaskGroup({"a": a["bits"], "b": {"c": [not b for b in a["bits"]], "d": [True] * n}}, "or")
    return o.inp(g, "the group"), n


@ask("replacing a member by what is no mask")
def _(o, a):
    g, n = _members(o, a)
    bad = [[True] * (n + 1)] * 2 if a["num"] % 2 else [[True, False, True]] * n
    h = (g, g["b"])[a["num"] // 2 % 2]
    k = ("a", "c", "new")[a["num"] % 3]
    (lambda: h.__setitem__(k, bad), lambda: h.update({k: bad}), lambda: h.setdefault("novel", bad) and h.__setitem__("x", bad))[a["num"] // 4 % 3]()
    return g


@ask("dropping a member which is not there")
def _(o, a):
    g, n = _members(o, a)
    k = a["word"] + "?"
    return (lambda: g.__delitem__(k), lambda: g.pop(k), lambda: g["b"].pop(k), lambda: g[["a", "b", k]])[a["num"] % 4]()


@ask("rows of a group which are not there")
def _(o, a):
    g, n = _members(o, a)
    return (lambda: g[[0, n]] if n else g[0], lambda: g[np.ones(n + 1, bool)], lambda: g[n + 3], lambda: g[o.gcl.MaskArray([True] * (n + 2))])[
        max(1, a["num"] % 4)]()


@ask("unknown aggregation for a group in use")
def _(o, a):
    g, n = _members(o, a)
    h = (g, g["b"])[a["num"] % 2]
    h.data
    h.agg_op = a["word"]
    return g


@ask("columns of another width")
def _(o, a):
    G = o.gcl
    n = 1 + abs(a["num"]) % 3
    return (lambda: G.MomentumArray(np.ones((n, 3))), lambda: G.MomentumArray(np.ones((n, 5))), lambda: G.ColorArray(np.ones((n, 3), int)),
            lambda: G.AdjacencyList(np.ones((n, 3), int)), lambda: G.PdgArray(np.ones((n, 2), int)), lambda: G.StatusArray(np.ones((n, 2), int)),
            lambda: G.MaskArray(np.ones((n, 2), bool)), lambda: G.HelicityArray(np.ones((n, 2), int)),
            lambda: G.ParticleSet.from_numpy(pdg=[1], pmu=np.ones((1, 3))), lambda: G.Graphicle.from_numpy(edges=[[1, 2, 3]]))[a["num"] % 10]()


@ask("columns of words")
def _(o, a):
    G = o.gcl
    return (lambda: G.MomentumArray([["a", "b", "c", "d"]]), lambda: G.PdgArray(["x"]), lambda: G.StatusArray(["y"]), lambda: G.ColorArray([["p", "q"]]),
            lambda: G.AdjacencyList([["p", "q"]]), lambda: G.HelicityArray(["z"]))[a["num"] % 6]()


@ask("unusable jet parameter", "p2j")
def _(o, a):
    bad = ({"radius": -0.4}, {"pt_cut": -1.0}, {"eta_cut": -2.5}, {"top_k": 0}, {"top_k": -3}, {"top_k": 1.5}, {"radius": "wide"})[a["num"] % 7]
    kw = {"radius": 0.4, "p_val": -1.0}
    kw.update(bad)
    return o.gcl.select.fastjet_clusters(_pm(o, a), **kw)


@ask("shift of another length", "p2")
def _(o, a):
    s = np.ones(len(_pm(o, a)) + 1)
    return _pm(o, a).shift_rapidity(s) if a["num"] % 2 else _pm(o, a).shift_phi(s)


@ask("sparse form with data of another length", "g")
def _(o, a):
    return _ev(o, a).adj.to_sparse(np.ones(len(_ev(o, a).adj) + 1 + abs(a["num"])))


@ask("write outside a mask")
def _(o, a):
    m = o.gcl.MaskArray(a["bits"])
    m[len(a["bits"]) + abs(a["num"])] = True
    return m


@ask("momenta compared with what has not four values", "p1")
def _(o, a):
    p, k = _pm(o, a), a["num"]
    n = len(p)
    rows = [[float(x) for x in r] for r in o.world["pmu"][a["p"]]]
    other = (1.5, None, "ab", rows if n != 4 else rows + rows, rows[0][:3], tuple(rows[0]) + (1.0,), np.array(rows), [], iter(rows[0]), {1.0, 2.0})[k % 10]
    return p != other if k % 3 == 0 else p == other


@ask("sets compared with one of another length", "p2")
def _(o, a):
    p, k = _pm(o, a), a["num"]
    n = len(p)
    other = p[: n - 1] if n > 2 else p[[0, 1, 0]]
    if k % 4 == 1:
        s = o.gcl.StatusArray([1] * n)
        return s == o.gcl.StatusArray([1] * (n + 1)) if k % 3 else s != o.gcl.StatusArray([1] * (n + 1))
    if k % 4 == 2:
        s = o.gcl.PdgArray([21] * n)
        return s == [21] * (n + 1) if k % 3 else s != [21] * (n + 1)
    if k % 4 == 3:
        c = o.gcl.ColorArray([[1, 2]] * n)
        return c == o.gcl.ColorArray([[1, 2]] * (n + 1)) if k % 3 else c != o.gcl.ColorArray([[1, 2]] * (n + 1))
    return p == other if k % 3 else p != other


@ask("edges or colours compared with what are not pairs", "g")
def _(o, a):
    g, k = _ev(o, a), a["num"]
    x = g.adj if k % 2 else g.color
    if not len(x.data):
        raise ValueError("nothing to compare")
    other = (7, None, [[1, 2]] * 3, (1, 2, 3), np.zeros((len(x.data), 2), "<i4"), [5])[k // 2]
    return x == other if a["word"] else x != other


@ask("mask with what is no array")
def _(o, a):
    m, k = o.gcl.MaskArray(a["bits"]), a["num"]
    if k >= 6:
        m = o.gcl.MaskGroup({"a": m, "b": o.gcl.MaskArray(a["bits"])}, "or")
    other = (list(a["bits"]), 1, "ab", None, True, {1, 2})[k % 6]
    return (lambda: m & other, lambda: m | other, lambda: m == other, lambda: m != other)[(k + len(a["word"])) % 4]()


@ask("masks of differing length combined")
def _(o, a):
    n, k = len(a["bits"]) + 1, a["num"]
    m, q = o.gcl.MaskArray(a["bits"] + [True]), o.gcl.MaskArray(a["bits"] + [True] * (2 + k % 2))
    if k % 2:
        q = q.data
    return (lambda: m & q, lambda: m | q, lambda: m == q, lambda: m != q)[(k // 2) % 4]() if n > 1 else m == q


@ask("vertex of unspecified particles", "g")
def _(o, a):
    g = _ev(o, a)
    return o.gcl.select.find_vertex(g) if a["num"] % 2 else o.gcl.select.find_vertex(g, pdgs_in=None, pdgs_out=None)


def _draw(rng, w):
    need = None
    while True:
        name = rng.choice(sorted(ASKS))
        need = ASKS[name][1]
        d = {"ask": name, "p": rng.randrange(len(w["pmu"])), "num": rng.randrange(12), "word": rng.choice(["zigzag", "top", "MAX", "", "xor"]),
             "dtype": rng.choice(["i4", "i8", "?"]), "bits": _bits(rng, rng.randint(1, 5))}
        if "j" in need and not w.get("jets"):
            continue
        if "g" in need:
            if not w["ev"]:
                continue
            d["g"] = rng.randrange(len(w["ev"]))
            ev = w["ev"][d["g"]]
            if "h" in need and (len(M.hard_idx(ev["status"], (23,))) < 2 or not any(ev["final"]) or all(ev["final"])):
                continue
        if "p1" in need or "p2" in need:
            n = len(w["pmu"][d["p"]])
            if n < (2 if "p2" in need else 1):
                continue
        return d


@op("refuse", "bad", _draw)
class _:
    @staticmethod
    def run(o, a):
        return ASKS[a["ask"]][0](o, a)

    @staticmethod
    def expect(w, a):
        return Refused()


