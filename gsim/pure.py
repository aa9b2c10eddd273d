"""Queries as pure functions: (world, operation) -> canonical value, bit for
bit comparable between processes."""
import numpy as np

from . import gen, ops, ops_graph, ops_pdg  # noqa: F401
from .ops import OPS, canon

SLOW = ("find_vertex", "clusters")
# these write into what they were handed or read global state on purpose
NOT = ("lookup_scribble", "lib")


def names():
    return [n for n, o in OPS.items() if n not in NOT]


def perform(gcl, world, a):
    """One query on objects of its own: whatever it returns."""
    f = a["f"]
    if f == "generate":
        return gcl.MomentumArray.from_spherical_uniform(a["rows"], a["e"], **a["kw"])
    if f == "group_text":
        g = ops.build_tree(gcl, a["tree"], a["agg"])
        return [list(g), g.flatten(how="leaves"), g.flatten(how="rise"), g, repr(g), list(g.dict), g.serialize(), g.bitwise_or, g.bitwise_and]
    if f == "group_union":
        g, h = ops.build_tree(gcl, a["tree"]), ops.build_tree(gcl, a["tree2"])
        g.update(h)
        return [g, list(g.keys()), g == h]
    return ops.run(ops.Objs(gcl, world), a)


def answer(gcl, world, a):
    """The canonical answer to one query on objects of its own."""
    try:
        return canon(gcl, perform(gcl, world, a))
    except Exception as e:  # noqa: BLE001
        return ("exc", type(e).__name__)


def _tree(rng, n, depth=2):
    pool = ["b", "W+", "t", "t~", "latent", "q0", "q1", "H", "Z0", "g", "u", "d~", "", "τ", "a.b", "data"]
    out = []
    for k in rng.sample(pool, rng.randint(2, 5)):
        if depth and rng.random() < 0.3:
            out.append((k, _tree(rng, n, depth - 1)))
        else:
            out.append((k, [rng.random() < 0.5 for _ in range(n)]))
    return out


def draw(rng, world, only=None):
    r = rng.random()
    if r < 0.06:
        return {"f": "generate", "rows": rng.choice([1, 3, 8, 50]), "e": rng.choice([1.0, 500.0]),
                "kw": {"seed": rng.choice([0, 1, 7, 2**40]), "massless": rng.choice([0.0, 0.5, 1.0])}}
    if r < 0.12:
        return {"f": "group_text", "tree": _tree(rng, 4), "agg": rng.choice(["or", "and"])}
    if r < 0.15:
        return {"f": "group_union", "tree": _tree(rng, 4), "tree2": _tree(rng, 4)}
    fams = [n for n in names()]
    if r < 0.6 and world["ev"]:
        fams = [n for n in fams if OPS[n].fam in ("graph", "slowgraph", "assign")]
    n = rng.choice([x for x in fams if OPS[x].fam != "graph" and OPS[x].fam != "slowgraph" or world["ev"]])
    if n in SLOW and rng.random() < 0.5:
        n = "hierarchy" if world["ev"] else "pt"
    d = OPS[n].draw(rng, world)
    d["f"] = n
    return d


def draw_world(rng):
    w = ops.make_world(rng, npmu=3, nev=1, special=0.1, nord=2)
    w["codes"] = [ops_pdg.codes(rng, unknown=0.1) for _ in range(2)]
    return w
