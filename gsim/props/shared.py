"""Common parts of the properties whose runs are clients querying shared objects."""
from .. import ops, ops_graph, runner  # noqa: F401

REAL = ["every module of graphicle, its compiled kernels included", "numpy", "numba", "pandas", "scipy",
        "networkx", "OS threads as client contexts"]
STUB = ["thread scheduler (baton passing under seeded decisions)",
        "lock constructors reached from the package (schedulable, deadlock-detecting)",
        "operating-system failure (seeded allocation failures and interrupts)"]


def clients(rng, world, names, nc=(2, 2, 2, 3), nops=(2, 5), focus=0.5, weights=None):
    """Programs for several clients.  With probability `focus` they contend
    for one object with a handful of operations."""
    k = rng.choice(nc)
    pick = names
    if rng.random() < focus:
        pick = [names[rng.randrange(len(names))] for _ in range(rng.randint(1, 3))]
        weights = None
    out = []
    for _ in range(k):
        prog = [ops.draw(rng, world, pick, weights) for _ in range(rng.randint(*nops))]
        out.append(prog)
    if rng.random() < 0.5 and len(world["pmu"]) > 1:
        # everybody at the same object, where its rows allow it
        for prog in out[1:]:
            for j, a in enumerate(prog):
                if rng.random() < 0.4:
                    prog[j] = dict(out[0][rng.randrange(len(out[0]))])
    return out


def sched(rng, faults=False):
    d = {"p": rng.choice([0.005, 0.02, 0.06, 0.2, 0.5]), "p_op": rng.choice([0.2, 0.5, 0.9]),
         "first": rng.randrange(3)}
    if faults:
        d["fault_kinds"] = rng.choice([["alloc"], ["intr"], ["alloc", "intr"]])
        d["fault_p"] = rng.choice([0.01, 0.05, 0.2])
    return d


def shrink(spec):
    """Smaller worlds: drop the objects no remaining operation names, and rows
    are left alone (masks refer to them)."""
    if "world" not in spec:
        return
    used = {a[k] for c in spec["clients"] for a in c for k in ("p", "q") if k in a}
    w = spec["world"]
    for i, rows in enumerate(w["pmu"]):
        if i not in used and len(rows) > 1:
            new = dict(w, pmu=[([r[0]] if j == i else r) for j, r in enumerate(w["pmu"])])
            yield dict(spec, world=new)
