import warnings

from .shared import *  # noqa: F401,F403
from .shared import clients, sched, ops, runner

ID = "C03"
RUNS, QUICK, THOROUGH = 8, 700, 9000
RULE = ("a run is 1-3 clients querying shared objects while allocation failures and interrupts are injected into "
        "their operations; every failed operation is retried and every shared object audited at the end; "
        "non-trivial: a fault fired or a context switch happened; distinct: different sequence of (client, code "
        "position) steps")


def draw(rng, tier):
    world = ops.make_world(rng, npmu=rng.choice([2, 3]), nev=rng.choice([0, 1]), special=rng.choice([0.1, 0.1, 0.5]), nord=1)
    fams = ["mom"] + (["graph", "assign"] if world["ev"] else [])
    if world["ev"] and rng.random() < 0.2:
        fams.append("slowgraph")
    return {"world": world, "clients": clients(rng, world, ops.families(*fams), nc=(1, 2, 2, 3)),
            **({"warn": "error"} if rng.random() < 0.2 else {}), **sched(rng, True)}


def run(gcl, spec):
    with warnings.catch_warnings():
        if spec.get("warn"):
            warnings.simplefilter("error", gcl.base.NumericalStabilityWarning)
        return runner.run_shared(gcl, spec, audit=True, frozen="failed")
