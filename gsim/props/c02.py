from .shared import *  # noqa: F401,F403
from .shared import clients, sched, ops, runner

ID = "C02"
RUNS, QUICK, THOROUGH = 8, 450, 7000
RULE = ("a run is 2-3 clients issuing 2-5 event-graph and hard-process queries each at shared event records under "
        "a seeded scheduler; non-trivial: at least one context switch inside the run; distinct: different "
        "sequence of (client, code position) steps")


def draw(rng, tier):
    world = ops.make_world(rng, npmu=1, nev=rng.choice([1, 1, 2]), special=0.0, nord=1, small=rng.random() < 0.6)
    names = ops.families("graph") + (ops.families("slowgraph") if rng.random() < 0.25 else [])
    return {"world": world, "clients": clients(rng, world, names, nops=(2, 4)), **sched(rng)}


def run(gcl, spec):
    return runner.run_shared(gcl, spec, audit=True, coherent=True)
