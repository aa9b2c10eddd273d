from .shared import *  # noqa: F401,F403
from .shared import clients, sched, ops, runner

ID = "C05"
RUNS, QUICK, THOROUGH = 8, 700, 9000
RULE = ("a run is 1-3 clients querying shared objects, half of the runs with injected failures; after every "
        "operation the bytes of every input are compared with their image before the run and at the end every "
        "earlier result with its value when returned; non-trivial: a context switch or a fault; distinct: "
        "different sequence of (client, code position) steps")


def draw(rng, tier):
    world = ops.make_world(rng, npmu=rng.choice([2, 3]), nev=rng.choice([0, 1]), special=0.1, nord=1, big=0.04)
    fams = ["mom"] + (["graph", "assign"] if world["ev"] else [])
    if world["ev"] and rng.random() < 0.2:
        fams.append("slowgraph")
    return {"world": world, "clients": clients(rng, world, ops.families(*fams), nc=(1, 2, 2, 3)),
            **sched(rng, rng.random() < 0.5)}


def run(gcl, spec):
    return runner.run_shared(gcl, spec, frozen=True, audit=True)
