from .shared import *  # noqa: F401,F403
from .shared import clients, sched, ops, runner

ID = "C01"
RUNS, QUICK, THOROUGH = 8, 700, 9000
RULE = ("a run is 2-3 clients issuing 2-5 momentum queries each at shared momentum sets under a seeded scheduler; "
        "non-trivial: at least one context switch inside the run; distinct: different sequence of (client, "
        "code position) steps")


def draw(rng, tier):
    world = ops.make_world(rng, npmu=rng.choice([2, 3]), nev=0, special=rng.choice([0.0, 0.1, 0.4]), nord=1, big=0.04)
    return {"world": world, "clients": clients(rng, world, ops.families("mom")), **sched(rng)}


def run(gcl, spec):
    return runner.run_shared(gcl, spec, audit=True, coherent=True)
