from .shared import *  # noqa: F401,F403
from .shared import clients, sched, ops, runner
from .. import ops_pdg, ops_cols  # noqa: F401

ID = "C18"
RUNS, QUICK, THOROUGH = 10, 700, 9000
RULE = ("a run is 1-3 clients comparing, combining, reducing, reading and printing shared columns of particle data, besides "
        "momentum queries, with seeded interleaving and, in half of the runs, injected failures; non-trivial: a context switch or "
        "a fault; distinct: different sequence of (client, code position) steps")


def draw(rng, tier):
    world = ops.make_world(rng, npmu=2, nev=rng.choice([1, 1, 2]), special=0.1, nord=1, big=0.04)
    world["codes"] = [ops_pdg.codes(rng) for _ in range(rng.randint(1, 2))]
    names = [n for n in ops.families("cols")] * 3 + ["pt", "eta", "mass", "rapidity", "pmu_arith", "pmu_getitem", "graph_getitem"]
    return {"world": world, "clients": clients(rng, world, names, nc=(1, 2, 2, 3), nops=(3, 8)), **sched(rng, rng.random() < 0.5)}


def run(gcl, spec):
    return runner.run_shared(gcl, spec, frozen=True, audit=True)
