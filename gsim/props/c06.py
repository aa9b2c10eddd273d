from .shared import REAL, STUB, sched  # noqa: F401
from .. import machines

ID = "C06"
RUNS, QUICK, THOROUGH = 8, 500, 7000
RULE = ("a run is 1-3 clients, each owning momentum sets and an event, replacing and rewriting their data in every "
        "way a caller can between queries of derived quantities, with seeded interleaving and, in half of the runs, "
        "injected failures; non-trivial: a context switch or a fault; distinct: different sequence of (client, code "
        "position) steps")


def draw(rng, tier):
    return {**machines.histories(rng, machines.MUT_F, machines.MUT_W), **sched(rng, rng.random() < 0.5)}


def run(gcl, spec):
    return machines.run_history(gcl, spec, machines.Mutation)
