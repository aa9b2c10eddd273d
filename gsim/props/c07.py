from .shared import REAL, STUB, sched  # noqa: F401
from .. import machines

ID = "C07"
RUNS, QUICK, THOROUGH = 8, 700, 9000
RULE = ("a run is 1-3 clients, each copying, selecting from and writing to its own data structures of every kind, "
        "with seeded interleaving and, in half of the runs, injected failures; every object is compared with its "
        "model after every operation; non-trivial: a context switch or a fault; distinct: different sequence of "
        "(client, code position) steps")


def draw(rng, tier):
    return {**machines.histories(rng, machines.COPY_F, machines.COPY_W), **sched(rng, rng.random() < 0.5)}


def run(gcl, spec):
    return machines.run_history(gcl, spec, machines.Copies)
