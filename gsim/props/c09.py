from .shared import REAL, STUB, sched  # noqa: F401
from .. import rows, machines

ID = "C09"
RUNS, QUICK, THOROUGH = 8, 350, 6000
RULE = ("a run is 1-3 clients, each selecting from, copying, rewriting and printing its own particle sets and events "
        "whose rows carry a tag in every column, with seeded interleaving and, in half of the runs, injected failures; "
        "every object is compared with its model after every operation; non-trivial: a context switch or a fault; "
        "distinct: different sequence of (client, code position) steps")


def draw(rng, tier):
    return {**machines.histories(rng, rows.ROWS_F, rows.ROWS_W), **sched(rng, rng.random() < 0.5)}


def run(gcl, spec):
    return machines.run_history(gcl, spec, rows.Rows)
