from .shared import REAL, STUB, sched  # noqa: F401
from .. import groups, machines

ID = "C08"
RUNS, QUICK, THOROUGH = 8, 700, 9000
RULE = ("a run is 1-3 clients, each applying 5-18 mapping operations and reads to its own nested, partly shared mask "
        "groups, with seeded interleaving and, in half of the runs, injected failures; every group is compared with "
        "its model after every operation; non-trivial: a context switch or a fault; distinct: different sequence of "
        "(client, code position) steps")


def draw(rng, tier):
    spec = {**machines.histories(rng, groups.GROUP_F, groups.GROUP_W, n=(5, 18)), **sched(rng, rng.random() < 0.5)}
    for i in spec["init"]:
        i["faulty"] = "fault_kinds" in spec
    return spec


def run(gcl, spec):
    return machines.run_history(gcl, spec, groups.Groups)
